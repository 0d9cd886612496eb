"""Builds what a check needs from the current tree of the repository (never inside it)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(ROOT, ".build"))

BASE = ["-DNDEBUG", "-g", "-w", "-pipe"]
KINDS = {
    "O": ["gcc", "-O1"],
    "asan": ["gcc", "-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vla-bound"],
    "tsan": ["gcc", "-O1", "-fsanitize=thread"],
}
KINDS["inst"] = KINDS["asan"]
OBJ = {"inst": ["-fsanitize-coverage=trace-pc"]}  # of the repository's objects only
WRAP = ["-Wl,--wrap=setrand", "-Wl,--wrap=timer_settime", "-Wl,--wrap=timer_delete"]


class BuildError(Exception):
    pass


def _sources():
    s = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*/*.c") + glob.glob(REPO + "/lib/*/*.c"))
    h = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*/*.h") + glob.glob(REPO + "/lib/*/*.h"))
    return s, h


def _hash(files, extra):
    d = hashlib.sha256()
    for f in files:
        d.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fh:
            d.update(fh.read())
        d.update(b"\0")
    d.update(repr(extra).encode())
    return d.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def _locked(name, fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return fn()


def _prune(prefix, keep):
    ds = [d for d in glob.glob(os.path.join(BUILD, prefix + "-*")) if os.path.isdir(d) and d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-2]:
        shutil.rmtree(d, ignore_errors=True)


def _objs(kind):
    """All objects of the repository, compiled with this kind's flags."""
    src, hdr = _sources()
    flags = KINDS[kind] + OBJ.get(kind, []) + BASE
    d = os.path.join(BUILD, "obj-%s-%s" % (kind, _hash(src + hdr, flags)))

    def go():
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            jobs = []
            for s in src:
                o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "__") + ".o")
                jobs.append(flags + ["-I" + REPO + "/src", "-I" + REPO + "/lib", "-c", s, "-o", o])
            with cf.ThreadPoolExecutor(8) as ex:
                for _ in ex.map(_run, jobs):
                    pass
            open(d + "/ok", "w").close()
            _prune("obj-" + kind, d)
        return d
    return _locked("obj-" + kind, go)


def link(name, kind, extra_c=(), main=True):
    """Link the repository (with or without its main) and extra files of ours into BUILD."""
    d = _objs(kind)
    extra = [os.path.join(ROOT, "c", e) for e in extra_c]
    h = _hash(extra + sorted(glob.glob(ROOT + "/c/*.h")), [kind])
    out = os.path.join(d, name + "-" + h)

    def go():
        if not os.path.exists(out):
            objs = sorted(o for o in glob.glob(d + "/*.o") if main or not o.endswith("/src__ecgen.c.o"))
            _run(KINDS[kind] + BASE + ["-Werror=implicit-function-declaration", "-I" + REPO + "/src", "-I" + REPO + "/lib"] + objs + extra +
                 WRAP + ["-o", out + ".tmp", "-lpari", "-lgmp", "-lpthread", "-lrt", "-lm"])
            os.rename(out + ".tmp", out)
        return out
    return _locked("link-" + name + kind, go)


def cli(kind="O"):
    return link("ecgen", kind, ["wrap.c"], True)


def driver(name, kind="asan"):
    return link(name, kind, ["wrap.c", name + ".c"], False)


def oracle(name):
    """A program of ours that does not use the repository at all."""
    src = os.path.join(ROOT, "c", name + ".c")
    d = os.path.join(BUILD, "oracle-%s-%s" % (name, _hash([src], "O2")))

    def go():
        if not os.path.exists(d + "/" + name):
            os.makedirs(d, exist_ok=True)
            _run(["gcc", "-O3", "-w", src, "-o", d + "/t", "-lm", "-lpthread"])
            os.rename(d + "/t", d + "/" + name)
        return d + "/" + name
    return _locked("oracle-" + name, go)


if __name__ == "__main__":
    import time
    t = time.time()
    for k in sys.argv[1:] or ["O", "asan", "inst", "tsan"]:
        print(cli(k), time.time() - t)
