"""Whatever the command line and the input: the tool built with the address and undefined-behaviour
sanitizers ends with an exit status, without a report."""
import importlib, re
from hypothesis import strategies as st
from vf import build, cli, gens, methods, nt
from vf.core import Facet, Prop, Inconclusive, check
from props import c09, c18

SOURCES = [("c01", "mixed"), ("c01", "unreduced"), ("c03", "mixed"), ("c04", "small"), ("c04", "mixed"), ("c04", "methods"), ("c05", "random"), ("c05", "given"),
           ("c06", "random"), ("c06", "given"), ("c07", "random"), ("c07", "given"), ("c08", "success"), ("c08", "failure"), ("c08", "unwritable"),
           ("c09", "given"), ("c09", "seeds"), ("c09", "families"), ("c10", "command"), ("c11", "whole"), ("c12", "whole"), ("c13", "histories"),
           ("c14", "runs"), ("c15", "runs"), ("c16", "runs"), ("c16", "refused"), ("c17", "given"), ("c17", "random"), ("c18", "single"), ("c18", "threads"),
           ("c18", "empty"), ("c19", "small"), ("c20", "small"), ("c20", "default"), ("c20", "other"), ("c25", "options"), ("c26", "options"),
           ("c26", "options"), ("c26", "contradictions"), ("c27", "effects")]


def facet(src):
    for x in importlib.import_module("props." + src[0]).PROP.facets:
        if x.name == src[1]:
            return x
    raise KeyError(src)


def died(r):
    check("runtime error:" not in r.err and "Sanitizer" not in r.err, lambda: "sanitizer report: %s" % report(r), "crash")
    check(r.cpu_hit or 0 <= r.rc < 90, lambda: "did not end normally: %s" % report(r), "crash")


def report(r):
    i = max(0, min([x for x in (r.err.find("runtime error"), r.err.find("ERROR: Addr")) if x >= 0] or [len(r.err) - 600]) - 100)
    return "rc=%s stderr: %s" % (r.rc, r.err[i:i + 1200])


class overlay:
    def __init__(self, seen, kind="asan", slower=3, cpu=12):
        self.o = {"kind": kind, "seen": seen, "slower": slower, "cpu": cpu}

    def __enter__(self):
        cli.OVERLAY = self.o

    def __exit__(self, *a):
        cli.OVERLAY = None


@st.composite
def requests(draw):
    src = draw(st.sampled_from(SOURCES))
    return {"src": list(src), "case": draw(facet(src).strategy())}


def run_requests(c):
    n = []

    def seen(args, r):
        n.append(r.rc)
        died(r)
    with overlay(seen):
        facet(c["src"]).run(c["case"])
    return (["nontrivial"] if n else []) + [c["src"][0], "fails" if any(n) else "succeeds"]


# ---- command lines that nobody would write

FLAGS = ["--fp", "--f2m", "--supersingular", "--anomalous", "--nums", "--twist", "-p", "--prime", "-u", "--unique", "--metadata", "-a", "--append", "-v", "--verbose",
         "-r", "--random", "--ansi", "-s", "--brainpool", "-b", "--brainpool-rfc", "-i", "--invalid", "-K", "--koblitz", "--help", "--usage", "-?", "--version", "-V", "--"]
VALUED = ["order", "ansi", "brainpool", "brainpool-rfc", "invalid", "family", "random", "cofactor", "smooth", "koblitz", "hex-check", "points", "count", "timeout",
          "verbose", "input", "output", "data-dir", "memory", "threads", "thread-stack"]
SHORT = {"order": "n", "ansi": "s", "brainpool": "b", "invalid": "i", "family": "F", "random": "r", "cofactor": "k", "smooth": "B", "koblitz": "K", "count": "c",
         "verbose": "v", "input": "f", "output": "o", "data-dir": "d", "memory": "m"}
PATHS = ("verbose", "input", "output", "data-dir")
EDGE = ["", "0", "1", "2", "-1", "00", "0x", "0x1", "0xffffffffffffffffff", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "65535", "65536", "65537",
        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e9", " 1", "1 ", "+1", "1.5", "nan", "\xff", "%s%n", "0-0", "0-",
        "-0", "-", "--", "1-2", "10-3", "3-3", "9999999999-99999999999", "1-2-3", ",", "1,", ",1", "1,2,3", "0,0", "a,b", "a,,b", "field,", ",field", "seed,field,a,b,equation",
        "BN", "bls12", "KSS40", "random", "1random", "0random", "99999999999999999999random", "5 random", "-1random", "prime", "all", "nonprime", "none", "noneX",
        "1s", "1d", "1k", "1g", "99999999999999999d", "s", "k"]
SANE = {"cofactor": st.integers(1, 8).map(str), "smooth": st.integers(8, 30).map(str), "koblitz": st.sampled_from(["0", "1"]), "points": st.sampled_from(["prime", "all", "none", "3random"]),
        "count": st.integers(1, 3).map(str), "random": st.sampled_from(["a", "b", "field", "seed", "equation", "a,b", "seed,field,a,b"]), "family": st.sampled_from(["BN", "BLS12", "KSS16"]),
        "timeout": st.sampled_from(["1s", "1m", "5d"]), "memory": st.sampled_from(["1m", "10m", "100m", "1g", "1000000000"]), "threads": st.integers(1, 8).map(str),
        "thread-stack": st.sampled_from(["1m", "10m", "100m", "1", "1000", "1k"]), "input": st.just("@in"), "output": st.just("@out"), "verbose": st.just("@log"), "data-dir": st.just("@no"),
        "hex-check": st.text("0123456789abcdef", min_size=1, max_size=2), "invalid": st.sampled_from(["5-20", "30", "10-", "3-11"]), "order": st.integers(5, 1 << 24).map(str),
        "ansi": methods.hexstr(40), "brainpool": methods.hexstr(40), "brainpool-rfc": methods.hexstr(40)}
LETTERS = st.text("0123456789abfprsx-,.kKmMgGdhuKBciF_=@% \xe9\x01\n", max_size=40)
LONG = st.builds(lambda c, n: c * n, st.sampled_from("0123456789abfFxX-,r"), st.sampled_from([100, 255, 256, 257, 1023, 1024, 1025, 4096, 65536]))


METHODS = ("order", "ansi", "brainpool", "brainpool-rfc", "invalid", "family")  # more than one is refused
NOISE = ["--fp", "--f2m", "--supersingular", "--anomalous", "--nums", "--twist", "--ansi", "-s", "--brainpool", "-b", "--brainpool-rfc", "-i", "--invalid", "--help", "--usage",
         "-?", "--version", "-V", "--"]


@st.composite
def token(draw, wild):
    k = draw(st.integers(0, 9)) if wild else draw(st.integers(0, 8))
    if k < 3:
        t = draw(st.sampled_from(FLAGS))
        return [t] if wild or t not in NOISE else []
    if k == 9:
        return [draw(st.one_of(LETTERS, st.sampled_from(EDGE), LONG))]
    o = draw(st.sampled_from(VALUED))
    if o in PATHS:
        v = draw(st.sampled_from(["@in", "@out", "@no", "@in", "@out", "", "x", ".", "..", "@in/x"]))
    elif not wild:
        v = draw(SANE[o])
    else:
        v = draw(st.one_of(SANE[o], SANE[o], st.sampled_from(EDGE), LETTERS, LONG if o != "threads" else SANE[o]))
    if o == "threads" and re.match(r"0*[1-9]\d\d+", v):
        v = "64"  # a thread takes a stack of its own: keep the machine alive
    if o == "count" and len(v) > 60:
        v = v[:60]
    f = draw(st.integers(0, 3))
    if not wild and o in METHODS:
        return []
    if f == 0 and o in SHORT:
        return ["-" + SHORT[o] + v]
    if f == 1 and o in SHORT:
        return ["-" + SHORT[o], v]
    n = o if draw(st.integers(0, 4)) else o[:draw(st.integers(1, len(o)))]  # abbreviations
    return ["--%s=%s" % (n, v)] if f == 2 else ["--" + n, v]


SIZE = st.one_of(st.integers(0, 40).map(str), st.integers(3, 28).map(str), st.integers(3, 28).map(str), st.sampled_from(["0", "1", "2", "64", "65", "127", "192", "256", "521", "1024", "10000", "65535", "65536"] + EDGE))


@st.composite
def stream(draw, bits=None):
    """Bytes that a reader of numbers may like or not."""
    b = bits or 16
    val = st.one_of(
        st.integers(0, 1 << b).map(str), st.integers(0, 1 << b).map(hex), st.integers(1, 1 << 14).map(lambda r: str(gens.prime_from(max(3, min(b, 64)), r))),
        st.sampled_from(EDGE + c09.GARBAGE), st.just(str(b)), st.integers(0, b + 1).map(str), st.integers(-(1 << b), -1).map(str), methods.hexstr(40), methods.hexstr(40),
        LETTERS, st.integers(1 << b, 1 << (4 * b + 200)).map(str), st.text("0123456789abcdefx-", max_size=400))
    v = draw(st.lists(val, max_size=14))
    d = draw(st.sampled_from(["\n", "\n", ",", "\r\n", ",\n", "\0", " "]))
    t = d.join(v).encode("latin-1", "replace") + draw(st.sampled_from([b"", d.encode()]))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2, 5]))):
        if not t:
            break
        i = draw(st.integers(0, len(t) - 1))
        k = draw(st.integers(0, 3))
        x = bytes([draw(st.integers(0, 255))])
        t = t[:i] + x + t[i + 1:] if k == 0 else t[:i] + x + t[i:] if k == 1 else t[:i] + t[i + 1:] if k == 2 else t[:i] + t[i:] * 2
    if draw(st.integers(0, 40)) == 0:
        t += bytes([draw(st.integers(0, 255))]) * draw(st.sampled_from([4095, 4096, 4097, 100000]))
    return t.decode("latin-1")


@st.composite
def lines(draw):
    k = draw(st.integers(0, 19))
    if k == 19:
        a = []
    elif k < 6:
        a = ["--fp"] if draw(st.integers(0, 2)) else ["--f2m"]
    else:
        m = draw(methods.any_method())
        a = m["args"][:-1]
    n = draw(st.integers(0, 5))
    wild = draw(st.sampled_from([0, 1, 0, 1, 0, 0, 0, 1, 0, n]))
    for j in range(n):
        a += draw(token(j < wild))
    if wild and a:
        i = draw(st.integers(0, len(a)))
        a = a[:i] + draw(token(True)) + a[i:]
    for _ in range(draw(st.sampled_from([1] * 18 + [0, 2]))):
        a = a + [draw(st.one_of(*[st.integers(3, 28).map(str)] * 9, SIZE))]
    if draw(st.integers(0, 29)) == 29 and a:
        i = draw(st.integers(0, len(a) - 1))
        a = a[:i] + a[i + 1:]
    # nothing outside the directory of the run
    a = [re.sub(r"/", "", x) if "@" not in x else x for x in a if "\0" not in x]
    return {"args": a, "stdin": draw(stream()), "in": draw(stream()), "seed": draw(gens.SEEDS)}


def harmless(args):
    return all("/" not in re.sub(r"@([A-Za-z0-9_.]+)/x", "", x) for x in args)


def run_lines(c):
    if not harmless(c["args"]):
        raise Inconclusive("path")
    r = cli.run(c["args"], stdin=c["stdin"], files={"in": c["in"]}, seed=c["seed"], cpu=1, kind="asan", wall=60)
    died(r)
    l = ["cut at the CPU limit" if r.cpu_hit else "status %d" % r.rc]
    if r.cpu_hit or r.rc == 0 or r.out or r.err:
        l.append("nontrivial")
    return l


# ---- any bytes as input of a sensible command line

HEADS = [["--fp"], ["--fp"], ["--f2m"], ["--f2m"], ["--fp", "--random=a"], ["--fp", "--random=b"], ["--fp", "--random=field"], ["--f2m", "--random=a"], ["--f2m", "--random=b"],
         ["--fp", "--ansi"], ["--f2m", "--ansi"], ["--fp", "-r", "--ansi"], ["--fp", "--brainpool"], ["--fp", "--brainpool-rfc"], ["--fp", "--nums"], ["--fp", "--order"],
         ["--fp", "--order=100003"], ["--fp", "--supersingular"], ["--fp", "--family=BN"], ["--fp", "--family=BLS12"], ["--fp", "--family=BLS24"], ["--fp", "--family=KSS16"],
         ["--fp", "--family=KSS18"], ["--fp", "--family=KSS36"], ["--fp", "--family=KSS40"], ["--fp", "--twist"], ["--f2m", "--twist"], ["--fp", "--invalid=3-9"],
         ["--f2m", "--invalid=3-9"], ["--fp", "-K"], ["--f2m", "-K1"], ["--fp", "--anomalous", "-r"]]


@st.composite
def bytes_(draw):
    a = list(draw(st.sampled_from(HEADS)))
    bits = draw(st.one_of(st.integers(3, 24), st.integers(3, 64), st.sampled_from([1, 2, 128, 256])))
    k = draw(st.integers(0, 3))
    if k == 0:
        t = draw(stream(bits))
    elif k == 1:
        t = draw(st.binary(max_size=300)).decode("latin-1")
    else:
        f = draw(st.sampled_from([c09.given, c09.given, c09.seeds, c09.families]))
        g = draw(f())
        t = g["text"]
        if "algo" in g:
            a = ["--" + g["field"], "--" + g["algo"]]
        elif "fam" in g:
            a = ["--fp", "--family=" + g["fam"]]
        else:
            a = ["--" + g["field"]]
        bits = g["bits"]
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 4]))):
            i = draw(st.integers(0, len(t)))
            x = draw(st.one_of(st.integers(0, 255).map(chr), st.sampled_from(EDGE)))
            t = t[:i] + x + t[i + draw(st.integers(0, 2)):]
    for x in draw(st.lists(st.sampled_from([["-c2"], ["--points=all"], ["--points=random"], ["--metadata"], ["-p"], ["-u"], ["-B20"], ["-k2"], ["--hex-check=1"], ["-v"], ["--timeout=1s"],
                                            ["--threads=2"], ["-a"], ["-o", "@out"]]), max_size=2)):
        a += x
    return {"args": a, "bits": bits, "text": t, "file": draw(st.booleans()), "seed": draw(gens.SEEDS)}


def run_bytes(c):
    a, files, stdin = c["args"], {}, c["text"]
    if c["file"]:
        a, files, stdin = a + ["-f", "@in"], {"in": c["text"]}, ""
    r = cli.run(a + [str(c["bits"])], stdin=stdin, files=files, seed=c["seed"], cpu=1, kind="asan", wall=60)
    died(r)
    return ["nontrivial", "cut at the CPU limit" if r.cpu_hit else "status %d" % r.rc]


# ---- worker threads

@st.composite
def races(draw):
    return {"case": draw(c18.runs((2, 3, 4, 8)))}


def run_races(c):
    n = []

    def seen(args, r):
        n.append(r.rc)
        check("ThreadSanitizer" not in r.err and r.rc != 66, lambda: "rc=%s %s" % (r.rc, r.err[:1500]), "race")
    with overlay(seen, "tsan"):
        c18.run(c["case"])
    return ["nontrivial"]


PROP = Prop(
    "C32",
    "requests: the case ran at least one command; lines: the command printed something or was still computing at the CPU limit; bytes, threads: every case",
    [Facet("requests", requests, run_requests, 640, 16000),
     Facet("lines", lines, run_lines, 900, 40000),
     Facet("bytes", bytes_, run_bytes, 900, 40000),
     Facet("threads", races, run_races, 64, 2000)],
    "fuzzing: structured random command lines and mutated input streams, and the requests of all other properties, run with the address and undefined-behaviour sanitizers, and the thread sanitizer for worker threads",
    "Random exploration with gcc's address and undefined-behaviour sanitizers over the tool's own code (libpari itself is not instrumented). A run still computing at its CPU limit is cut off.",
    builds=[build.cli, lambda: build.cli("asan"), lambda: build.cli("tsan")])
