"""Runs the command in a scratch directory and parses what it prints."""
import json, os, re, resource, shutil, signal, subprocess, tempfile
from . import build, ec
from .core import SCALE, Timeout, Violation, check

_SCRATCH = None
OVERLAY = None  # {kind, env, args, ...}: how every command of another property's check is run instead


def scratch():
    global _SCRATCH
    if _SCRATCH is None or not os.path.isdir(_SCRATCH):
        _SCRATCH = tempfile.mkdtemp(prefix="vf-")
    return _SCRATCH


def cleanup():
    global _SCRATCH
    if _SCRATCH:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


class Res:
    def __init__(self, rc, out, err, cpu, dir):
        self.rc, self.out, self.err, self.cpu_hit, self.dir = rc, out, err, cpu, dir

    def brief(self):
        return "rc=%s stdout=%r stderr=%r" % (self.rc, self.out[:400], self.err[-400:])


def run(args, stdin="", seed=1, files=None, cpu=30, kind="O", env=None, wall=None, keep=None):
    """files: {name: text} written before the run; '@name' in args is replaced by its path; keep:
    names of files to read back (Res.files)."""
    if OVERLAY:
        kind, env = OVERLAY["kind"], dict(env or {}, **OVERLAY.get("env", {}))
        args = OVERLAY.get("args", []) + args
        keep = list(keep or []) + OVERLAY.get("keep", [])
        cpu = min(int(cpu * OVERLAY.get("slower", 1)), OVERLAY.get("cpu", 1000))
    cpu *= SCALE[0]
    exe = build.cli(kind)
    d = tempfile.mkdtemp(dir=scratch())
    try:
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("latin-1"))
        argv = [exe] + [re.sub(r"@([A-Za-z0-9_.]+)", lambda m: os.path.join(d, m.group(1)), a) for a in args]
        e = {"PATH": os.environ["PATH"], "HOME": d, "LC_ALL": "C", "TMPDIR": d,
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}
        if seed is not None:
            e["VF_SEED"] = str(seed)
        e.update((k, re.sub(r"^@", d + "/", v)) for k, v in (env or {}).items())

        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=d, env=e, preexec_fn=pre, start_new_session=True)
        hit = False
        try:
            out, err = p.communicate(stdin if isinstance(stdin, bytes) else stdin.encode("latin-1"),
                                     timeout=wall or cpu * 3 + 20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            hit = True
        if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            hit = True
        r = Res(p.returncode, out.decode("latin-1"), err.decode("latin-1"), hit, d)
        r.files = {}
        for n in keep or ():
            q = os.path.join(d, n)
            r.files[n] = open(q, "rb").read().decode("latin-1") if os.path.exists(q) else None
        if OVERLAY and "seen" in OVERLAY:
            OVERLAY["seen"](args, r)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_ok(args, **kw):
    """A run that has to succeed and print a JSON array of curves."""
    r = run(args, **kw)
    if r.cpu_hit:
        raise Timeout("CPU limit")
    check(r.rc == 0, lambda: "ecgen %s: unexpected failure: %s" % (" ".join(args), r.brief()))
    return r, parse(r.out)


def parse(text):
    try:
        v = json.loads(text, object_pairs_hook=_nodup)
    except ValueError as e:
        raise Violation("output is not valid JSON (%s): %r" % (e, text[-300:]), "bad-json")
    check(isinstance(v, list), "output is not a JSON array", "bad-json")
    return v


def _nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


HEX = re.compile(r"0x(0|[1-9a-f][0-9a-f]*)$")
HEXP = re.compile(r"0x[0-9a-f]+$")


def num(s):
    check(isinstance(s, str) and HEX.match(s), "not a canonical hex number: %r" % (s,))
    return int(s, 16)


def padded(s, digits, what):
    check(isinstance(s, str) and HEXP.match(s), "%s is not a hex number: %r" % (what, s))
    v = int(s, 16)
    h = s[2:]
    check(len(h) == max(digits, len("%x" % v)), "%s = %s is not padded to %d digits" % (what, s, digits))
    return v


class Curve:
    """Decoded curve. Only the encoding is checked here."""

    def __init__(self, o, bits):
        dig = 2 * ((bits + 7) // 8)
        check(isinstance(o, dict), "curve is not an object")
        extra = set(o) - {"field", "seed", "a", "b", "order", "subgroups", "meta"}
        check(not extra, "unknown keys %s" % extra)
        f = o.get("field")
        check(isinstance(f, dict), "no field")
        self.raw, self.dig = o, dig
        if "p" in f:
            check(set(f) == {"p"}, "field keys %s" % sorted(f))
            self.p, self.m = padded(f["p"], dig, "p"), None
        else:
            check(set(f) == {"m", "e1", "e2", "e3"}, "field keys %s" % sorted(f))
            self.p = None
            self.m, self.e = num(f["m"]), [num(f[k]) for k in ("e1", "e2", "e3")]
        self.a, self.b = padded(o.get("a"), dig, "a"), padded(o.get("b"), dig, "b")
        self.order = padded(o.get("order"), dig, "order")
        self.seed = o.get("seed")
        self.subs = []
        sg = o.get("subgroups", [])
        check(isinstance(sg, list), "subgroups is not an array")
        check("subgroups" not in o or sg, "empty subgroups array")
        for s in sg:
            check(set(s) <= {"x", "y", "order", "cofactor", "points"}, "subgroup keys %s" % sorted(s))
            g = Sub()
            g.P = (padded(s.get("x"), dig, "x"), padded(s.get("y"), dig, "y"))
            g.order, g.cofactor = num(s.get("order")), num(s.get("cofactor"))
            g.points = []
            check("points" not in s or s["points"], "empty points array")
            for t in s.get("points", []):
                check({"x", "y", "order"} <= set(t) <= {"x", "y", "order", "cofactor"}, "point keys %s" % sorted(t))
                g.points.append(((padded(t["x"], dig, "x"), padded(t["y"], dig, "y")), num(t["order"])))
            self.subs.append(g)
        self.meta = o.get("meta")

    @property
    def q(self):
        return self.p if self.p is not None else 1 << self.m

    def poly(self):
        f = (1 << self.m) | 1
        for e in self.e:
            f |= (1 << e) if e else 0
        return f

    def E(self):
        if not hasattr(self, "_E"):
            self._E = ec.Fp(self.p, self.a, self.b) if self.p is not None else ec.F2m(self.poly(), self.a, self.b)
        return self._E


class Sub:
    pass


def curves(text, bits, n=None):
    v = parse(text)
    if n is not None:
        check(len(v) == n, "%d curves printed, %d requested" % (len(v), n), "count")
    return [Curve(o, bits) for o in v]


def ok_curves(args, bits, n=1, **kw):
    r = run(args, **kw)
    if r.cpu_hit:
        raise Timeout("CPU limit")
    check(r.rc == 0, lambda: "ecgen %s failed: %s" % (" ".join(args), r.brief()), "failed")
    return curves(r.out, bits, n), r
