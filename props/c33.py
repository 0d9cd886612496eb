"""The requests of other properties' checks, judged as there, while timers expire."""
import importlib
from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, verify
from vf.core import Facet, Prop, Violation, Inconclusive, check, Timeout
from props import c18

# property, facet: requests without input (after a timeout the input is read on, not again)
SOURCES = [("c01", "mixed"), ("c04", "mixed"), ("c05", "random"), ("c06", "random"), ("c07", "random"), ("c10", "command"), ("c11", "whole"), ("c12", "whole"),
           ("c13", "histories"), ("c14", "runs"), ("c15", "runs"), ("c16", "runs"), ("c17", "random"), ("c18", "single")]


def facet(src):
    m, f = src
    p = importlib.import_module("props." + m).PROP
    for x in p.facets:
        if x.name == f:
            return x
    raise KeyError((src, [x.name for x in p.facets]))


def with_input(c):
    return bool(c.get("stdin")) or c.get("method") == "given" or "given" in c.get("args", []) or c.get("how") in ("stdin", "own") or bool(c.get("files")) or "p" in c


@st.composite
def fires(draw):
    return [draw(st.integers(0, 9999)), draw(st.sampled_from([1, 1, 2, 3, 5, 8, 20])), draw(st.sampled_from([0, 3, 5, 6, 7, 8, 10, 13])), draw(st.sampled_from([0, 0, 1, 2, 4]))]


@st.composite
def case(draw):
    src = draw(st.sampled_from(SOURCES))
    c = draw(facet(src).strategy().filter(lambda c: not with_input(c)))
    return {"src": list(src), "case": c, "fire": draw(fires())}


class Fired:
    def __init__(self):
        self.n = self.blocked = self.runs = 0

    def __call__(self, args, r):
        log = r.files.get("firelog") or ""
        self.n += log.count("fired")
        self.blocked += log.count("blocked")
        self.runs += 1
        died(r)


def died(r):
    check(r.cpu_hit or 0 <= r.rc < 90, lambda: "died: %s" % r.brief(), "crash")


class overlay:
    def __init__(self, fire, **kw):
        self.f = Fired()
        self.o = {"kind": "inst", "env": {"VF_FIRE": ":".join(map(str, fire)), "VF_FIRELOG": "@firelog"}, "args": ["--timeout=100000s"],
                  "keep": ["firelog"], "seen": self.f, "slower": 3}
        self.o.update(kw)

    def __enter__(self):
        cli.OVERLAY = self.o
        return self.f

    def __exit__(self, *a):
        cli.OVERLAY = None


def run(c):
    with overlay(c["fire"]) as f:
        facet(c["src"]).run(c["case"])
    l = [c["src"][0]]
    if f.n:
        l += ["nontrivial", "expired:%s" % ("1" if f.n == 1 else "2-5" if f.n <= 5 else ">5")]
    if f.blocked:
        l.append("while blocked")
    return l


@st.composite
def twist(draw):
    c = draw(methods.twist().filter(lambda c: not with_input(c)))
    return {"case": c, "fire": draw(fires())}


def sound(cs, c):
    for cv in cs:
        verify.domain(cv, c["bits"], c.get("method") != "given")
        if verify.usable(cv):
            verify.order(cv)
            if "--points=none" not in c["args"]:
                verify.generators(cv)
            for g in cv.subs:
                for P, n in g.points:
                    verify.point(cv, g, P, n)


def labels(f):
    return ["nontrivial", "expired:%s" % ("1" if f.n == 1 else "2-5" if f.n <= 5 else ">5")] if f.n else []


def run_twist(c):
    with overlay(c["fire"]) as f:
        cs, _ = methods.execute(c["case"])
    sound(cs, c["case"])
    return labels(f)


@st.composite
def given(draw):
    """Input is read on after a timeout: it is repeated here."""
    c = methods.from_default(draw(gens.curve_case(methods=("given",), constraint=("none",), fp_hi=48, f2m_hi=20)))
    if draw(st.integers(0, 3)) == 0:
        c = methods.with_extra(c, ["--twist"])
    return {"case": c, "fire": draw(fires()), "times": draw(st.sampled_from([1, 2, 4, 30]))}


def run_given(c):
    m, k = c["case"], c["times"]
    files = {n: t * k for n, t in m["files"].items()}
    with overlay(c["fire"]) as f:
        r = cli.run(m["args"], stdin=m["stdin"] * k, seed=m["seed"], files=files, cpu=5)
    if r.cpu_hit:
        raise Timeout("cpu")
    if r.rc:
        check(f.n > 0, lambda: "failed without a timeout: %s" % r.brief())
        check(cli.parse(r.out or "[]") == [], "a curve was printed by a failed run")
        return labels(f) + ["failed"]
    cs = cli.curves(r.out, m["bits"], 1)
    sound(cs, m)
    return labels(f) + ["done"]


@st.composite
def threads(draw):
    return {"case": draw(c18.runs((2, 3, 4, 8)).filter(lambda c: not with_input(c))), "fire": draw(fires())}


def run_threads(c):
    with overlay(c["fire"]) as f:
        c18.run(c["case"])
    return labels(f)


@st.composite
def units(draw):
    n, u = draw(st.sampled_from([("1", "s"), ("90", "s"), ("5", "m"), ("3", "h"), ("2", "d"), ("77", ""), ("100000", "s"), ("1000", "m")]))
    c = draw(st.one_of(methods.any_method(), gens.curve_case(fp_hi=40, f2m_hi=30, count=st.sampled_from([1, 2, 3])).map(methods.from_default)))
    return {"case": c, "n": n, "u": u}


def run_units(c):
    """Every step is given the whole time, from its start."""
    m, log = c["case"], []
    with overlay([0, 0, 0, 0], env={"VF_TIMERLOG": "@timers", "VF_FIRE": "0:0:0:0"}, args=["--timeout=" + c["n"] + c["u"]], keep=["timers"],
                 seen=lambda a, r: log.append(r.files["timers"])):
        methods.execute(m)
    want = int(c["n"]) * {"s": 1, "": 1, "m": 60, "h": 3600, "d": 86400}[c["u"]]
    ts = [float(x) for t in log for x in (t or "").split()]
    if m["meth"] in ("anomalous", "supersingular", "cm"):
        ts = ts or [want]
    else:
        check(len(ts) >= 3, "no timers were set")
    check(all(t == want for t in ts), lambda: "timers of %s s for --timeout=%s%s" % (sorted(set(ts)), c["n"], c["u"]))
    return ["nontrivial", "unit:" + c["u"], m["meth"]]


@st.composite
def slow(draw):
    return {"bits": draw(st.integers(224, 288)), "args": draw(st.sampled_from([["-r"], ["-r", "-c3"], ["--ansi", "-r"], ["--random=field,a,b"], ["-r", "-u"], ["-r", "--points=none"],
                                                                              ["-r", "--twist"], ["-r", "-p"]])),
            "us": draw(st.integers(1000, 6000)), "seed": draw(gens.SEEDS)}


def run_slow(c):
    """By the clock: the order of such a curve takes much longer to compute than the timeout."""
    r = cli.run(["--fp", "--timeout=1s"] + c["args"] + [str(c["bits"])], seed=c["seed"], cpu=1, env={"VF_TIMER_US": str(c["us"])})
    if not r.cpu_hit and r.rc < 0:
        raise Inconclusive("PARI was interrupted in its memory management")  # see DESIGN.md, C33
    check(r.cpu_hit and "0x" not in r.out, lambda: "a step longer than the timeout was completed: %s" % r.brief())
    return ["nontrivial"]


PROP = Prop(
    "C33",
    "expire, twist, given, threads: at least one timer expired during a run whose output was verified; units: the timers set were recorded; slow: a step could not finish in time",
    [Facet("expire", case, run, 400, 12000),
     Facet("twist", twist, run_twist, 60, 2000),
     Facet("given", given, run_given, 120, 4000),
     Facet("threads", threads, run_threads, 80, 3000),
     Facet("units", units, run_units, 64, 1000),
     Facet("slow", slow, run_slow, 32, 300)],
    "property-based testing with injected faults: requests of all methods with timers that expire at generated points of the tool's own code, judged by the oracles of the other properties; recorded timers; real timers",
    "Points of expiry: any basic block of the tool's own code (instrumented objects, address sanitizer), also while PARI blocks interrupts. Expiry inside libpari is only sampled with real timers (facet slow): "
    "a jump out of its allocator can corrupt it, about once in 300000 timeouts, and is not judged.",
    builds=[build.cli, lambda: build.cli("inst")])
