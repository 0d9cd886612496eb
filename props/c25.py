"""Metamorphic: the same request and random state, with and without options that only concern logging, output or resources."""
import os
from hypothesis import strategies as st
from vf import build, cli, gens, methods
from vf.core import Facet, Prop, check
from props import c18

OPTS = {
    "v": ["-v"], "vv": ["-v", "-v"], "verbose": ["--verbose"], "log": ["--verbose=@run.log"], "vlog": ["-v@run.log", "-v"],
    "o": ["-o", "@out.json"], "output": ["--output=@out.json"], "oa": ["-o", "@out.json", "-a"], "append": ["--append"],
    "m": ["-m", "800m"], "m2": ["--memory=600000k"], "m3": ["-m", "2g"], "m4": ["-m", "300000000"],
    "stack": ["--thread-stack=32m"], "stack2": ["--thread-stack=3000000"],
    "threads": ["--threads=3"], "auto": ["--threads=auto"], "one": ["--threads=1"],
    "timeout": ["--timeout=1000s"], "timeout2": ["--timeout=2h"], "timeout3": ["--timeout=1d"],
    "d": ["-d", "/nonexistent/"], "d2": ["--data-dir=@here"],
}
if os.path.isdir("/usr/share/pari/seadata"):
    OPTS["same d"] = ["-d", "/usr/share/pari"]
ODD = ("d", "d2")  # without the data point counting uses up the random state otherwise


def determined(c):
    """Nothing but generators and points is random in this request."""
    return c.get("method") == "given" or c["meth"].startswith("brainpool") and "given" in c


@st.composite
def variant(draw):
    v = draw(st.lists(st.sampled_from(sorted(OPTS)), min_size=1, max_size=4, unique=True))
    return {"opts": v, "prior": draw(st.sampled_from(["", "x", "[]\n"])), "move": draw(st.booleans()), "strip": draw(st.booleans()), "front": draw(st.booleans())}


@st.composite
def default_case(draw):
    c = methods.from_default(draw(gens.curve_case(fp_hi=64, f2m_hi=40, count=st.sampled_from([1, 1, 2, 3]))))
    if draw(st.integers(0, 3)) == 0:
        c = methods.with_extra(c, ["--metadata"])
    return c


@st.composite
def mixed(draw):
    """Some of the parameters are read, the others random."""
    p = draw(gens.prime_st(10, 60, 14, 40))
    coef = st.one_of(st.integers(1, 9), st.integers(1, p - 1))
    a, b = draw(coef), draw(coef)
    w = draw(st.sampled_from(["a,b", "b", "a", "equation", "seed,equation"]))
    vals = [p] + ([a] if w == "b" else [b] if w == "a" else [])
    return methods.cmd("default", ["--fp", "--random=" + w], p.bit_length(), draw(gens.SEEDS), stdin="".join("%d\n" % v for v in vals))


@st.composite
def case(draw):
    k = draw(st.integers(0, 5))
    if k < 2:
        c = draw(default_case())
    elif k == 2:
        c = draw(mixed())
    elif k < 5:
        c = draw(methods.any_method())
        if c["meth"] in ("ansi", "anomalous") and "--random=field" not in c["args"] and draw(st.booleans()):
            c["count"] = 3
            c = methods.with_extra(c, ["-c", "3"])
    else:
        c = draw(c18.runs())
        c.update(meth="invalid", files={}, count=None)
        c["args"] = [x for x in c["args"] if not x.startswith("--verbose") and not x.startswith("--thread")]
    v = c["variant"] = draw(variant())
    if not determined(c):
        v["opts"] = [o for o in v["opts"] if o not in ODD] or ["v"]
    return c


def execute(c, args, stdin, files):
    r = cli.run(args, stdin=stdin, seed=c["seed"], files=files, cpu=5 if c["meth"] == "cm" else 20, keep=["out.json"])
    methods.exhausted(c, r)
    return r


def run(c):
    base = execute(c, c["args"], c["stdin"], dict(c["files"]))
    check(base.rc == 0, lambda: "failed: %s" % base.brief())
    again = execute(c, c["args"], c["stdin"], dict(c["files"]))
    check((again.rc, again.out) == (base.rc, base.out), lambda: "a repeated run prints %r instead of %r" % (again.out[:600], base.out[:600]))

    v = c["variant"]
    extra = [x for o in v["opts"] for x in OPTS[o]]
    args, stdin, files = list(c["args"]), c["stdin"], dict(c["files"])
    labels = ["nontrivial", c["meth"]] + v["opts"]
    if v["move"] and (stdin or "in.csv" in files):
        if stdin:
            files["in.csv"] = stdin.replace("\n", ",")
            stdin = "1\n" * 5
            extra += ["-f", "@in.csv"]
        else:
            stdin = files.pop("in.csv").replace(",", "\n")
            i = args.index("-f")
            del args[i:i + 2]
        labels.append("stdin<->file")
    if v["strip"] and (stdin or "in.csv" in files):
        # the delimiter after the last value is not needed
        if "in.csv" in files:
            files["in.csv"] = files["in.csv"].rstrip(",")
        else:
            stdin = stdin.rstrip("\n")
        labels.append("no last delimiter")
    to_file = any(o in ("o", "output", "oa") for o in v["opts"])
    if to_file:
        files["out.json"] = v["prior"]
    args = extra + args if v["front"] else args[:-1] + extra + args[-1:]
    r = execute(c, args, stdin, files)
    check(r.rc == base.rc, lambda: "with %s: %s" % (extra, r.brief()))
    out = r.out
    if to_file:
        check(r.out == "", lambda: "output goes to the file, but stdout has %r" % r.out[:300])
        out = r.files["out.json"]
        if "oa" in v["opts"] or "append" in v["opts"]:
            check(out.startswith(v["prior"]), "the previous content is gone")
            out = out[len(v["prior"]):]
    if c["meth"] == "invalid" and any(o in ("threads", "auto") for o in v["opts"]):
        # which curve is found for a prime depends on the threads, what is found does not
        x, y = cli.parse(base.out), cli.parse(out)
        check(x[0] == y[0] and len(x) == len(y), lambda: "with %s another original or number of curves: %r / %r" % (extra, out[:500], base.out[:500]))
        labels.append("invalid:threads")
    elif any(o in ODD for o in v["opts"]):
        x, y = cli.parse(base.out), cli.parse(out)
        pick = lambda l: [{k: o.get(k) for k in ("field", "seed", "a", "b", "order")} for o in l]
        check(pick(x) == pick(y), lambda: "with %s: %r instead of %r" % (extra, out[:600], base.out[:600]))
    else:
        check(out == base.out, lambda: "with %s: %r instead of %r" % (extra, out[:600], base.out[:600]))
    return labels


PROP = Prop(
    "C25",
    "two equal runs and one with 1-4 more options (or the input moved between stdin and a file) were compared",
    [Facet("options", case, run, 700, 15000)],
    "metamorphic property-based testing: byte-wise comparison of runs of equal input and random state that differ in logging, output, resource options",
    "Random exploration over requests of all methods and subsets of the options. The random state is fixed through a link-time wrapper of PARI's setrand.",
    builds=[build.cli])
