import re
from hypothesis import strategies as st
from vf import build, cli, gens, methods
from vf.core import Facet, Prop, check, Timeout

META = {"j_invariant", "discriminant", "trace", "embedding_degree", "cm_discriminant", "conductor"}


def lexical(o, path=""):
    """Every leaf of the document is a lower-case hex string."""
    if isinstance(o, dict):
        for k, v in o.items():
            lexical(v, path + "/" + k)
    elif isinstance(o, list):
        for i, v in enumerate(o):
            lexical(v, path + "/%d" % i)
    else:
        neg = path.startswith("/meta") or path.endswith("/seed")
        check(isinstance(o, str) and re.fullmatch(r"%s0x[0-9a-f]+" % ("-?" if neg else ""), o) or
              path.endswith("/seed") and isinstance(o, str) and re.fullmatch(r"-?(0x)?[0-9a-fA-F]+", o), "%s is %r" % (path, o))


def document(text, c, n):
    for o in cli.parse(text):
        check(isinstance(o, dict), "an element of the array is not a curve")
        lexical({k: v for k, v in o.items() if k != "meta"})
        if "meta" in o:
            check(isinstance(o["meta"], dict), "meta is not an object")
    return cli.curves(text, c["bits"], n)


PRIOR = st.one_of(st.none(), st.sampled_from(["", "[]", "[\n]\n", "some text\n", "x" * 5000]), st.text("abc[]{}\n, \xe9", max_size=30))
OUT = st.sampled_from([None, None, "-o", "--output=", "-oa", "-oa"])


@st.composite
def ok(draw):
    if draw(st.integers(0, 2)):
        c = methods.from_default(draw(gens.curve_case(fp_hi=66, f2m_hi=50, count=st.sampled_from([1, 1, 2, 3, 5, 17]), points=gens.POINTS, constraint=("none", "none", "u", "B"))))
        if c["method"] == "given":
            c["count"] = 1
    else:
        c = draw(methods.any_method(("ansi", "brainpool", "nums", "anomalous", "supersingular", "twist", "family")))
        if c["meth"] in ("ansi", "anomalous", "nums") and "--random=field" not in c["args"] and draw(st.booleans()):
            c["count"] = draw(st.integers(2, 4))
            c = methods.with_extra(c, ["-c", str(c["count"])])
    if draw(st.integers(0, 3)) == 0:
        c = methods.with_extra(c, ["--metadata"])
    c["out"] = draw(OUT)
    c["prior"] = draw(PRIOR)
    return c


def outargs(c):
    o = c["out"]
    if o is None:
        return [], None
    a = {"-o": ["-o", "@out.json"], "--output=": ["--output=@out.json"], "-oa": ["-a", "-o", "@out.json"]}[o]
    return a, c["prior"]


def run(c):
    a, prior = outargs(c)
    d = methods.with_extra(c, a)
    files = dict(d["files"])
    if prior is not None:
        files["out.json"] = prior
    r = cli.run(d["args"], stdin=d["stdin"], seed=d["seed"], files=files, keep=["out.json"])
    methods.exhausted(c, r)
    check(r.rc == 0, lambda: "ecgen %s failed: %s" % (" ".join(d["args"]), r.brief()), "failed")
    text = r.out
    if c["out"]:
        check(r.out == "", "stdout has %r although the output goes to a file" % r.out[:200])
        text = r.files["out.json"]
        check(text is not None, "the output file does not exist")
        if c["out"] == "-oa" and prior is not None:
            check(text.startswith(prior), "appending changed the previous content %r to %r" % (prior[:200], text[:200]))
            text = text[len(prior):]
    cs = document(text, c, c["count"])
    # the same document as on stdout
    if c["out"]:
        r2 = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], files=c["files"])
        if r2.cpu_hit:
            raise Timeout("cpu")
        check(r2.out == text, lambda: "the file has %r, stdout would have %r" % (text[:300], r2.out[:300]))
    return ["nontrivial", c["meth"], "count:%d" % c["count"], "out:%s" % c["out"], "mod8:%d" % (c["bits"] % 8)]


@st.composite
def fails(draw):
    """Runs that stop after some complete curves: the input ends."""
    cs = [draw(gens.curve_case(methods=("given",), fields=("fp",), constraint=("none",), points=st.just("none"), fp_hi=40)) for _ in range(1)]
    c = cs[0]
    n = draw(st.integers(0, 3))
    vals = gens.input_values(c) * n
    cut = draw(st.integers(0, 2))
    vals += gens.input_values(c)[:cut]
    extra = draw(st.integers(1, 3))
    return {"args": ["--fp", "--points=" + draw(st.sampled_from(["none", "prime", "2random"])), "-c", str(n + extra), str(c["bits"])], "n": n, "bits": c["bits"], "stdin": "".join("%d\n" % v for v in vals), "seed": c["seed"],
            "out": draw(OUT), "prior": draw(PRIOR), "con": draw(st.sampled_from(["", "", "--timeout=1000", "--metadata", "-v"])), "a": c["a"], "b": c["b"], "p": c["p"]}


def run_fails(c):
    a, prior = outargs(c)
    files = {"out.json": prior} if prior is not None else {}
    args = c["args"][:-1] + ([c["con"]] if c["con"] else []) + a + c["args"][-1:]
    r = cli.run(args, stdin=c["stdin"], seed=c["seed"], files=files, keep=["out.json"])
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc is not None and r.rc > 0, lambda: "the input ended early and the run reports %s: %s" % (r.rc, r.brief()))
    text = r.out
    if c["out"]:
        check(r.out == "", "stdout has %r although the output goes to a file" % r.out[:200])
        text = r.files["out.json"]
        if text is None:
            text = ""
        elif c["out"] == "-oa" and prior is not None:
            check(text.startswith(prior), "appending changed the previous content %r to %r" % (prior[:200], text[:200]))
            text = text[len(prior):]
    if text.strip() == "":
        check(c["n"] == 0, "no output although %d curves were complete" % c["n"])
        return ["nothing"]
    cs = cli.curves(text, c["bits"], c["n"])
    for cv in cs:
        check((cv.p, cv.a, cv.b) == (c["p"], c["a"], c["b"]), "a curve other than the one given was printed")
    return ["nontrivial", "complete:%d" % c["n"], "out:%s" % c["out"]]


BAD_OUT = [["-o", "/dev/null/x"], ["-o", "@nodir/x"], ["-a", "-o", "@nodir/x"], ["-o", "/dev/full"], ["-a", "-o", "/dev/full"]]


def run_badout(c):
    """A file that cannot be opened is replaced by stdout, with a message; a document that cannot be
    written is a failure."""
    o = BAD_OUT[c["i"]]
    r = cli.run(c["args"] + o + [str(c["bits"])], seed=c["seed"])
    check(r.err.strip(), "nothing on stderr although %s cannot be written" % o)
    if r.rc == 0:
        check(o[-1] != "/dev/full", lambda: "the output could not be written and the run reports success: %s" % r.brief())
        document(r.out, c, c["n"])
    else:
        check(r.rc is not None and r.rc > 0, lambda: "died: %s" % r.brief())
    return ["nontrivial"]


@st.composite
def badout(draw):
    n = draw(st.integers(1, 3))
    return {"i": draw(st.integers(0, 4)), "bits": draw(st.integers(8, 40)), "seed": draw(gens.SEEDS), "n": n,
            "args": ["--" + draw(st.sampled_from(["fp", "f2m"])), "-r", "--points=" + draw(st.sampled_from(["none", "prime"])), "-c", str(n)]}


PROP = Prop(
    "C08",
    "a document was printed (to stdout or a file with previous content), parsed as JSON, its curves counted and all encodings checked; or a run failed after some complete curves and its output was judged",
    [Facet("success", ok, run, 700, 14000),
     Facet("failure", fails, run_fails, 400, 8000),
     Facet("unwritable", badout, run_badout, 60, 600)],
    "property-based testing: random runs over all methods, counts, sizes and output options; the document is parsed by an independent strict JSON parser and its encodings checked",
    "Random exploration; counts up to 17 curves, sizes to 66 bits (all residues modulo 8).",
    builds=[build.cli])
