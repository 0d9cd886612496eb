from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, verify
from vf.combined import combined
from vf.core import Facet, Prop, check, Timeout
from props import c18
from props.c05 import irr, cyclic


def unique(cv):
    check(cv.order == 1 or len(cv.subs) == 1, "%d generators printed for a unique curve" % len(cv.subs))
    if cv.subs:
        g = cv.subs[0]
        check(g.order == cv.order and g.cofactor == 1, "unique generator of order %d, cofactor %d on a curve of order %d" % (g.order, g.cofactor, cv.order))
        e = ec.point_order_is(cv.E(), g.P, g.order)
        check(e is None, lambda: "the group is not generated: %s" % e)


@st.composite
def rnd(draw):
    c = draw(gens.curve_case(methods=("random", "koblitz"), constraint=("u", "u", "none", "p", "k", "B"), points=st.just("none"),
                             count=st.sampled_from([1, 1, 2, 4]), fp_hi=64, f2m_hi=50))
    if c["method"] == "koblitz":
        # A as accepted on the command line
        c["K"] = draw(st.sampled_from(["", "0", "1"]))
        if draw(st.booleans()) and c["con"] == "none":
            # over a binary field -K1 --unique may be impossible for one size only if the group is not cyclic; -K0 too:
            # prime fields only, where the field varies
            if c["field"] == "fp":
                c["con"] = "u"
    if c["con"] in ("p", "B", "k") and draw(st.booleans()) and c["method"] == "random":
        c["extra"] = ["-u"]
    return c


def run(c):
    labels = []
    isu = c["con"] == "u" or "-u" in c.get("extra", [])
    for cv in methods.observe(c):
        if not verify.usable(cv):
            continue
        if isu:
            unique(cv)
            labels += ["nontrivial", "unique"]
        if c["method"] == "koblitz":
            check(cv.b == 1, "Koblitz curve with b = %#x" % cv.b)
            check(cv.a == int(c["K"] or 0), "Koblitz curve with a = %#x, %r requested" % (cv.a, c["K"]))
            labels += ["nontrivial", "koblitz"]
        labels += gens.describe(c, cv)
    return labels


@st.composite
def given(draw):
    c = draw(gens.curve_case(methods=("given",), constraint=("none",), points=st.just("none"), fp_hi=11, f2m_hi=9, small=11))
    c["con"] = "u"
    if draw(st.booleans()) and c["field"] == "fp":
        # curves with full or partial 2-torsion: (x - r)(x - s)(x + r + s)
        p = c["p"]
        r, s = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
        t = (-r - s) % p
        a, b = (r * s + r * t + s * t) % p, (-r * s * t) % p
        if not ec.Fp(p, a, b).singular():
            c["a"], c["b"] = a, b
    return c


def run_given(c):
    E = ec.Fp(c["p"], c["a"], c["b"]) if c["field"] == "fp" else ec.F2m(irr(c["poly"]), c["a"], c["b"])
    n = E.count()
    cyc = cyclic(E, n)
    m = methods.from_default(c)
    r = cli.run(m["args"], stdin=m["stdin"], seed=m["seed"], files=m["files"])
    if r.cpu_hit:
        raise Timeout("cpu")
    if r.rc != 0:
        check(not cyc, lambda: "cyclic curve of order %d refused under --unique: %s" % (n, r.brief()))
        return ["nontrivial", "refused"]
    cs = cli.curves(r.out, c["bits"], 1)
    unique(cs[0])
    check(cyc, "a curve with a non-cyclic group printed under --unique")
    return ["nontrivial", "printed"]


@st.composite
def kgiven(draw):
    """Koblitz with only the field read."""
    if draw(st.booleans()):
        p = draw(gens.prime_st(3, 40))
        c = {"field": "fp", "vals": [p], "bits": p.bit_length()}
    else:
        po = draw(gens.poly_st(3, 24))
        c = {"field": "f2m", "vals": [po[0]] + po[1], "bits": po[0]}
    c["K"] = draw(st.sampled_from(["", "0", "1"]))
    c["seed"] = draw(gens.SEEDS)
    return c


def run_kgiven(c):
    a = int(c["K"] or 0)
    if c["field"] == "fp" and ec.Fp(c["vals"][0], a, 1).singular():
        return ["singular"]
    cs, r = cli.ok_curves(["--" + c["field"], "-K" + c["K"], "--points=none", str(c["bits"])], c["bits"], 1,
                          stdin="".join("%d\n" % v for v in c["vals"]), seed=c["seed"])
    cv = cs[0]
    check((cv.a, cv.b) == (a, 1), "Koblitz curve with a = %#x, b = %#x" % (cv.a, cv.b))
    if c["field"] == "fp":
        check(cv.p == c["vals"][0], "field is not the one given")
    else:
        check([cv.m] + cv.e == c["vals"], "field is not the one given")
    return ["nontrivial"]


@st.composite
def inv(draw):
    c = draw(c18.runs((None, 1, 2, 4)))
    if "-u" not in c["args"]:
        c["args"] = ["-u"] + c["args"]
    return c


def run_inv(c):
    """The curves generated by --invalid --unique have one generator (the given one may have two)."""
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], cpu=20)
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc == 0, lambda: "failed: %s" % r.brief())
    for cv in cli.curves(r.out, c["bits"])[1:]:
        unique(cv)
    return ["nontrivial", "threads:%s" % c["threads"]]


PROP = Prop(
    "C06",
    "a curve was printed under --unique or --koblitz and its group structure or coefficients verified, or a given curve was accepted or refused as its group structure decides",
    [Facet("random", rnd, run, 700, 15000),
     Facet("given", given, run_given, 900, 20000, slow=0),
     Facet("koblitz", kgiven, run_kgiven, 300, 6000, slow=0),
     Facet("invalid", inv, run_inv, 200, 4000),
     combined(("unique", "koblitz"), ("unique", "koblitz")),
     combined(("unique", "koblitz"), ("unique", "koblitz"), table=True)],
    "property-based testing: random runs under --unique/--koblitz; given curves (many with full two-torsion) whose group structure is decided independently",
    "Random exploration; group structure of given curves decided by searching a point of full order among 400 random points (a cyclic group has one with overwhelming probability).",
    builds=[build.cli])
