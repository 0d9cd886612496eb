from hypothesis import strategies as st
from vf import build, gens, methods, nt, verify
from vf.combined import combined
from vf.core import Facet, Prop, check

KINDS = st.one_of(st.none(), st.sampled_from(["prime", "all", "nonprime", "none", "random", "0random"]),
                  st.integers(1, 12).map(lambda n: "%drandom" % n))


def amount(pts):
    if pts is None or not pts.endswith("random"):
        return None
    return int(pts[:-6] or 0) or 1


def verify_points(c, pts):
    kind = pts or "prime"
    return verify.points(c, "random" if kind.endswith("random") else kind, amount(pts))


def run(c):
    labels = []
    for cv in methods.observe(c):
        labels += gens.describe(c, cv)
        if not verify.usable(cv):
            continue
        verify_points(cv, c["points"])
        if cv.subs:
            labels.append("nontrivial")
    return labels


@st.composite
def composite(draw):
    """Supersingular over p = n - 1: n has very many divisors."""
    n = 4
    size = draw(st.integers(20, 58))
    pool = draw(st.sampled_from([[2], [2, 2, 3], [2, 3, 5], [2, 3, 5, 7, 11]]))
    while n >> size == 0:
        n *= draw(st.sampled_from(pool))
    k = 1
    while not nt.is_prime(n * k - 1):
        k += 1
    p = n * k - 1
    kind = draw(st.sampled_from(["all", "nonprime", "prime", "all", "nonprime", None]))
    args = ["--fp", "--supersingular"] + (["--points=" + kind] if kind else [])
    return methods.cmd("supersingular", args, p.bit_length(), draw(gens.SEEDS), stdin="%d\n" % p, p=p, points=kind)


@st.composite
def spread(draw):
    c = draw(gens.special_case(hi=40))
    if draw(st.integers(0, 3)) == 0:
        return methods.cmd("default", ["--fp", "--points=random", "-c48"], c["bits"], c["seed"], stdin="%d\n%d\n%d\n" % (c["p"], c["a"], c["b"]) * 48, count=48)
    c["points"] = "48random"
    return c


def run_spread(c):
    """Random points are points of any of the subgroups, and not the same ones again and again (each is false with a chance below 2^-39)."""
    l = []
    cs = methods.observe(c)
    if "points" not in c:
        two = [i for cv in cs if len(cv.subs) == 2 for i, g in enumerate(cv.subs) if g.points]
        check(len(set(two)) != 1, lambda: "%d times a random point, and always in the same subgroup" % len(two))
        return ["nontrivial", "single"] if two else []
    for cv in cs:
        if verify.usable(cv):
            verify_points(cv, c["points"])
            if len(cv.subs) == 2:
                check(all(g.points for g in cv.subs), lambda: "48 random points, in the subgroups: %s" % [len(g.points) for g in cv.subs])
                l.append("nontrivial")
            if cv.subs and min(g.order for g in cv.subs) > 1 << 10:
                n = len({P for g in cv.subs for P, _ in g.points})
                check(n > 8, lambda: "just %d different points" % n)
                l.append("large")
    return l


@st.composite
def meth(draw):
    c = draw(methods.any_method(("ansi", "brainpool", "nums", "anomalous", "supersingular", "cm", "twist")))
    pts = draw(KINDS)
    if pts == "all" or pts == "nonprime":
        if c["bits"] > 64:
            pts = "prime"
    c["points"] = pts
    if pts is not None:
        c = methods.with_extra(c, ["--points=" + pts])
    return c


def run_meth(c):
    labels = [c["meth"], "pts:" + str(c["points"]).lstrip("0123456789")]
    for cv in methods.observe(c):
        if verify.usable(cv):
            verify_points(cv, c["points"])
            if cv.subs:
                labels.append("nontrivial")
    return labels


PROP = Prop(
    "C04",
    "a curve with at least one subgroup was printed and the multiset of point orders of every subgroup was compared with the one computed from the factorisation",
    [Facet("small", lambda: gens.curve_case(fp_hi=14, f2m_hi=13, points=KINDS), run, 900, 20000),
     Facet("tiny", None, run, 0, enum=lambda tier: gens.tiny(tier, ("all", "nonprime", "3random")), slow=0),
     Facet("mixed", lambda: gens.curve_case(fp_hi=56, f2m_hi=48, points=KINDS, constraint=("none", "none", "p", "k", "B", "u")), run, 500, 10000),
     Facet("many divisors", composite, run_meth, 32, 600, slow=0),
     Facet("spread", spread, run_spread, 80, 1500, slow=0),
     Facet("methods", meth, run_meth, 300, 6000),
     combined(("points",), ("points",))],
    "property-based testing: random command lines over all point types, printed points checked with independent curve arithmetic and factoring",
    "Random exploration; membership in a subgroup of a non-cyclic group is undecided (accepted) only for prime parts above 2^24.",
    builds=[build.cli])
