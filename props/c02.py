from hypothesis import strategies as st
from vf import build, gens, methods, verify, cli
from vf.core import Facet, Prop, check


def run(c):
    labels = []
    for cv in methods.observe(c):
        if verify.usable(cv):
            verify.order(cv)
            labels += ["nontrivial"]
        labels += gens.describe(c, cv) if "meth" not in c else [c["meth"]]
    return labels


def koblitz_order(m, a):
    """#E(GF(2^m)) of y^2 + xy = x^3 + a x^2 + 1 by the Frobenius recurrence."""
    mu = 1 if a else -1
    v0, v1 = 2, mu
    for _ in range(m - 1):
        v0, v1 = v1, mu * v1 - 2 * v0
    return (1 << m) + 1 - v1


def koblitz_cases(tier):
    from props.c21 import koblitz_sizes
    big = koblitz_sizes()
    ms = list(range(3, 62 if tier == "quick" else 90))
    return [{"m": m, "a": a} for m in sorted(set(ms) | {m for m, a in big}) for a in (0, 1) if m in ms or (m, a) in big]


def run_koblitz(c):
    cs, r = cli.ok_curves(["--f2m", "-r", "-K%d" % c["a"], "--points=none", str(c["m"])], c["m"], 1, seed=1)
    cv = cs[0]
    check((cv.a, cv.b) == (c["a"], 1), "not the Koblitz curve asked for")
    check(cv.order == koblitz_order(c["m"], c["a"]), lambda: "Koblitz curve m=%d a=%d: order %#x, by the Frobenius recurrence %#x" %
          (c["m"], c["a"], cv.order, koblitz_order(c["m"], c["a"])))
    return ["nontrivial"]


PROP = Prop(
    "C02",
    "the printed order was decided exactly: by enumerating the curve (q <= 2^11), otherwise by the Hasse bound and multiplication of random points of the curve and of its twist; Koblitz curves by the Frobenius recurrence",
    [Facet("mixed", lambda: gens.curve_case(points=st.just("none"), count=st.sampled_from([1, 1, 1, 2, 3])), run, 900, 20000),
     Facet("tiny", None, run, 0, enum=gens.tiny, slow=0),
     Facet("large", lambda: gens.curve_case(fp_hi=256, f2m_hi=233, small=66, mid=130, lo=64, methods=("random",), constraint=("none",), points=st.just("none")), run, 24, 400),
     Facet("grids", gens.special_case, run, 250, 5000, slow=0),
     Facet("methods", methods.any_method, run, 400, 8000),
     Facet("koblitz", None, run_koblitz, 0, enum=koblitz_cases, slow=0)],
    "property-based testing: random command lines, printed order compared with an independent point count",
    "Random exploration; for q > 2^11 the oracle multiplies 3 random points of the curve and 3 of its twist (Mestre), which can miss a wrong order with negligible probability and never rejects a right one.",
    builds=[build.cli])
