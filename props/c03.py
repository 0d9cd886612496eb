from hypothesis import strategies as st
from vf import build, gens, methods, verify
from vf.core import Facet, Prop


def run(c):
    labels = []
    for cv in methods.observe(c):
        labels += gens.describe(c, cv) if "con" in c else [c["meth"], "gens:%d" % len(cv.subs)]
        if not verify.usable(cv):
            continue
        verify.generators(cv, c.get("k"))
        if cv.subs:
            labels.append("nontrivial")
    return labels


PROP = Prop(
    "C03",
    "at least one generator was printed; its order was decided by factoring, and the generated group's order by discrete logarithms in the common prime-power parts",
    [Facet("small", lambda: gens.curve_case(fp_hi=14, f2m_hi=13, constraint=("none", "none", "none", "k", "u"), points=st.just("none")), run, 900, 20000),
     Facet("tiny", None, run, 0, enum=gens.tiny, slow=0),
     Facet("mixed", lambda: gens.curve_case(points=st.just("none"), count=st.sampled_from([1, 1, 2]), constraint=("none", "none", "p", "k", "B", "u")), run, 500, 10000),
     Facet("grids", lambda: gens.special_case(hi=50), run, 150, 3000, slow=0),
     Facet("methods", methods.any_method, run, 300, 8000)],
    "property-based testing: random command lines over prime and binary fields (small fields oversampled for non-cyclic groups), printed generators checked with independent curve arithmetic",
    "Random exploration; group generation is undecided (accepted) only when a prime above 2^34 divides both generator orders.",
    builds=[build.cli])
