from hypothesis import strategies as st
from vf import build, drv, gens, nt
from vf.core import Facet, Prop, check


@st.composite
def number(draw):
    k = draw(st.integers(0, 10))
    if k == 10:  # very many prime factors, but not too many divisors
        n, d = 1, 1
        for p in draw(st.lists(st.sampled_from([2, 3, 5, 7, 11, 65537, 4294967311]), min_size=1, max_size=5, unique=True)):
            e = draw(st.integers(1, 70))
            if d * (e + 1) <= 600:
                n, d = n * p ** e, d * (e + 1)
        return n
    if k < 4:
        return draw(st.integers(2, 5000))
    if k < 7:  # many small prime factors, with repetition
        n = 1
        for p in draw(st.lists(st.sampled_from([2, 2, 2, 3, 3, 5, 7, 11, 13, 97, 65537]), min_size=1, max_size=9)):
            n *= p
        return n
    if k == 7:
        return gens.prime_from(draw(st.integers(5, 100)), draw(st.integers(0, 1 << 60)))
    if k == 8:
        return draw(st.integers(2, 64)) * gens.prime_from(draw(st.integers(20, 90)), draw(st.integers(0, 1 << 60)))
    return draw(st.integers(2, 1 << 48))


def run_sub(c):
    n = int(c["n"])
    d = drv.get("unit")
    f = nt.factor(n) if n > 1 else {}
    ps, ds = sorted(f), [x for x in (nt.divisors(n) if n > 1 else [1]) if x > 1]
    want = {"prime": ps, "all": ds, "nonprime": [x for x in ds if x not in f]}
    for k, w in want.items():
        t = d.tokens("sub %s %d" % (k, n))
        got = [] if t == ["nil"] else [int(x) for x in t]
        check(got == w, lambda: "%s subgroup orders of %d: %s, expected %s" % (k, n, got, w))
    return ["nontrivial", "omega:%d" % len(f), "many factors" if sum(f.values()) > 20 else "few factors", "squarefree" if all(e == 1 for e in f.values()) else "powers"]


def run_codec(c):
    d = drv.get("unit")
    v = int(c["v"])
    if "p" in c:
        p = int(c["p"])
        t = d.tokens("codecp %d %d" % (p, v))
        check([int(x) for x in t[:4]] == [v % p, p, v % p, v], "element %d of F_%d decodes to %s" % (v, p, t))
        check([int(x) for x in t[5:]] == [p], "parameters of F_%d: %s" % (p, t[5:]))
        return ["nontrivial", "fp"]
    m, e = c["poly"]
    t = " ".join(d.tokens("codec2 %d %d %d %d %d" % (m, e[0], e[1], e[2], v))).split("|")
    dec, *co = [int(x) for x in t[0].split()]
    check(dec == v, "element %#x of GF(2^%d) decodes to %#x" % (v, m, dec))
    check(sum(b << i for i, b in enumerate(co)) == v, "element %#x has coefficients %s" % (v, co))
    nz = [x for x in e if x]
    want = [m] + nz + [0] * (3 - len(nz))
    check([int(x) for x in t[1].split()] == want, "parameters of the field %s: %s" % (want, t[1]))
    check([int(x) for x in t[2].split()] == [m] + nz + [0], "polynomial of the field %s: %s" % (want, t[2]))
    return ["nontrivial", "f2m", "penta" if e[1] else "tri"]


@st.composite
def codec(draw):
    if draw(st.booleans()):
        p = draw(gens.prime_st(3, 200))
        return {"p": str(p), "v": str(draw(st.one_of(st.integers(0, p - 1), st.sampled_from([0, 1, p - 1]))))}
    po = draw(gens.poly_st(2, 280))
    m = po[0]
    v = draw(st.one_of(st.integers(0, (1 << m) - 1), st.sampled_from([0, 1, 2, (1 << m) - 1, 1 << (m - 1)])))
    return {"poly": po, "v": str(v)}


PROP = Prop(
    "C35",
    "all three enumerations of a number compared with its divisors, or a field element encoded, decoded and compared coefficient by coefficient",
    [Facet("subgroups", lambda: st.builds(lambda n: {"n": str(n)}, number()), run_sub, 4000, 100000, slow=0),
     Facet("codec", codec, run_codec, 4000, 100000, slow=0)],
    "property-based testing of the enumeration and codec functions against divisor lists and bit arithmetic",
    "Random exploration; numbers up to 100 bits, and beyond with up to 70 prime factors and 600 divisors, fields to 200 (prime) and 280 (binary) bits.",
    builds=[lambda: build.driver("unit")])
