from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.combined import combined
from vf.core import Facet, Prop, check, Timeout


def constraint(c, cv):
    n = cv.order
    if c["con"] == "p":
        check(nt.is_prime(n), "order %d is not prime" % n)
    if c["con"] == "k":
        k = c["k"]
        check(n % k == 0 and nt.is_prime(n // k), "order %d is not %d times a prime" % (n, k))
        check(cv.subs, "no generators")
        g = cv.subs[0]
        check((g.order, g.cofactor) == (n // k, k), "first generator of order %d, cofactor %d; the curve order is %d * %d" % (g.order, g.cofactor, k, n // k))
        e = ec.point_order_is(cv.E(), g.P, g.order)
        check(e is None, lambda: "first generator: %s" % e)
    if c["con"] == "B":
        check(max(nt.factor(n), default=1).bit_length() <= c["B"], "order %d = %s is not %d-bit smooth" % (n, nt.factor(n), c["B"]))


def run(c):
    labels = []
    for cv in methods.observe(c):
        if verify.usable(cv):
            verify.order(cv)
            constraint(c, cv)
            labels.append("nontrivial")
        labels += gens.describe(c, cv)
    return labels


RND = lambda: gens.curve_case(methods=("random", "random", "koblitz"), constraint=("p", "k", "k", "B"), points=st.just("none"),
                              count=st.sampled_from([1, 1, 2, 3]), fp_hi=64, f2m_hi=60)


@st.composite
def given(draw):
    """A given curve and a constraint that its order meets, just misses, or has nothing to do with."""
    c = draw(gens.curve_case(methods=("given",), constraint=("none",), points=st.just("none"), fp_hi=11, f2m_hi=9, small=11))
    E = ec.Fp(c["p"], c["a"], c["b"]) if c["field"] == "fp" else ec.F2m(irr(c["poly"]), c["a"], c["b"])
    n = E.count()
    c["n"] = n
    con = c["con"] = draw(st.sampled_from(["p", "k", "k", "B", "B"]))
    if con == "k":
        ps = list(nt.factor(n))
        c["k"] = draw(st.one_of(st.sampled_from([n // r for r in ps] + nt.divisors(n)), st.integers(1, 12)))
    if con == "B":
        b = max(nt.factor(n), default=1).bit_length()
        c["B"] = max(1, b + draw(st.sampled_from([0, 0, -1, -2, 1, 3])))
    return c


def irr(poly):
    f = (1 << poly[0]) | 1
    for e in poly[1]:
        f |= (1 << e) if e else 0
    return f


def cyclic(E, n):
    """Some point has full order."""
    import random
    if n == 1:
        return True
    rnd = random.Random(n)
    for _ in range(400):
        if ec.point_order_is(E, E.random_point(rnd), n) is None:
            return True
    return False


def run_given(c):
    n = c["n"]
    con = c["con"]
    E = ec.Fp(c["p"], c["a"], c["b"]) if c["field"] == "fp" else ec.F2m(irr(c["poly"]), c["a"], c["b"])
    if con == "p":
        meets = nt.is_prime(n)
    elif con == "B":
        meets = max(nt.factor(n), default=1).bit_length() <= c["B"]
    else:
        meets = n % c["k"] == 0 and nt.is_prime(n // c["k"])
    must = meets and (con != "k" or cyclic(E, n))
    m = methods.from_default(c)
    r = cli.run(m["args"], stdin=m["stdin"], seed=m["seed"], files=m["files"])
    if r.cpu_hit:
        raise Timeout("cpu")
    if r.rc != 0:
        check(not must, lambda: "curve of order %d meets the constraint and is refused: %s" % (n, r.brief()))
        check(not r.out.strip() or not cli.parse(r.out), lambda: "a failed run printed a curve: %r" % r.out)
        return ["nontrivial", con + ":refused"]
    cs = cli.curves(r.out, c["bits"], 1)
    check(meets, lambda: "curve of order %d = %s printed with constraint %s" % (n, nt.factor(n), m["args"]))
    check(cs[0].order == n, "order %d printed, the curve has %d points" % (cs[0].order, n))
    constraint(c, cs[0])
    return ["nontrivial", con + ":printed"]


PROP = Prop(
    "C05",
    "a curve was generated under a constraint and its true order factored, or a given curve with enumerated order was accepted or refused as its order decides",
    [Facet("random", RND, run, 900, 20000),
     Facet("given", given, run_given, 1500, 30000, slow=0),
     combined(("order",), ("prime", "cofactor", "smooth")),
     combined(("order",), ("prime", "cofactor", "smooth"), table=True)],
    "property-based testing: random constrained runs, order verified and factored independently; given curves whose enumerated order meets or just misses the constraint",
    "Random exploration; sizes to 64 bits for random curves, enumerable fields for given ones. A non-cyclic curve of order k times a prime may be refused under --cofactor.",
    builds=[build.cli])
