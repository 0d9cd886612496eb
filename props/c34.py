from hypothesis import strategies as st
from vf import build, drv, gens, nt
from vf.core import Facet, Prop, check
from props.c35 import number

PR = st.one_of(gens.prime_st(3, 8), gens.prime_st(3, 24), gens.prime_st(4, 64))


@st.composite
def near_order(draw, p):
    """An order within the Hasse interval of p."""
    import math
    r = math.isqrt(4 * p)
    t = draw(st.one_of(st.integers(-r, r), st.sampled_from([0, 1, 2, r, -r, -1])))
    return p + 1 - t


def bound(x):
    return st.one_of(st.just(x), st.just(x + 1), st.just(max(x - 1, 0)), st.integers(0, 2 * x + 3))


@st.composite
def case(draw):
    k = draw(st.sampled_from(["emb", "ph", "disc", "vemb", "anom", "bpo", "bpg"]))
    p = draw(PR)
    if k == "emb":
        n = draw(st.one_of(near_order(p), number(), st.integers(1, 200), st.builds(lambda a: a * p, st.integers(1, 5))))
        return {"k": k, "p": str(p), "n": str(max(n, 1))}
    if k == "ph":
        n = max(draw(st.one_of(number(), near_order(p))), 2)
        return {"k": k, "n": str(n), "b": str(draw(bound(max(nt.factor(n)))))}
    if k == "disc":
        n = draw(near_order(p))
        t = p + 1 - n
        d = abs(nt.squarefree_kernel_square(t * t - 4 * p)[0])
        return {"k": k, "p": str(p), "n": str(n), "b": str(draw(bound(d)))}
    if k == "vemb":
        ns = [max(draw(st.one_of(near_order(p), st.integers(2, 300))), 1) for _ in range(draw(st.integers(1, 2)))]
        return {"k": k, "p": str(p), "ns": list(map(str, ns)), "b": str(draw(bound(emb(p, ns[-1]))))}
    if k == "anom":
        ns = [draw(st.one_of(st.just(p), near_order(p), st.integers(1, 2 * p), st.just(2 * p))) for _ in range(draw(st.integers(1, 3)))]
        return {"k": k, "p": str(p), "ns": list(map(str, ns))}
    if k == "bpo":
        return {"k": k, "p": str(p), "n": str(draw(st.one_of(near_order(p), st.sampled_from([p, p - 1, p + 1]))))}
    if draw(st.booleans()):
        # an embedding degree of exactly (n - 1)/i
        i = draw(st.one_of(st.sampled_from([98, 99, 100, 101, 102]), st.integers(1, 210)))
        u = i * draw(st.integers(1, 1 << draw(st.integers(1, 30))))
        while not nt.is_prime(u + 1):
            u += i
        n, fs = u + 1, list(nt.factor(u))
        g = next(g for g in range(2, n) if all(pow(g, u // f, n) != 1 for f in fs)) if n > 2 else 1
        p = pow(g, i, n)
        while not nt.is_prime(p) or p < 5:
            p += n
        return {"k": k, "p": str(p), "n": str(n)}
    # large orders with a small embedding degree: divisors of p^k - 1
    kk = draw(st.integers(1, 6))
    ds = [x for x in nt.factor(p ** kk - 1) if x > 100] if p < 1 << 20 else []
    n = draw(st.one_of(near_order(p), st.sampled_from(ds) if ds else st.just(p + 1), st.integers(2, 2000)))
    return {"k": k, "p": str(p), "n": str(max(n, 1))}


def emb(p, n):
    if n % p == 0:
        return 0
    return nt.mult_order(p % n if n > 1 else 0, n)


def run(c):
    d = drv.get("unit")
    k = c["k"]
    p, n, b = (int(c.get(x, 0)) for x in ("p", "n", "b"))
    ns = [int(x) for x in c.get("ns", [])]
    if k == "emb":
        got = int(d.ask("emb %d %d" % (p, n)))
        check(got == emb(p, n), lambda: "embedding degree of %d over F_%d: %d, expected %d" % (n, p, got, emb(p, n)))
        return ["nontrivial", k, "p | n" if n % p == 0 else "small" if emb(p, n) <= 6 else "large"]
    if k == "ph":
        line, ok = "vph %d %d" % (n, b), max(nt.factor(n)) > b
    elif k == "disc":
        t = p + 1 - n
        line, ok = "vdisc %d %d %d" % (p, n, b), abs(nt.squarefree_kernel_square(t * t - 4 * p)[0]) > b
    elif k == "vemb":
        line, ok = "vemb %d %d %s" % (p, b, " ".join(map(str, ns))), all(emb(p, x) > b for x in ns)
    elif k == "anom":
        line, ok = "vanom %d %s" % (p, " ".join(map(str, ns))), p not in ns
    elif k == "bpo":
        line, ok = "vbpo %d %d" % (p, n), n < p
    else:
        line, ok = "vbpg %d %d" % (p, n), emb(p, n) > (n - 1) // 100
    got = int(d.ask(line)) > 0
    check(got == ok, lambda: "%s %s, expected to %s" % (line, "passes" if got else "fails", "pass" if ok else "fail"))
    return ["nontrivial", k, "pass" if ok else "fail"]


PROP = Prop(
    "C34",
    "a validator (or the embedding degree) was called on generated field, order, generators and bound and its verdict compared with the definition computed independently; bounds are drawn at the decisive value and next to it",
    [Facet("validators", case, run, 8000, 200000, slow=0)],
    "property-based testing of the validator functions against their definitions, with bounds generated at and around the decisive value",
    "Random exploration; prime fields to 64 bits.",
    builds=[lambda: build.driver("unit")])
