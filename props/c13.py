import functools
from hypothesis import strategies as st
from vf import build, cli, drv, ec, gens, methods, nt, std, verify
from vf.core import Facet, Prop, Inconclusive, check


@functools.lru_cache(maxsize=None)
def reference(bits):
    """p, b, order, generator, from the description; PARI counts the points of larger curves."""
    if bits <= 31:
        return std.nums(bits)
    c = 1
    while not nt.is_prime((1 << bits) - c):
        c += 4
    p = (1 << bits) - c
    d = drv.get("std", "O")
    b = 0
    while b < 60000:
        bs = [x for x in range(b + 1, b + 101) if x != 2]
        b += 100
        for x, n in zip(bs, map(int, d.tokens("card %d -3 %s" % (p, " ".join(map(str, bs))), timeout=300))):
            if n in (0, p) or not nt.is_prime(n) or not nt.is_prime(2 * p + 2 - n) or std.embedding_bad(n, p):
                continue
            X, y = std.smallest_x(ec.Fp(p, -3, x), 1)
            return p, x, n, (X, min(y, p - y)), {}
    raise Inconclusive("no curve found")


def sizes(tier):
    top = 48 if tier == "quick" else 72
    return [{"bits": b} for b in range(10, top + 1)]


def judge(cv, bits):
    p, b, n, G, rej = reference(bits)
    for what, got, want in (("p", cv.p, p), ("a", cv.a, p - 3), ("b", cv.b, b), ("order", cv.order, n)):
        check(got == want, lambda: "%s = %#x at %d bits, the NUMS curve has %#x" % (what, got, bits, want))
    check(len(cv.subs) == 1 and cv.subs[0].P == G and cv.subs[0].order == n,
          lambda: "generator %s of order %d, the NUMS curve has %s" % (cv.subs[0].P, cv.subs[0].order, G))


def run_size(c):
    b = c["bits"]
    cs, _ = methods.execute(methods.cmd("nums", ["--fp", "--nums"], b, 1))
    judge(cs[0], b)
    return ["nontrivial"]


@st.composite
def histories(draw):
    b = draw(st.integers(10, 30))
    n = draw(st.integers(1, 5))
    extra = draw(st.sampled_from([[], [], ["--points=all"], ["--points=none"], ["--metadata"], ["--points=2random"], ["--timeout=1000s"], ["--verbose=@log"]]))
    return methods.cmd("nums", ["--fp", "--nums", "-c", str(n)] + extra, b, draw(gens.SEEDS), count=n)


def run_history(c):
    """Every curve of a run is the same curve."""
    cs, _ = methods.execute(c)
    for cv in cs:
        judge(cv, c["bits"])
    return ["count:%d" % c["count"]] + (["nontrivial"] if c["count"] > 1 or len(c["args"]) > 5 else [])


PROP = Prop(
    "C13",
    "a NUMS curve was compared with the one the reference procedure finds (of one size, or the n-th of a run)",
    [Facet("sizes", None, run_size, 0, 0, enum=sizes),
     Facet("histories", histories, run_history, 300, 6000)],
    "property-based testing: comparison with a reference search, at every size up to 48 bits (thorough: 72) and in runs of several curves",
    "Complete for the sizes given; above 31 bits the reference uses PARI's point counting, called directly. Larger sizes are not explored.",
    builds=[build.cli, lambda: build.driver("std", "O")])
