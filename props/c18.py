import functools, random
from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, check, Timeout


def primes_between(a, b):
    return [p for p in range(max(a, 2), b + 1) if nt.is_prime(p)]


def matching(edges, n):
    """Size of a maximum matching; edges[i] lists what i may be matched with."""
    owner = {}

    def aug(i, seen):
        for j in edges[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or aug(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return sum(aug(i, set()) for i in range(n))


@st.composite
def runs(draw, threads=(None, 1)):
    field = draw(st.sampled_from(["fp", "fp", "f2m"]))
    t = draw(st.sampled_from(threads))
    how = draw(st.sampled_from(["none", "range", "range", "range", "one", "from"]))
    lo = 10 if how in ("none", "from") else 9
    c = {"field": field, "how": how, "threads": t, "seed": draw(gens.SEEDS)}
    hi = (20 if how in ("none", "from") else 36) if field == "fp" else 22
    given = draw(st.booleans())
    args = ["--" + field]
    stdin = ""
    if field == "fp":
        p = draw(gens.prime_st(lo, hi, 14, 24))
        bits = c["q"] = p.bit_length()
        if given:
            a, b = draw(st.integers(1, p - 1)), draw(st.integers(1, p - 1))
            while ec.Fp(p, a, b).singular():
                b = b % (p - 1) + 1
            stdin = "%d\n%d\n%d\n" % (p, a, b)
            c["given"] = [p, a, b]
    else:
        m, e = draw(gens.poly_st(lo, hi))
        bits = m
        if given:
            a, b = draw(st.integers(0, (1 << m) - 1)), draw(st.integers(1, (1 << m) - 1))
            stdin = "".join("%d\n" % v for v in [m] + e + [a, b])
            c["given"] = [[m] + e, a, b]
    c["bits"] = bits
    if not given:
        args.append("-r")
    top = max(3, int(2 ** (bits / 2)) // (2 if how != "one" else 1))
    if how == "none":
        args.append("--invalid")
    elif how == "range":
        x = draw(st.integers(0, min(top, 60)))
        y = draw(st.integers(x, min(top, x + 40)))
        if not primes_between(x, y):
            x, y = 2, 7
        args.append("--invalid=%d-%d" % (x, y))
        c["primes"] = primes_between(x, y)
    elif how == "one":
        x = draw(st.integers(2, min(top, 200)))
        args.append("--invalid=%d" % x)
        c["primes"] = [nt.next_prime(x - 1)]
    else:
        x = draw(st.integers(0, 11))
        args.append("--invalid=%d-" % x)
        c["from"] = x
    if draw(st.integers(0, 3)) == 0:
        args.append("-u")
    if t:
        args.append("--threads=%d" % t)
        if draw(st.integers(0, 3)) == 0:
            args.append("--thread-stack=64m")
    if draw(st.integers(0, 5)) == 0:
        args.append("--verbose=@log")
    c.update(args=args + [str(bits)], stdin=stdin)
    return c


@functools.lru_cache(maxsize=None)
def of_order(n):
    """(p, a, b) with n points, none of a and b zero; found by counting."""
    import math
    rnd = random.Random(n)
    for i in range(4000):
        p = nt.next_prime(n - 1 + rnd.randrange(-math.isqrt(n), math.isqrt(n) + 1))
        if p < 5:
            continue
        a, b = rnd.randrange(1, p), rnd.randrange(1, p)
        E = ec.Fp(p, a, b)
        if not E.singular() and E.count() == n:
            return p, a, b
    return None


@st.composite
def boundary(draw):
    """The square of the order just exceeds a product of the first primes, or just does not."""
    import math
    prod = draw(st.sampled_from([30030, 510510, 9699690]))
    g = of_order(math.isqrt(prod) + draw(st.integers(0, 2)))
    p, a, b = g
    t = draw(st.sampled_from([None, 1, 3]))
    args = ["--fp", "--invalid"] + (["--threads=%d" % t] if t else [])
    return {"field": "fp", "how": "none", "threads": t, "seed": draw(gens.SEEDS), "q": p.bit_length(), "bits": p.bit_length(), "given": [p, a, b],
            "args": args + [str(p.bit_length())], "stdin": "%d\n%d\n%d\n" % g}


def judge(cs, c):
    check(cs, "nothing printed")
    o = cs[0]
    if "given" in c:
        f = o.p if o.p is not None else [o.m] + o.e
        check([f, o.a, o.b] == c["given"], lambda: "the first curve is not the one given: %s" % ([f, o.a, o.b],))
    for cv in cs:
        verify.domain(cv, c["bits"], exact_size="given" not in c)
        verify.order(cv)
        verify.generators(cv)
        for g in cv.subs:
            for P, n in g.points:
                verify.point(cv, g, P, n)
        check((cv.p, cv.m) == (o.p, o.m) and (cv.m is None or cv.e == o.e), "a curve over another field")
        check(cv.a == o.a, lambda: "a = %#x, the original has %#x" % (cv.a, o.a))
    if "primes" in c:
        primes = c["primes"]
    else:
        x = max(c.get("from", 0), 2)
        primes, n, prod = [], x - 1, 1
        while len(primes) < len(cs) - 1:
            n = nt.next_prime(n)
            primes.append(n)
            prod *= n
        check(prod > o.order ** 2, lambda: "%d curves, but the product of the primes up to %d does not exceed the square of the order %d" %
              (len(primes), primes[-1] if primes else 0, o.order))
        check(prod // (primes[-1] * primes[-2]) <= o.order ** 2, "more primes than needed were used")
    check(len(cs) == len(primes) + 1, lambda: "%d curves for %d primes" % (len(cs) - 1, len(primes)))
    inv = cs[1:]
    edges = [[i for i, cv in enumerate(inv) if cv.order % p == 0 and any(n == p for g in cv.subs for _, n in g.points)] for p in primes]
    for p, e in zip(primes, edges):
        check(e, lambda: "no curve has a point of order %d" % p)
    check(matching(edges, len(primes)) == len(primes), "not one curve for each prime")
    return primes


def run(c):
    files = None
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], cpu=20)
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc == 0, lambda: "failed: %s" % r.brief())
    cs = cli.curves(r.out, c["bits"])
    primes = judge(cs, c)
    return ["nontrivial", c["field"], c["how"], "primes:%s" % ("1" if len(primes) < 2 else "2-5" if len(primes) < 6 else ">5"), "given" if "given" in c else "random",
            "threads:%s" % c["threads"]]


@st.composite
def empty(draw):
    x, y = draw(st.sampled_from([(0, 1), (1, 1), (4, 4), (8, 10), (24, 28), (90, 96), (10, 5), (114, 126)]))
    return {"r": "%d-%d" % (x, y), "seed": draw(gens.SEEDS), "t": draw(st.sampled_from([1, 1, 3]))}


def run_empty(c):
    """No prime in the range: a failure, with the original at most."""
    r = cli.run(["--fp", "-r", "--invalid=" + c["r"], "--threads=%d" % c["t"], "14"], seed=c["seed"], cpu=10)
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc > 0, lambda: "no prime in %s, but: %s" % (c["r"], r.brief()))
    check(len(cli.curves(r.out, 14)) <= 1, "curves printed")
    return ["nontrivial"]


PROP = Prop(
    "C18",
    "the set of curves was printed and every curve, generator and point of it verified, and matched one to one with the primes",
    [Facet("single", runs, run, 700, 15000),
     Facet("threads", lambda: runs((2, 3, 4, 8)), run, 900, 20000),
     Facet("boundary", boundary, run, 48, 400),
     Facet("empty", empty, run_empty, 24, 200)],
    "property-based testing over ranges, curves and thread counts: every printed curve verified, completeness by a matching of curves to primes",
    "Random exploration, fields of 9 to 36 bits (22 for binary ones); thread interleavings are sampled, not enumerated. Ranges whose primes could be impossible to reach for the given a are avoided.",
    builds=[build.cli])
