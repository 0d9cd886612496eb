"""Generators of command lines (as JSON-able cases) and their execution."""
import functools, random
from hypothesis import strategies as st
from . import nt, ec, cli

SEEDS = st.integers(1, 2 ** 32 - 1)


@st.composite
def bits_st(draw, lo, hi, small=14, mid=40):
    """Sizes: mostly small and medium, some to 64 bits, few larger."""
    k = draw(st.integers(0, 39))
    small, mid = max(lo, small), max(lo, mid)
    if k < 16 or hi <= small:
        return draw(st.integers(lo, min(small, hi)))
    if k < 33 or hi <= mid:
        return draw(st.integers(max(lo, min(small, hi)), min(mid, hi)))
    if k < 39 or hi <= 64:
        lo = max(lo, min(mid, hi))
        return draw(st.integers(lo, max(lo, min(64, hi))))
    return draw(st.integers(max(lo, 64), hi))


@functools.lru_cache(maxsize=None)
def primes_of_bits(b):
    assert b <= 13
    return [p for p in range(max(3, 1 << (b - 1)), 1 << b) if nt.is_prime(p)]


def prime_from(bits, r):
    """The r-th prime-ish of exactly this many bits (deterministic)."""
    if bits <= 13:
        ps = primes_of_bits(bits)
        return ps[r % len(ps)]
    lo = 1 << (bits - 1)
    x = lo + r % lo
    p = nt.next_prime(x)
    if p.bit_length() != bits:
        p = nt.next_prime(lo)
    return p


@st.composite
def prime_st(draw, lo=3, hi=64, small=12, mid=40):
    b = draw(bits_st(lo, hi, small, mid))
    return prime_from(b, draw(st.integers(0, (1 << b) - 1)))


@functools.lru_cache(maxsize=None)
def trinomials(m):
    from . import verify
    return [k for k in range(1, m) if verify.irreducible((1 << m) | (1 << k) | 1)]


@functools.lru_cache(maxsize=None)
def pentanomial(m, r):
    from . import verify
    rnd = random.Random(r * 1000003 + m)
    for _ in range(4000):
        e = sorted(rnd.sample(range(1, m), 3), reverse=True)
        f = (1 << m) | 1
        for x in e:
            f |= 1 << x
        if verify.irreducible(f):
            return tuple(e)
    return None


@st.composite
def poly_st(draw, lo=3, hi=24):
    """(m, [e1, e2, e3]) of an irreducible tri- or pentanomial."""
    m = draw(bits_st(lo, hi, 24, 64) if hi > 24 else st.integers(lo, hi))
    tri = trinomials(m)
    penta = m >= 4 and (not tri or draw(st.booleans()))
    if penta:
        e = pentanomial(m, draw(st.integers(0, 40)))
        if e:
            return [m, list(e)]
    if not tri:
        return [8, [4, 3, 1]]
    return [m, [draw(st.sampled_from(tri)), 0, 0]]


def fmt(v, style):
    """A number as the user may type it."""
    if style == "hex":
        return hex(v)
    if style == "HEX":
        return "0x%X" % v
    return str(v)


POINTS = st.one_of(st.none(), st.sampled_from(["prime", "all", "nonprime", "none"]),
                   st.integers(0, 9).map(lambda n: "%drandom" % n), st.just("random"))


@functools.lru_cache(maxsize=None)
def feasible(m, k):
    """Curves over GF(2^m) of order k times a prime are not too rare."""
    import math
    if m > 30:
        return True
    q, r = 1 << m, math.isqrt(4 << m)
    lo = (q + 1 - r) // k + 1
    hits = sum(nt.is_prime(x) for x in range(lo, min((q + 1 + r) // k, lo + 400)))
    return hits >= 3 and m >= 6


@functools.lru_cache(maxsize=4096)
def grid(D, bits, gb, r):
    """(p, a, b) of about `bits` bits of a curve with complex multiplication by i or w whose group contains
    Z/g x Z/g with g of about `gb` bits; None if there is none near."""
    rnd = random.Random(r)
    norm = (lambda x, y: x * x + y * y) if D == 4 else (lambda x, y: x * x + x * y + y * y)
    for _ in range(400):
        g = rnd.randrange(1 << max(gb - 1, 0), 1 << gb) + 1
        h = max(1, (bits + 1) // 2 - gb)
        u, v = rnd.randrange(-(1 << h), (1 << h) + 1), rnd.randrange(-(1 << h), (1 << h) + 1)
        p, n = norm(1 + g * u, g * v), g * g * norm(u, v)
        if p.bit_length() < 3 or p.bit_length() > bits or p < 5 or not nt.is_prime(p):
            continue
        for k in range(1, 80):
            a, b = (k % p, 0) if D == 4 else (0, k % p)
            E = ec.Fp(p, a, b)
            if E.singular():
                continue
            if all(E.mul(n, E.random_point(rnd)) is None for _ in range(3)):
                return p, a, b
    return None


@st.composite
def special_fp(draw, lo, hi, small=14, mid=40):
    b = draw(bits_st(lo, hi, small, mid))
    gb = draw(st.one_of(st.integers(1, max(1, b // 2)), st.integers(max(1, b // 2 - 3), max(1, b // 2))))
    return grid(draw(st.sampled_from([3, 4])), b, gb, draw(st.integers(0, 40)))


@st.composite
def curve_case(draw, fields=("fp", "f2m"), methods=("random", "given", "koblitz"), fp_hi=72, f2m_hi=60,
               constraint=("none", "none", "none", "p", "k", "B", "u"), points=POINTS, count=st.just(1),
               small=14, mid=40, lo=2):
    """A command line of the default (exhaustive) method."""
    field = draw(st.sampled_from(fields))
    method = draw(st.sampled_from(methods))
    con = draw(st.sampled_from(constraint))
    c = {"field": field, "method": method, "seed": draw(SEEDS), "con": con}
    if method == "given":
        con = c["con"] = con if con == "none" else "none"
        special = None
        if field == "fp" and fp_hi > 8 and draw(st.integers(0, 3)) == 0:
            special = draw(special_fp(max(lo, 6), fp_hi, small, mid))
        if special:
            c["p"], c["a"], c["b"] = special
            q = c["p"]
            c["bits"] = q.bit_length()
        elif field == "fp":
            c["p"] = draw(prime_st(lo, fp_hi, small, mid))
            c["bits"] = c["p"].bit_length()
            q = c["p"]
        else:
            c["poly"] = draw(poly_st(2, f2m_hi))
            c["bits"] = c["poly"][0]
            q = 1 << c["bits"]
        kind = draw(st.sampled_from(["any", "any", "any", "b0", "a0", "small"])) if not special else "special"
        if not special:
            c["a"] = 0 if kind == "a0" else draw(st.integers(0, 3 if kind == "small" else q - 1))
            c["b"] = 0 if kind == "b0" and field == "fp" else draw(st.integers(1, min(q - 1, 3) if kind == "small" else q - 1))
        if q == 3 and c["a"] % 3 == 0:
            c["a"] = 1  # all others are singular
        # singular curves make the tool read on: avoid by construction
        if field == "fp" and ec.Fp(q, c["a"], c["b"]).singular():
            c["b"] = (c["b"] + 1) % q or 1
            while ec.Fp(q, c["a"], c["b"]).singular():
                c["b"] = (c["b"] + 1) % q or 1
        c["style"] = draw(st.sampled_from(["dec", "hex"]))
        c["via"] = draw(st.sampled_from(["stdin", "file"]))
        c["count"] = 1
    else:
        hi = fp_hi if field == "fp" else f2m_hi
        if con != "none":
            hi = min(hi, 48)
        c["bits"] = draw(bits_st(lo, hi, small, mid))
        c["count"] = draw(count)
        if method == "koblitz":
            c["bits"] = max(c["bits"], 3)  # a = 0 is singular over F_3
            c["K"] = draw(st.sampled_from(["", "0", "1"]))
            if con != "none" or field == "f2m":
                c["con"] = con = "none"
    if con == "k":
        c["k"] = draw(st.one_of(st.integers(1, 8), st.integers(1, 64)))
        c["bits"] = max(c["bits"], c["k"].bit_length() + 5)
    if con == "B":
        c["B"] = draw(st.integers(max(2, (c["bits"] + 1) // 2), c["bits"] + 1))
    if con in ("p", "k", "B") and c["bits"] < 6:
        c["bits"] = 6
    # a trivial constraint can be unsatisfiable in characteristic two
    if con == "p" and field == "f2m":
        c["con"], c["k"] = "k", 2
        c["bits"] = max(c["bits"], 7)
    if con == "k" and field == "f2m":
        if c["k"] % 2:
            c["k"] += 1
        while not feasible(c["bits"], c["k"]):
            c["bits"] += 3
    c["points"] = draw(points)
    return c


def tiny(tier, points=("none",)):
    """Every curve over the smallest fields (all that differ in a and b, not up to isomorphism)."""
    out = []

    def put(**k):
        for pts in points:
            out.append(dict(k, method="given", con="none", style="dec", via="stdin", count=1, seed=1 + len(out), points=pts))
    for p in (3, 5, 7, 11, 13) if tier == "quick" else (3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
        for a in range(p):
            for b in range(p):
                if not ec.Fp(p, a, b).singular():
                    put(field="fp", p=p, a=a, b=b, bits=p.bit_length())
    for m, e in ((2, 1), (3, 1)) if tier == "quick" else ((2, 1), (3, 1), (3, 2), (4, 1), (4, 3)):
        for a in range(1 << m):
            for b in range(1, 1 << m):
                put(field="f2m", poly=[m, [e, 0, 0]], a=a, b=b, bits=m)
    return out


def args_of(c):
    a = ["--" + c["field"]]
    if c["method"] in ("random", "koblitz"):
        a.append("-r")
    if c["method"] == "koblitz":
        a.append("-K" + c["K"])
    if c["con"] == "p":
        a.append("-p")
    if c["con"] == "k":
        a += ["-k", str(c["k"])]
    if c["con"] == "B":
        a += ["-B", str(c["B"])]
    if c["con"] == "u":
        a.append("-u")
    if c.get("points") is not None:
        a.append("--points=" + c["points"])
    if c.get("count", 1) != 1:
        a += ["-c", str(c["count"])]
    a += c.get("extra", [])
    if c["method"] == "given" and c["via"] == "file":
        a += ["-f", "@in.csv"]
    return a + [str(c["bits"])]


def input_values(c):
    if c["method"] != "given":
        return []
    v = [c["p"]] if c["field"] == "fp" else [c["poly"][0]] + c["poly"][1]
    return v + [c["a"], c["b"]]


def observe(c, **kw):
    """Run the command of a case: list of curves (checked for encoding and count)."""
    vals = [fmt(v, c.get("style", "dec")) for v in input_values(c)]
    stdin, files = "", {}
    if vals:
        if c["via"] == "file":
            files["in.csv"] = ",".join(vals) + ","
        else:
            stdin = "\n".join(vals) + "\n"
    cs, r = cli.ok_curves(args_of(c), c["bits"], c.get("count", 1), stdin=stdin, seed=c["seed"], files=files, **kw)
    return cs


def describe(c, curve):
    """Labels used by several checks."""
    l = [c["field"], c["method"], "con:" + c["con"], "pts:" + str(c.get("points")).lstrip("0123456789")]
    l.append("gens:%d" % len(curve.subs))
    n = curve.order
    b = c["bits"]
    l.append("bits:%s" % ("<=13" if b <= 13 else "14-40" if b <= 40 else "41-64" if b <= 64 else ">64"))
    return l


def _mulmod2(a, b, f):
    r, top = 0, f.bit_length() - 1
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a >> top & 1:
            a ^= f
        b >>= 1
    return r


def _mod2(a, b):
    while a.bit_length() >= b.bit_length():
        a ^= b << (a.bit_length() - b.bit_length())
    return a


@functools.lru_cache(maxsize=None)
def false_polys(m):
    """Reducible tri- and pentanomials of degree m by the incomplete test of irreducibility they pass."""
    from . import verify
    rnd = random.Random(m)
    es = [(k, 0, 0) for k in range(1, m)]
    if m > 3:
        es += [tuple(sorted(rnd.sample(range(1, m), 3), reverse=True)) for _ in range(600)]
    out = {"frobenius": [], "square": [], "no small factor": []}
    for e in sorted(set(es)):
        f = (1 << m) | 1
        for k in e:
            f |= 1 << k if k else 0
        if verify.irreducible(f):
            continue
        x = 2
        for _ in range(m):
            x = _mulmod2(x, x, f)
        if x == 2:
            out["frobenius"].append(e)
        elif all(k % 2 == 0 for k in e + (m,)):
            out["square"].append(e)
        elif all(_mod2(f, g) for g in range(2, 32)):
            out["no small factor"].append(e)
    return {k: v for k, v in out.items() if v}


# composites that pass tests of primality with the first primes as bases, and others
PSEUDO = [9, 15, 25, 121, 341, 561, 1105, 1729, 2047, 2465, 3277, 4033, 5459, 6601, 8911, 29341, 49141, 65281, 252601, 1373653, 1530787, 25326001,
          3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461,
          3317044064679887385961981, 4294967297, 18446744073709551617, 4759123141, 1122004669633, 3415500717283210]
PSEUDO = [n for n in PSEUDO if not nt.is_prime(n) and n % 2]


@st.composite
def special_case(draw, hi=72, points=st.just("none")):
    """A given curve over a prime field whose group is Z/g x Z/(g k), with k small in half of the cases."""
    t = draw(special_fp(6, hi, 22, 44)) or (13, 0, 2)
    return {"field": "fp", "method": "given", "seed": draw(SEEDS), "con": "none", "p": t[0], "a": t[1], "b": t[2], "bits": t[0].bit_length(),
            "style": "dec", "via": "stdin", "count": 1, "points": draw(points)}
