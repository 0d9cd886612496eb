import math, random, subprocess
from hypothesis import strategies as st
from vf import build, drv, nt
from vf.core import Facet, Prop, check


def squarefree(n):
    return all(e == 1 for e in nt.factor(n).values()) if n > 1 else True


def reduced_forms(D):
    """Reduced primitive forms (A, B, C) for A x^2 + 2 B x y + C y^2 of discriminant -4D: |2B| <= A <= C, and B >= 0 at the borders."""
    out = []
    a = 1
    while 3 * a * a <= 4 * D:
        for b in range(-(a // 2), a // 2 + 1):
            if (b * b + D) % a:
                continue
            c = (b * b + D) // a
            if c < a or math.gcd(math.gcd(a, 2 * b), c) != 1:
                continue
            if b < 0 and (-2 * b == a or a == c):
                continue
            out.append((a, b, c))
        a += 1
    return sorted(out)


def reduce(f):
    a, b, c = f  # a x^2 + b x y + c y^2
    while True:
        k = (a - b) // (2 * a)
        b, c = b + 2 * a * k, a * k * k + b * k + c
        if b == -a:
            b = a
        if a > c:
            a, b, c = c, -b, a
            continue
        if a == c and b < 0:
            b = -b
        return a, b, c


def compose(f, g):
    """Gauss composition by united forms."""
    (a1, b1, c1), (a2, b2, c2) = f, g
    D = b1 * b1 - 4 * a1 * c1
    s = (b1 + b2) // 2
    d, u, v = egcd(a1, a2)
    e, x, y = egcd(d, s)
    # x u a1 + x v a2 + y s = e
    A = a1 * a2 // (e * e)
    B = (x * u * a1 * b2 + x * v * a2 * b1 + y * (b1 * b2 + D) // 2) // e % (2 * A)
    return reduce((A, B, (B * B - D) // (4 * A)))


def egcd(a, b):
    if b == 0:
        return (abs(a), 1 if a >= 0 else -1, 0)
    g, x, y = egcd(b, a % b)
    return g, y, x - a // b * y


def class_order(D, p):
    """Order of the class of the form of first coefficient p (p splits)."""
    r = nt.sqrt_mod(-D, p)
    f = reduce((p, 2 * r, (r * r + D) // p))
    one, g, n = (1, 0, D), f, 1
    while g != one:
        g, n = compose(g, f), n + 1
        assert n < 100000
    return n


# polynomials mod p: coefficient lists from the constant term
def trim(f):
    while f and f[-1] == 0:
        f.pop()
    return f


def pmod(a, f, p):
    a = a[:]
    n = len(f) - 1
    inv = pow(f[-1], -1, p)
    while len(a) > n:
        q = a[-1] * inv % p
        if q:
            k = len(a) - len(f)
            for i, c in enumerate(f):
                a[k + i] = (a[k + i] - q * c) % p
        a.pop()
    return trim(a)


def pmul(a, b, f, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return pmod([x % p for x in r], f, p)


def ppow(a, e, f, p):
    r = pmod([1], f, p)
    for bit in bin(e)[2:]:
        r = pmul(r, r, f, p)
        if bit == "1":
            r = pmul(r, a, f, p)
    return r


def pgcd(a, b, p):
    while b:
        a, b = b, pmod(a, b, p)
    return a


def sub_x(a, p):
    a = a + [0] * (2 - len(a))
    a[1] = (a[1] - 1) % p
    return trim(a)


def irreducible(c):
    """By PARI's own test, over the rationals (c from the leading coefficient)."""
    out = subprocess.run(["gp", "-q", "-f", "-s", "64M"], input="print(polisirreducible(Pol(%s)));quit\n" % c, capture_output=True, text=True).stdout.strip()
    return out == "1"


def ask(D, poly):
    s = drv.get("unit").ask("p1363 %d%s" % (D, " 1" if poly else ""), timeout=240)
    parts = [x.split() for x in s.split("|")]
    v = list(map(int, parts[0]))
    return [tuple(v[i:i + 3]) for i in range(0, len(v), 3)], parts[1:]


def run_forms(c):
    D = c["D"]
    got, _ = ask(D, False)
    want = reduced_forms(D)
    check(sorted(got) == want, lambda: "forms of discriminant -4*%d: missing %s, wrong %s" %
          (D, sorted(set(want) - set(got))[:5], [f for f in got if f not in want][:5] or "repetitions"))
    return ["nontrivial"] if len(want) > 1 else ["class number 1"]


def run_poly(c):
    D = c["D"]
    want = reduced_forms(D)
    got, (w, w2) = ask(D, True)
    check(sorted(got) == want, "forms")
    check(all(x.lstrip("-").isdigit() for x in w), lambda: "D = %d: coefficients %s are not integers" % (D, w))
    check(w == w2, "p1363_polclass and p1363_poly disagree")
    w = list(map(int, w))
    h = len(want)
    check(len(w) == h + 1 and w[0] == 1, lambda: "D = %d: %s is not monic of degree %d, the class number" % (D, w, h))
    f = w[::-1]
    rnd = random.Random(D)
    n, split, skipped = 0, False, 0
    exps = set()
    p = rnd.choice([100, 300, 1000]) if h < 30 else 100
    while n < 8 or not split:
        p = nt.next_prime(p)
        if D % p == 0 or nt.jacobi(-D % p, p) != 1:
            continue
        k = class_order(D, p)
        if n >= 8 and k != 1:
            continue
        fp = [x % p for x in f]
        if len(pgcd(fp, [i * x % p for i, x in enumerate(fp)][1:], p)) != 1:
            skipped += 1  # p divides the discriminant of the polynomial
            if skipped == 40:
                check(irreducible(w), lambda: "D = %d: %s is not irreducible" % (D, w))
            continue
        y = [0, 1] if h > 1 else pmod([0, 1], fp, p)
        for d in range(1, k + 1):
            y = ppow(y, p, fp, p)
            g = pgcd(fp, sub_x(y, p), p)
            if d == k:
                check(len(g) == h + 1, lambda: "D = %d: modulo %d, of order %d in the class group, the polynomial %s has other factors than ones of degree %d" % (D, p, k, w, k))
            else:
                check(len(g) == 1, lambda: "D = %d: modulo %d, of order %d in the class group, the polynomial %s has factors of degree %d" % (D, p, k, w, d))
        n += 1
        split |= k == 1
        exps.add(k)
    if h not in exps:
        check(irreducible(w), lambda: "D = %d: %s is not irreducible" % (D, w))
    return (["nontrivial"] if h > 1 else []) + ["D mod 8 = %d" % (D % 8), "3 divides D" if D % 3 == 0 else "3 does not divide D",
                                               "cyclic" if h in exps else "irreducible by PARI"]


def enum(top_q, top_t, mod=None):
    return lambda tier: [{"D": D} for D in range(1, (top_q if tier == "quick" else top_t) + 1) if squarefree(D)]


PROP = Prop(
    "C24",
    "a discriminant of class number above 1, whose forms were compared with an enumeration and whose polynomial's factorization was compared with the class group modulo 8 primes and more",
    [Facet("forms", None, run_forms, 0, 0, enum=enum(8000, 60000), slow=0),
     Facet("polynomials", None, run_poly, 0, 0, enum=enum(900, 4000), slow=0),
     Facet("large forms", lambda: st.integers(2000, 400000).filter(squarefree).map(lambda D: {"D": D}), run_forms, 100, 2000, slow=0),
     Facet("larger", lambda: st.integers(900, 4000).filter(squarefree).map(lambda D: {"D": D}), run_poly, 60, 1500, slow=0)],
    "property-based testing: forms against an enumeration; the factorization of the polynomials modulo primes against the orders of the primes in the class group",
    "Every square-free D to 900 (thorough: 4000) and random larger ones; forms to 400000. Other D are outside of the standard's domain.",
    builds=[lambda: build.driver("unit")])
