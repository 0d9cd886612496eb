"""The seeded procedures, from their descriptions."""
import hashlib, math, random
from . import ec, nt
from .core import Inconclusive


def sha(b):
    return int.from_bytes(hashlib.sha1(b).digest(), "big")


def ansi_w(seed_bytes, t, top):
    """W0 || W1 || ... || Ws of X9.62 as a t-bit integer; top: keep the leftmost bit."""
    g = 8 * len(seed_bytes)
    s = (t - 1) // 160
    h = t - 160 * s
    w = sha(seed_bytes) & ((1 << h) - 1)
    if not top:
        w &= (1 << (h - 1)) - 1
    z = int.from_bytes(seed_bytes, "big")
    for i in range(1, s + 1):
        w = w << 160 | sha(((z + i) % (1 << g)).to_bytes(len(seed_bytes), "big"))
    return w


def bp_hash(s, w, v):
    """find_integer: w bits of SHA-1(s), then v times SHA-1(s + i)."""
    x = sha(s.to_bytes(20, "big")) & ((1 << w) - 1)
    for i in range(1, v + 1):
        x = x << 160 | sha(((s + i) % (1 << 160)).to_bytes(20, "big"))
    return x


def inc(s):
    return (s + 1) % (1 << 160)


class Chain:
    """State of a Brainpool generation: the seed, and whether it has been used."""

    def __init__(self, seed, bits, rfc):
        self.s, self.bits, self.rfc, self.used = seed, bits, rfc, False
        self.v = (bits - 1) // 160
        self.w = bits - 160 * self.v - 1

    def fresh(self):
        if self.used:
            self.s = inc(self.s)
            self.used = False

    def field(self):
        self.fresh()
        while True:
            p = bp_hash(self.s, self.w + 1, self.v)
            while True:
                p = nt.next_prime(p)
                if p % 4 == 3:
                    break
            if 1 << (self.bits - 1) <= p < 1 << self.bits:
                self.used = True
                return p
            self.s = inc(self.s)

    def equation(self, p):
        self.fresh()
        while True:
            a = bp_hash(self.s, self.w, self.v)
            # p = 3 mod 4: fourth powers are the squares
            if a % p == 0 or nt.jacobi(-3 * pow(a, -1, p), p) != 1:
                self.s = inc(self.s)
                continue
            while True:
                self.s = inc(self.s)
                b = bp_hash(self.s, self.w, self.v)
                square = b % p == 0 or nt.jacobi(b, p) == 1
                if not self.rfc or not square:
                    break
            if not self.rfc and not square or ec.Fp(p, a, b).singular():
                self.s = inc(self.s)
                continue
            self.used = True
            return a, b


def prime_order(E, rnd):
    """The order of E over a prime field if it is prime, else None."""
    p = E.p
    if p < 1 << 10:
        n = 1 + sum(1 + nt.jacobi(x ** 3 + E.a * x + E.b, p) for x in range(p))
        return n if nt.is_prime(n) else None
    # a root of the cubic is a point of order two
    if _has_root(E):
        return None
    lo, hi = p + 1 - math.isqrt(4 * p), p + 1 + math.isqrt(4 * p)
    P = E.random_point(rnd)
    hits = multiples(E, P, lo, hi)
    if len(hits) != 1:
        return None
    return hits[0] if nt.is_prime(hits[0]) else None


def multiples(E, P, lo, hi, limit=2):
    """The first few n in [lo, hi] with n P = 0 (baby steps, giant steps)."""
    m = math.isqrt((hi - lo) // 2) + 1
    baby, R = {}, None
    for j in range(m + 1):
        if R is None and j:
            # order of P is j: tiny
            return [n for n in range(lo, min(hi, lo + 4 * j) + 1) if n % j == 0][:limit]
        baby.setdefault(R[0] if R else None, (j, R))
        R = E.add(R, P)
    out = set()
    step = 2 * m + 1
    S = E.mul(step, P)
    n = lo + m
    Q = E.mul(n, P)
    while n - m <= hi:
        k = Q[0] if Q else None
        if k in baby:
            j, B = baby[k]
            # Q = +-jP
            for c in ({n - j, n + j}):
                if lo <= c <= hi and (Q == B and c == n - j or Q == E.neg(B) and c == n + j):
                    out.add(c)
        n += step
        Q = E.add(Q, S)
        if len(out) >= limit:
            break
    return sorted(out)[:limit]


def _has_root(E):
    """x^3 + ax + b has a root mod p."""
    p, a, b = E.p, E.a, E.b

    def mul(u, v):
        w = [0] * 5
        for i in range(3):
            for j in range(3):
                w[i + j] += u[i] * v[j]
        for d in (4, 3):
            w[d - 2] -= a * w[d]
            w[d - 3] -= b * w[d]
        return [x % p for x in w[:3]]
    r = [1, 0, 0]
    for bit in bin(p)[2:]:
        r = mul(r, r)
        if bit == "1":
            r = mul(r, [0, 1, 0])
    r[1] = (r[1] - 1) % p
    # gcd(r, cubic) is not constant?
    A, B = [b % p, a % p, 0, 1], r
    while any(B):
        while B and B[-1] == 0:
            B = B[:-1]
        inv = pow(B[-1], -1, p)
        A = A[:]
        while len(A) >= len(B):
            if A[-1]:
                f = A[-1] * inv % p
                for i in range(len(B)):
                    A[len(A) - len(B) + i] = (A[len(A) - len(B) + i] - f * B[i]) % p
            A.pop()
        A, B = B, A if A else [0]
    while A and A[-1] == 0:
        A = A[:-1]
    return len(A) > 1


def embedding_bad(n, p):
    return (n - 1) // 100 >= nt.mult_order(p % n, n)


def smallest_x(E, start):
    x = start
    while True:
        P = E.lift_x(x)
        if P:
            return P
        x += 1


def brainpool(seed, bits, rfc, maxtries=4000):
    """(p, a, b, order, G up to sign, final seed, rejected) from an initial seed."""
    ch = Chain(seed, bits, rfc)
    rnd = random.Random(seed)
    rejected = {"order": 0, "order>=p": 0, "embedding": 0, "infinity": 0}
    for _ in range(maxtries):
        p = ch.field()
        a, b = ch.equation(p)
        E = ec.Fp(p, a, b)
        n = prime_order(E, rnd)
        if n is None:
            rejected["order"] += 1
            continue
        if n >= p:
            rejected["order>=p"] += 1
            continue
        P = smallest_x(E, 0)
        ch.s = inc(ch.s)
        k = bp_hash(ch.s, ch.w, ch.v)
        if k % n == 0:
            rejected["infinity"] += 1
            continue
        if embedding_bad(n, p):
            rejected["embedding"] += 1
            continue
        return p, a, b, n, E.mul(k, P), ch.s, rejected
    raise Inconclusive("too many candidates")


def brainpool_back(final, bits, rfc, cv, depth=1500):
    """Whether a curve follows from some seed at most `depth` steps before its final one."""
    k = final
    G = None
    s = (final - 2) % (1 << 160)
    for _ in range(depth):
        ch = Chain(s, bits, rfc)
        # the prime is the one of this very seed
        if ch.field() == cv.p and ch.s == s:
            if ch.equation(cv.p) == (cv.a, cv.b) and inc(ch.s) == final:
                P = smallest_x(cv.E(), 0)
                return cv.E().mul(bp_hash(k, ch.w, ch.v), P)
            if ch.s == s:
                pass
        s = (s - 1) % (1 << 160)
    return None


def nums(bits, limit=20000):
    c = 1
    while not nt.is_prime((1 << bits) - c):
        c += 4
    p = (1 << bits) - c
    rnd = random.Random(bits)
    b, rej = 0, {"order": 0, "twist": 0, "embedding": 0, "anomalous": 0}
    for _ in range(limit):
        b += 1
        if b == 2:  # singular
            b = 3
        E = ec.Fp(p, -3, b)
        if E.singular():
            continue
        n = prime_order(E, rnd)
        if n is None:
            rej["order"] += 1
            continue
        if not nt.is_prime(2 * p + 2 - n):
            rej["twist"] += 1
            continue
        if n == p:
            rej["anomalous"] += 1
            continue
        if embedding_bad(n, p):
            rej["embedding"] += 1
            continue
        x, y = smallest_x(E, 1)
        return p, b % p, n, (x, min(y, p - y)), rej
    raise Inconclusive("no curve found")
