"""Reference elliptic-curve arithmetic over F_p and GF(2^m) in plain Python."""
import random
from . import nt


class Fp:
    """y^2 = x^3 + a x + b over F_p, p > 2 (short Weierstrass curves cover only some for p = 3)."""
    kind = "fp"

    def __init__(self, p, a, b):
        self.p, self.a, self.b, self.q = p, a % p, b % p, p

    def disc(self):
        return -16 * (4 * self.a ** 3 + 27 * self.b ** 2) % self.p

    def singular(self):
        return self.disc() == 0

    def j(self):
        p = self.p
        return 1728 * 4 * self.a ** 3 * pow(4 * self.a ** 3 + 27 * self.b ** 2, -1, p) % p

    def on(self, P):
        if P is None:
            return True
        x, y = P
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - x ** 3 - self.a * x - self.b) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return (x, (l * (P[0] - x) - P[1]) % p)

    def mul(self, k, P):
        if P is None or k == 0:
            return None
        if k < 0:
            return self.mul(-k, self.neg(P))
        p, a = self.p, self.a
        # Jacobian double and add
        X, Y, Z = 1, 1, 0
        x2, y2 = P
        for bit in bin(k)[2:]:
            if Z:
                YY = Y * Y % p
                S = 4 * X * YY % p
                ZZ = Z * Z % p
                M = (3 * X * X + a * ZZ * ZZ) % p
                X3 = (M * M - 2 * S) % p
                Z = 2 * Y * Z % p
                Y = (M * (S - X3) - 8 * YY * YY) % p
                X = X3
                if Z == 0:
                    X, Y = 1, 1
            if bit == "1":
                if not Z:
                    X, Y, Z = x2, y2, 1
                else:
                    ZZ = Z * Z % p
                    U = x2 * ZZ % p
                    S = y2 * ZZ * Z % p
                    H, R = (U - X) % p, (S - Y) % p
                    if H == 0:
                        if R == 0:
                            Q = self.add(P, P)
                            if Q is None:
                                X, Y, Z = 1, 1, 0
                            else:
                                X, Y, Z = Q[0], Q[1], 1
                        else:
                            X, Y, Z = 1, 1, 0
                    else:
                        HH = H * H % p
                        HHH = H * HH % p
                        V = X * HH % p
                        X3 = (R * R - HHH - 2 * V) % p
                        Y = (R * (V - X3) - Y * HHH) % p
                        Z = Z * H % p
                        X = X3
        if not Z:
            return None
        zi = pow(Z, -1, p)
        return (X * zi * zi % p, Y * zi * zi % p * zi % p)

    def lift_x(self, x):
        y = nt.sqrt_mod(x ** 3 + self.a * x + self.b, self.p)
        return None if y is None else (x % self.p, y)

    def random_point(self, rnd):
        while True:
            P = self.lift_x(rnd.randrange(self.p))
            if P:
                return (P[0], P[1] if rnd.random() < .5 else -P[1] % self.p)

    def twist(self):
        d = 2
        while nt.jacobi(d, self.p) != -1:
            d += 1
        return Fp(self.p, self.a * d * d, self.b * d ** 3)

    def count(self):
        """Number of points by enumeration."""
        p = self.p
        n = [0] * p
        for y in range(p):
            n[y * y % p] += 1
        return 1 + sum(n[(x * x * x + self.a * x + self.b) % p] for x in range(p))


class GF2m:
    """Field GF(2)[x]/(f), f an int."""

    def __init__(self, f):
        self.f = f
        self.m = f.bit_length() - 1
        self.low = [i for i in range(self.m) if f >> i & 1]
        self.mask = (1 << self.m) - 1
        self._tr = None

    def red(self, v):
        m = self.m
        while v >> m:
            h = v >> m
            v &= self.mask
            for e in self.low:
                v ^= h << e
        return v

    def mul(self, a, b):
        r = 0
        t = [0] * 16
        for i in range(1, 16):
            t[i] = (t[i >> 1] << 1) ^ (a if i & 1 else 0)
        for s in range((b.bit_length() + 3) // 4 * 4 - 4, -1, -4):
            r = (r << 4) ^ t[b >> s & 15]
        return self.red(r)

    _SQ = [sum(((b >> i) & 1) << (2 * i) for i in range(8)) for b in range(256)]

    def sqr(self, a):
        bs = a.to_bytes((a.bit_length() + 7) // 8 or 1, "little")
        out = bytearray(2 * len(bs))
        for i, c in enumerate(bs):
            v = self._SQ[c]
            out[2 * i] = v & 255
            out[2 * i + 1] = v >> 8
        return self.red(int.from_bytes(out, "little"))

    def inv(self, a):
        assert a
        u, v, g, h = a, self.f, 1, 0
        while u != 1:
            j = u.bit_length() - v.bit_length()
            if j < 0:
                u, v, g, h, j = v, u, h, g, -j
            u ^= v << j
            g ^= h << j
        return self.red(g)

    def trace(self, a):
        if self._tr is None:
            t = 0
            for i in range(self.m):
                x = y = 1 << i
                for _ in range(self.m - 1):
                    y = self.sqr(y)
                    x ^= y
                t |= (x & 1) << i
            self._tr = t
        return bin(a & self._tr).count("1") & 1

    def sqrt(self, a):
        for _ in range(self.m - 1):
            a = self.sqr(a)
        return a

    def solve_quad(self, c):
        """z with z^2 + z = c, or None."""
        if self.trace(c):
            return None
        if self.m % 2:
            z, t = c, c
            for _ in range((self.m - 1) // 2):
                t = self.sqr(self.sqr(t))
                z ^= t
            return z
        # generic: linear algebra over GF(2)
        if not hasattr(self, "_basis"):
            rows = {}
            for i in range(self.m):
                v, w = (1 << i) ^ self.sqr(1 << i), 1 << i
                while v:
                    l = v.bit_length()
                    if l in rows:
                        v ^= rows[l][0]
                        w ^= rows[l][1]
                    else:
                        rows[l] = (v, w)
                        break
            self._basis = rows
        z, v = 0, c
        while v:
            l = v.bit_length()
            if l not in self._basis:
                return None
            v ^= self._basis[l][0]
            z ^= self._basis[l][1]
        return z

    def irreducible(self):
        """Rabin's test."""
        def gcd(a, b):
            while b:
                while a and a.bit_length() >= b.bit_length():
                    a ^= b << (a.bit_length() - b.bit_length())
                a, b = b, a
            return a
        if self.m < 1 or not self.f & 1:
            return self.f == 2
        x = 2 if self.m > 1 else self.red(2)
        ps = nt.factor(self.m) if self.m > 1 else {}
        need = {self.m // q for q in ps}
        t = x
        for i in range(1, self.m + 1):
            t = self.sqr(t)
            if i in need and gcd(self.f, t ^ x) != 1:
                return False
        return t == x


class F2m:
    """y^2 + x y = x^3 + a x^2 + b over GF(2^m)."""
    kind = "f2m"

    def __init__(self, f, a, b):
        self.F = GF2m(f)
        self.a, self.b, self.q = a, b, 1 << self.F.m

    def singular(self):
        return self.b == 0

    def disc(self):
        return self.b

    def j(self):
        return self.F.inv(self.b)

    def on(self, P):
        if P is None:
            return True
        x, y = P
        F = self.F
        if x >> F.m or y >> F.m or x < 0 or y < 0:
            return False
        xx = F.sqr(x)
        return F.sqr(y) ^ F.mul(x, y) == F.mul(xx, x ^ self.a) ^ self.b

    def neg(self, P):
        return None if P is None else (P[0], P[0] ^ P[1])

    def add(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] ^ Q[1] == P[0]:
                return None
            x = P[0]
            l = x ^ F.mul(P[1], F.inv(x))
            x3 = F.sqr(l) ^ l ^ self.a
            return (x3, F.sqr(x) ^ F.mul(l, x3) ^ x3)
        l = F.mul(P[1] ^ Q[1], F.inv(P[0] ^ Q[0]))
        x3 = F.sqr(l) ^ l ^ P[0] ^ Q[0] ^ self.a
        return (x3, F.mul(l, P[0] ^ x3) ^ x3 ^ P[1])

    def mul(self, k, P):
        if k < 0:
            return self.mul(-k, self.neg(P))
        R = None
        for bit in bin(k)[2:] if k else "":
            R = self.add(R, R)
            if bit == "1":
                R = self.add(R, P)
        return R

    def lift_x(self, x):
        F = self.F
        if x == 0:
            return (0, F.sqrt(self.b))
        xi = F.inv(x)
        z = F.solve_quad(x ^ self.a ^ F.mul(self.b, F.sqr(xi)))
        return None if z is None else (x, F.mul(x, z))

    def random_point(self, rnd):
        while True:
            P = self.lift_x(rnd.randrange(self.q))
            if P:
                return P if rnd.random() < .5 else self.neg(P)

    def twist(self):
        d = 1
        while not self.F.trace(d):
            d <<= 1
        return F2m(self.F.f, self.a ^ d, self.b)

    def count(self):
        F = self.F
        ta = F.trace(self.a)
        n = 2
        for x in range(1, self.q):
            v = x ^ F.mul(self.b, F.sqr(F.inv(x)))
            if F.trace(v) == ta:
                n += 2
        return n


ENUM = 1 << 11


def order_is(E, N, rnd=None, tries=3):
    """None if N is the number of points of E, otherwise why not. Small fields are enumerated; for
    larger ones N must lie in the Hasse interval, kill random points of E, and 2q+2-N must kill
    random points of the twist (by Mestre's theorem only the true order does both for all points)."""
    q = E.q
    if q <= ENUM:
        n = E.count()
        return None if n == N else "curve has %d points, not %d" % (n, N)
    t = q + 1 - N
    if t * t > 4 * q:
        return "order %d outside the Hasse interval of q = %d" % (N, q)
    rnd = rnd or random.Random(N)
    for _ in range(tries):
        P = E.random_point(rnd)
        if E.mul(N, P) is not None:
            return "point %s times the order %d is not zero" % (P, N)
    T = E.twist()
    for _ in range(tries):
        P = T.random_point(rnd)
        if T.mul(2 * q + 2 - N, P) is not None:
            return "twist point %s times the twist order %d is not zero" % (P, 2 * q + 2 - N)
    return None


def point_order_is(E, P, n):
    """None if P has exact order n, otherwise why not."""
    if P is None:
        return "point at infinity"
    if n < 1:
        return "order %d" % n
    if E.mul(n, P) is not None:
        return "%d times the point is not zero" % n
    for r in nt.factor(n):
        if E.mul(n // r, P) is None:
            return "order is a proper divisor of %d (divides %d)" % (n, n // r)
    return None


def generated_order(E, P, n1, Q, n2):
    """Order of the group generated by P and Q (of exact orders n1, n2); None if it cannot be decided."""
    import math
    g = math.gcd(n1, n2)
    common = 1
    for r in nt.factor(g) if g > 1 else {}:
        if r > 1 << 34:
            return None
        e1, e2 = _val(n1, r), _val(n2, r)
        A, B = E.mul(n1 // r ** e1, P), E.mul(n2 // r ** e2, Q)
        j = 0
        while j < e2 and not in_rgroup(E, E.mul(r ** j, B), A, r, e1):
            j += 1
        common *= r ** (e2 - j)
    return n1 * n2 // common


def _val(n, r):
    e = 0
    while n % r == 0:
        n //= r
        e += 1
    return e


def in_rgroup(E, B, A, r, e):
    """B in <A>, A of exact order r^e (Pohlig-Hellman)."""
    if E.mul(r ** e, B) is not None:
        return False
    base = E.mul(r ** (e - 1), A)
    k = 0
    for i in range(e):
        D = E.add(B, E.neg(E.mul(k, A)))
        D = E.mul(r ** (e - 1 - i), D)
        d = _dlog(E, D, base, r)
        if d is None:
            return False
        k += d * r ** i
    return True


def in_subgroup(E, P, G, n):
    """P in <G>, G of exact order n. Checked prime by prime on the part where it can fail:
    P is in <G> iff n P = 0 and, where the whole group is larger, its components are multiples.
    Uses Pohlig-Hellman with baby-step giant-step; None when a prime is too large to decide."""
    if E.mul(n, P) is not None:
        return False
    for r, e in nt.factor(n).items():
        if r > 1 << 24:
            return None
        if not in_rgroup(E, E.mul(n // r ** e, P), E.mul(n // r ** e, G), r, e):
            return False
    return True


def _dlog(E, B, A, r):
    import math
    s = math.isqrt(r) + 1
    tab, T = {}, None
    for i in range(s):
        if T not in tab:
            tab[T] = i
        T = E.add(T, A)
    G = E.neg(T)
    X = B
    for j in range(s + 1):
        if X in tab:
            return (tab[X] + j * s) % r
        X = E.add(X, G)
    return None
