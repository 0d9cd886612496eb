"""Number theory used by the oracles: plain Python integers, nothing shared with the code under test
except that factorisations of large integers may be *proposed* by gp; they are always verified."""
import functools, math, random, subprocess

_SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def is_prime(n):
    if n < 2:
        return False
    for p in _SMALL[:60]:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    bases = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
    if n.bit_length() > 80:
        r = random.Random(n)
        bases += [r.randrange(2, n - 1) for _ in range(12)]
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    """Smallest prime > n."""
    n += 1
    if n <= 2:
        return 2
    if n % 2 == 0:
        n += 1
    while not is_prime(n):
        n += 2
    return n


def _rho(n, limit):
    if n % 2 == 0:
        return 2
    rnd = random.Random(n)
    done = 0
    while done < limit:
        y, c, m = rnd.randrange(1, n), rnd.randrange(1, n), 128
        g = r = q = 1
        while g == 1 and done < limit:
            x = y
            for _ in range(r):
                y = (y * y + c) % n
            k = 0
            while k < r and g == 1:
                ys = y
                for _ in range(min(m, r - k)):
                    y = (y * y + c) % n
                    q = q * abs(x - y) % n
                g = math.gcd(q, n)
                k += m
                done += m
            r *= 2
        if g == n:
            g = 1
            while g == 1:
                ys = (ys * ys + c) % n
                g = math.gcd(abs(x - ys), n)
        if 1 < g < n:
            return g
    return None


def _gp_factor(n):
    out = subprocess.run(["gp", "-q", "-f", "-s", "200M"], input="f=factor(%d);print(f[,1]~);quit\n" % n,
                         capture_output=True, text=True).stdout.strip()
    return [int(x) for x in out.strip("[]; \n").split(",")]


@functools.lru_cache(maxsize=4096)
def _factor(n):
    fs = {}

    def add(p, e=1):
        fs[p] = fs.get(p, 0) + e
    for p in _SMALL:
        while n % p == 0:
            add(p)
            n //= p
    stack = [n] if n > 1 else []
    while stack:
        m = stack.pop()
        if m == 1:
            continue
        if is_prime(m):
            add(m)
            continue
        s = math.isqrt(m)
        if s * s == m:
            stack += [s, s]
            continue
        d = _rho(m, 60000)
        if d:
            stack += [d, m // d]
            continue
        got = False
        for p in _gp_factor(m):
            if p > 1 and m % p == 0 and is_prime(p):
                got = True
                while m % p == 0:
                    add(p)
                    m //= p
        if m > 1:
            if not got:
                raise ArithmeticError("cannot factor %d" % m)
            stack.append(m)
    return tuple(sorted(fs.items()))


def factor(n):
    """{prime: exponent}"""
    assert n > 0
    return dict(_factor(n))


def divisors(n):
    ds = [1]
    for p, e in factor(n).items():
        ds = [d * p ** k for d in ds for k in range(e + 1)]
    return sorted(ds)


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


def sqrt_mod(a, p):
    """A square root of a mod prime p, or None."""
    a %= p
    if p == 2 or a == 0:
        return a
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r


def mult_order(a, n):
    """Multiplicative order of a modulo n (gcd 1)."""
    if n == 1:
        return 1
    phi = 1
    for p, e in factor(n).items():
        phi *= (p - 1) * p ** (e - 1)
    o = phi
    for p in factor(phi) if phi > 1 else {}:
        while o % p == 0 and pow(a, o // p, n) == 1:
            o //= p
    return o


def squarefree_kernel_square(n):
    """n = d * f^2 with d square-free (sign kept)."""
    s = -1 if n < 0 else 1
    d, f = 1, 1
    for p, e in factor(abs(n)).items():
        f *= p ** (e // 2)
        if e % 2:
            d *= p
    return s * d, f


def fundamental_disc(n):
    """n = D * f^2, D a fundamental discriminant (n = 0,1 mod 4, not a square times 1)."""
    d, f = squarefree_kernel_square(n)
    if d % 4 == 1:
        return d, f
    assert f % 2 == 0
    return 4 * d, f // 2
