"""Pairing-friendly families, from their publications: p, r, t as polynomials (numerator coefficients
from the constant term, denominator) in x, and x as a function of the parameter z."""
from fractions import Fraction
import math
from . import nt

F = {
    "BN": dict(x=(0, 1), p=([1, 6, 24, 36, 36], 1), r=([1, 6, 18, 36, 36], 1), t=([1, 0, 6], 1), D=3, k=12),
    "BLS12": dict(x=(0, 1), p=([1, 1, 0, 2, 0, -2, 1], 3), r=([1, 0, -1, 0, 1], 1), t=([1, 1], 1), D=3, k=12),
    "BLS24": dict(x=(0, 1), p=([1, 1, 1, 0, -1, 2, -1, 0, 1, -2, 1], 3), r=([1, 0, 0, 0, -1, 0, 0, 0, 1], 1), t=([1, 1], 1), D=3, k=24),
    "KSS16": dict(x=(25, 70), p=([3125, 2398, 625, 0, 240, 152, 48, 0, 5, 2, 1], 980),
                  r=([625, 0, 0, 0, 48, 0, 0, 0, 1], 61250), t=([35, 41, 0, 0, 0, 2], 35), D=4, k=16),
    "KSS18": dict(x=(14, 42), p=([2401, 1763, 343, 259, 188, 37, 7, 5, 1], 21), r=([343, 0, 0, 37, 0, 0, 1], 343),
                  t=([7, 16, 0, 0, 1], 7), D=3, k=18),
    "KSS36": dict(x=(287, 777), p=([823543, -386569, 117649, 0, 0, 0, 4781, -2510, 683, 0, 0, 0, 7, -4, 1], 28749),
                  r=([117649, 0, 0, 0, 0, 0, 683, 0, 0, 0, 0, 0, 1], 161061481), t=([259, 757, 0, 0, 0, 0, 0, 2], 259), D=3, k=36),
    "KSS40": dict(x=(1205, 2370), p=([48828125, -13398638, 9765625, 0, 0, 0, 0, 0, 0, 0, 31160, -10568, 6232, 0, 0, 0, 0, 0, 0, 0, 5, -2, 1], 1123380),
                  r=([390625, 0, 125000, 0, 24375, 0, 2800, 0, -79, 0, 112, 0, 39, 0, 8, 0, 1], 2437890625),
                  t=([1185, 6469, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2], 1185), D=4, k=40),
}


def ev(poly, x):
    c, d = poly
    v = 0
    for a in reversed(c):
        v = v * x + a
    return Fraction(v, d)


def values(name, z):
    """(p, r, t) as fractions."""
    f = F[name]
    x = f["x"][0] + f["x"][1] * z
    return ev(f["p"], x), ev(f["r"], x), ev(f["t"], x)


def defined(name, z):
    """(p, r, t) if both p and r are primes, otherwise None."""
    p, r, t = values(name, z)
    if p.denominator != 1 or r.denominator != 1 or p < 2 or r < 2:
        return None
    p, r = int(p), int(r)
    if p.bit_length() > 12 and any(p % q == 0 or r % q == 0 and r != q for q in (2, 3, 5, 7, 11, 13, 17, 19, 23)):
        return None
    if not nt.is_prime(r) or not nt.is_prime(p):
        return None
    return p, r, t


def cm_traces(p, D, t):
    """All traces of curves over F_p with CM by the order of discriminant -D (3 or 4), from one."""
    v2 = 4 * p - t * t
    assert v2 % D == 0
    v = math.isqrt(v2 // D)
    assert v * v * D == v2
    if D == 4:
        return {t, -t, 2 * v, -2 * v}
    return {t, -t} | {s * x // 2 for s in (1, -1) for x in (t + 3 * v, t - 3 * v)}
