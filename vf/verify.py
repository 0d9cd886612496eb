"""Predicates over printed curves, shared by the checks (each check applies its own subset)."""
import functools, random
from . import ec, nt
from .core import check

_irr = {}


def irreducible(f):
    if f not in _irr:
        _irr[f] = ec.GF2m(f).irreducible()
    return _irr[f]


def domain(c, bits, exact_size=True):
    """C01"""
    if c.p is not None:
        check(nt.is_prime(c.p), "p = %d is not prime" % c.p)
        if exact_size:
            check(c.p.bit_length() == bits, "p = %#x has %d bits, %d requested" % (c.p, c.p.bit_length(), bits))
        check(0 <= c.a < c.p, "a = %#x is not a canonical residue mod p = %#x" % (c.a, c.p), "noncanonical-a")
        check(0 <= c.b < c.p, "b = %#x is not a canonical residue mod p = %#x" % (c.b, c.p), "noncanonical-b")
        if c.p > 2:
            check(not c.E().singular(), "curve is singular")
    else:
        check(c.m == bits, "m = %d, %d requested" % (c.m, bits))
        nz = [e for e in c.e if e]
        check(len(nz) in (1, 3), "exponents %s: not a trinomial or pentanomial" % c.e)
        check(c.e[:len(nz)] == nz and nz == sorted(set(nz), reverse=True) and nz[0] < c.m,
              "exponents %s of m = %d not in decreasing order" % (c.e, c.m))
        check(irreducible(c.poly()), "field polynomial %s is reducible" % ([c.m] + c.e))
        check(c.a >> c.m == 0 and c.b >> c.m == 0, "a or b is not reduced (degree >= m)")
        check(c.b != 0, "curve is singular (b = 0)")


def usable(c):
    """The oracle's arithmetic is meaningful for this curve (otherwise C01 reports)."""
    if c.p is not None:
        return c.p > 2 and nt.is_prime(c.p) and not c.E().singular()
    return c.m == ec.GF2m(c.poly()).m and irreducible(c.poly()) and c.b != 0 and c.a >> c.m == 0 and c.b >> c.m == 0


def order(c):
    """C02"""
    e = ec.order_is(c.E(), c.order)
    check(e is None, lambda: "order %#x: %s" % (c.order, e))


def generators(c, cofactor=None):
    """C03"""
    E = c.E()
    subs = c.subs
    if c.order > 1:
        check(subs, "no generators printed")
    for g in subs:
        check(E.on(g.P), lambda: "generator %s is not on the curve" % (g.P,))
        e = ec.point_order_is(E, g.P, g.order)
        check(e is None, lambda: "generator %s: %s" % (g.P, e))
        check(g.order * g.cofactor == c.order, lambda: "cofactor %d times order %d is not the curve order %d" % (g.cofactor, g.order, c.order))
    rest = subs
    if cofactor is not None and len(subs) > 1:
        rest = subs[1:]
    if not rest:
        check(c.order == 1, "no generators for order %d" % c.order)
        return
    check(len(rest) <= 2, "%d generators" % len(rest))
    if len(rest) == 1:
        check(rest[0].order == c.order, lambda: "the only generator has order %d, the curve %d" % (rest[0].order, c.order))
    else:
        n = ec.generated_order(E, rest[0].P, rest[0].order, rest[1].P, rest[1].order)
        check(n in (None, c.order), lambda: "the generators generate a group of order %s, the curve has %d points" % (n, c.order))


def expected_orders(kind, n):
    if kind == "prime":
        return sorted(nt.factor(n)) if n > 1 else []
    ds = [d for d in nt.divisors(n) if d > 1]
    if kind == "all":
        return ds
    if kind == "nonprime":
        return [d for d in ds if not nt.is_prime(d)]


def point(c, g, P, n):
    E = c.E()
    check(E.on(P), lambda: "point %s is not on the curve" % (P,))
    e = ec.point_order_is(E, P, n)
    check(e is None, lambda: "point %s: %s" % (P, e))
    check(g.order % n == 0, lambda: "point order %d does not divide subgroup order %d" % (n, g.order))
    if len(c.subs) > 1 and g.order != c.order:
        r = ec.in_subgroup(E, P, g.P, g.order)
        check(r is not False, lambda: "point %s is not in the subgroup it is listed under" % (P,))


def points(c, kind, amount=None):
    """C04"""
    for g in c.subs:
        if kind in ("prime", "all", "nonprime"):
            want = expected_orders(kind, g.order)
            got = sorted(n for _, n in g.points)
            check(got == want, lambda: "point orders %s on a subgroup of order %d, expected %s" % (got, g.order, want))
        elif kind == "none":
            check(not g.points, "points printed although none requested")
        for P, n in g.points:
            point(c, g, P, n)
    if kind == "random":
        k = sum(len(g.points) for g in c.subs)
        want = amount if c.subs else 0
        check(k == want, lambda: "%d points printed, %s requested" % (k, want))


def largest(n):
    return max(nt.factor(n)) if n > 1 else 1
