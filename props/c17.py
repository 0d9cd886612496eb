import functools
from hypothesis import strategies as st
from vf import build, cli, ec, family, gens, methods, nt, verify
from vf.core import Facet, Prop, Inconclusive, check

_small = {}
KSS40 = [22534, 93020, -17077, 184935, 102320, -24481]  # the orders of these are easy to factor
BIG = [("BN", -((1 << 62) + (1 << 55) + 1)), ("BLS12", -0xd201000000010000), ("BN", 4965661367192848881), ("BN", 0x3fc0100000000000)]


def small(name):
    """Parameters of small absolute value for which the family is defined."""
    if name not in _small:
        r = {"BN": 400, "BLS12": 1000, "BLS24": 2000, "KSS16": 5000, "KSS18": 2500, "KSS36": 3500, "KSS40": 0}[name]
        _small[name] = KSS40 if not r else [z for z in range(-r, r) if family.defined(name, z)]
    return _small[name]


def judge(cv, name, z=None):
    check(cv.p is not None, "not over a prime field")
    s = cv.seed
    check(isinstance(s, str) and s.replace("-", "", 1).startswith("0x"), lambda: "no seed: %r" % (s,))
    v = int(s, 16)
    if z is not None:
        check(v == z, lambda: "z = %d printed, %d given" % (v, z))
    prt = family.defined(name, v)
    check(prt, lambda: "%s is not defined (p or r is not a prime) for z = %d" % (name, v))
    p, r, t = prt
    check(cv.p == p, lambda: "p = %d printed, p(%d) = %d" % (cv.p, v, p))
    verify.domain(cv, 0, exact_size=False)
    check(cv.order % r == 0, lambda: "r(z) = %d does not divide the order %d" % (r, cv.order))
    ok = {p + 1 - x for x in family.cm_traces(p, family.F[name]["D"], int(t)) if (p + 1 - x) % r == 0}
    check(p + 1 - t in ok, "oracle")
    check(cv.order in ok, lambda: "order %d is not one of the family's, %s" % (cv.order, sorted(ok)))
    if family.F[name]["k"] % r:
        k, x = 1, p % r
        while x != 1 and k < 50:
            x, k = x * p % r, k + 1
        check(k == family.F[name]["k"], lambda: "embedding degree %d" % k)
    verify.order(cv)


def case_name(draw, name):
    return "".join(c.lower() if draw(st.booleans()) else c for c in name)


@st.composite
def given(draw):
    name = draw(st.sampled_from(["BN"] * 4 + ["BLS12", "BLS24", "KSS16", "KSS18", "KSS36"] * 3 + ["KSS40"]))
    n = 1 if name == "KSS40" else draw(st.sampled_from([1, 1, 2, 3]))
    zs, good = [], []
    for _ in range(n):
        for _ in range(draw(st.sampled_from([0, 0, 1, 3]))):
            z = draw(st.integers(-(1 << 14), 1 << 14))
            if not family.defined(name, z) and z not in (-1, -2):
                zs.append(z)
        if draw(st.integers(0, 3)) == 0 and name in ("BN", "BLS12", "KSS18"):
            z = draw(st.integers(1 << 9, 1 << draw(st.integers(10, 28 if name == "BN" else 20)))) * draw(st.sampled_from([1, -1]))
            for _ in range(1500):
                if family.defined(name, z):
                    break
                z += 1
            else:
                z = small(name)[0]
        else:
            z = draw(st.sampled_from(small(name)))
        zs.append(z)
        good.append(z)
    bits = max(3, max(abs(z).bit_length() for z in zs)) + draw(st.sampled_from([0, 0, 1, 5]))
    style = draw(st.sampled_from(["dec", "dec", "hex"]))
    txt = [("-" if z < 0 else "") + gens.fmt(abs(z), style) for z in zs]
    extra = draw(st.sampled_from([["--points=none"], ["--points=none"], ["--points=random"], ["-v@log", "--points=none"]]))
    extra = [e.replace("-v@log", "--verbose=@log") for e in extra]
    if draw(st.integers(0, 3)) == 0:
        c = methods.cmd("family", ["--fp", "--family=" + case_name(draw, name), "-c", str(n), "-f", "@in"] + extra, bits, draw(gens.SEEDS),
                        files={"in": ",".join(txt)}, count=n)
    else:
        c = methods.cmd("family", ["--fp", "-F" + case_name(draw, name), "-c", str(n)] + extra, bits, draw(gens.SEEDS),
                        stdin="\n".join(txt) + "\n", count=n)
    c.update(fam=name, zs=good, bad=len(zs) - len(good))
    return c


def run_given(c):
    try:
        cs, _ = methods.execute(c, cpu=15)
    except Inconclusive:
        raise
    for cv, z in zip(cs, c["zs"]):
        judge(cv, c["fam"], z)
    return ["nontrivial", c["fam"], "skipping" if c["bad"] else "all defined", "negative" if min(c["zs"]) < 0 else "positive",
            "count:%d" % c["count"]]


@st.composite
def random(draw):
    name = draw(st.sampled_from(["BN", "BN", "BLS12", "BLS12", "BLS24", "KSS16", "KSS18", "KSS36"]))
    bits = draw(st.integers(3 if name == "BN" else 8, 14 if name in ("BN", "BLS12") else 10))
    n = draw(st.sampled_from([1, 1, 2]))
    c = methods.cmd("family", ["--fp", "--family=" + case_name(draw, name), "-r", "-c", str(n), "--points=none"], bits, draw(gens.SEEDS), count=n)
    c.update(fam=name)
    return c


@functools.lru_cache(maxsize=None)
def available(name, bits):
    return any(family.defined(name, z) or family.defined(name, -z) for z in range(1 << (bits - 1), 1 << bits))


def run_random(c):
    if c["bits"] < 11 and not available(c["fam"], c["bits"]):
        return ["nothing of this size"]
    cs, _ = methods.execute(c, cpu=15)
    for cv in cs:
        judge(cv, c["fam"])
        z = int(cv.seed, 16)
        check(abs(z).bit_length() == c["bits"], lambda: "z = %d does not have %d bits" % (z, c["bits"]))
    return ["nontrivial", c["fam"], "negative" if cs[0].seed[0] == "-" else "positive"]


def every(tier):
    return [{"fam": n, "z": z} for n in family.F for z in sorted(small(n), key=abs)[:25 if tier == "quick" else 1000]] + \
           [{"fam": n, "z": z} for n, z in BIG if family.defined(n, z)]


def run_every(c):
    z = c["z"]
    bits = max(3, abs(z).bit_length())
    cs, _ = cli.ok_curves(["--fp", "--family=" + c["fam"], "--points=none", str(bits)], bits, 1, stdin="%d\n" % z)
    judge(cs[0], c["fam"], z)
    return ["nontrivial", c["fam"]]


PROP = Prop(
    "C17",
    "a curve was printed and compared with the family's polynomials; its number of points was verified",
    [Facet("every", None, run_every, 0, 0, enum=every),
     Facet("given", given, run_given, 240, 6000),
     Facet("random", random, run_random, 100, 3000)],
    "property-based testing: printed curves compared with the published polynomials, point counts verified by point and twist-point multiplication",
    "The smallest 25 parameters of every family (thorough: 1000), random ones, standard large ones; parameters for which a family is not defined are mixed in and have to be passed over.",
    builds=[build.cli])
