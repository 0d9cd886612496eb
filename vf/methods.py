"""Command lines of every generation method, as JSON-able cases:
{"meth","args","bits","stdin","files","seed","count", ...}; `args` ends with the size."""
from hypothesis import strategies as st
from . import nt, ec, gens, cli
from .core import check, Inconclusive, Timeout

HEX = "0123456789abcdef"


def cmd(meth, args, bits, seed, stdin="", files=None, count=1, **kw):
    c = {"meth": meth, "args": list(args) + [str(bits)], "bits": bits, "seed": seed, "stdin": stdin,
         "files": files or {}, "count": count}
    c.update(kw)
    return c


def from_default(c):
    """A case of gens.curve_case as a command."""
    vals = [gens.fmt(v, c.get("style", "dec")) for v in gens.input_values(c)]
    stdin, files = "", {}
    if vals:
        if c["via"] == "file":
            files["in.csv"] = ",".join(vals) + ","
        else:
            stdin = "\n".join(vals) + "\n"
    d = dict(c)
    d.update({"meth": "default", "args": gens.args_of(c), "stdin": stdin, "files": files, "count": c.get("count", 1)})
    return d


@st.composite
def hexstr(draw, n, prefix=True):
    s = "".join(draw(st.lists(st.sampled_from(HEX), min_size=n, max_size=n)))
    k = draw(st.integers(0, 5))
    if k == 0:
        s = s.upper()
    elif k == 1:
        s = "0" * (n // 2) + s[n // 2:]
    return (draw(st.sampled_from(["", "0x"])) if prefix else "") + s


@st.composite
def ansi(draw, hi=60, lo=12):
    field = draw(st.sampled_from(["fp", "f2m"]))
    bits = draw(gens.bits_st(lo, hi, 24, 40))
    seed = draw(gens.SEEDS)
    how = draw(st.sampled_from(["arg", "arg", "random", "stdin"]))
    n = draw(st.sampled_from([40, 40, 40, 42, 41, 48, 64]))
    s = draw(hexstr(n))
    if how == "arg":
        return cmd("ansi", ["--" + field, "-r", "--ansi=" + s], bits, seed, given=s)
    if how == "random":
        return cmd("ansi", ["--" + field, "-r", "--ansi"], bits, seed)
    return cmd("ansi", ["--" + field, "--random=field", "--ansi"], bits, seed, stdin=s + "\n", given=s)


@st.composite
def brainpool(draw, rfc=None, lo=16, hi=44):
    m = "brainpool-rfc" if (draw(st.booleans()) if rfc is None else rfc) else "brainpool"
    bits = draw(gens.bits_st(lo, hi, 28, 44))
    seed = draw(gens.SEEDS)
    how = draw(st.sampled_from(["arg", "arg", "random", "stdin"]))
    s = draw(hexstr(40))
    if how == "arg":
        return cmd(m, ["--fp", "-r", "--%s=%s" % (m, s)], bits, seed, given=s)
    if how == "random":
        return cmd(m, ["--fp", "-r", "--" + m], bits, seed)
    return cmd(m, ["--fp", "--" + m], bits, seed, stdin=s + "\n", given=s)


@st.composite
def nums(draw, lo=10, hi=48):
    return cmd("nums", ["--fp", "--nums"], draw(st.integers(lo, hi)), draw(gens.SEEDS))


@st.composite
def anomalous(draw, lo=20, hi=260):
    return cmd("anomalous", ["--fp", "--anomalous", "-r"], draw(gens.bits_st(lo, hi, 30, 64)), draw(gens.SEEDS))


@st.composite
def supersingular(draw, lo=4, hi=160):
    if draw(st.booleans()):
        return cmd("supersingular", ["--fp", "--supersingular", "-r"], draw(gens.bits_st(lo, hi, 14, 48)), draw(gens.SEEDS))
    p = draw(gens.prime_st(lo, hi, 14, 64))
    return cmd("supersingular", ["--fp", "--supersingular"], p.bit_length(), draw(gens.SEEDS), stdin="%d\n" % p, p=p)


def easy_order(D, t, y, prime, sign):
    """An order (prime, if asked for) of a curve with complex multiplication by the discriminant -D."""
    for i in range(6000):
        v = t * t + D * y * y
        if v % 4 == 0 and nt.is_prime(v // 4):
            n = v // 4 + 1 + (t if sign else -t)
            if n > 63 and (not prime or nt.is_prime(n)):
                return n
        t += 1
        if i % 3 == 2:
            y += 1
    return None


@st.composite
def cm_order(draw, hi=72):
    """An order that complex multiplication reaches with little work; (order, discriminant or None)."""
    prime = draw(st.integers(0, 2)) == 0
    if not prime and draw(st.integers(0, 3)) == 0:
        b = draw(st.integers(7, 20))
        return draw(st.integers(1 << (b - 1), (1 << b) - 1).filter(lambda n: not nt.is_prime(n))), None
    h = draw(gens.bits_st(10, hi, 16, 40)) // 2
    D = draw(st.sampled_from([11, 19, 43, 35, 51, 91, 115] if prime else [3, 3, 4, 7, 8, 11, 15, 20, 23, 24, 35, 40, 43, 47, 67, 71, 84]))
    n = easy_order(D, draw(st.integers(1, 1 << h)), draw(st.integers(max(1, 1 << (h - 2)), 1 << h)), prime, draw(st.booleans()))
    return (n, D) if n else (4000, None)


@st.composite
def cm(draw, hi=72):
    n, D = draw(cm_order(hi))
    if nt.is_prime(n):
        s = gens.fmt(n, draw(st.sampled_from(["dec", "hex", "HEX"])))
    else:
        s = gens.fmt(n, draw(st.sampled_from(["dec", "hex"])))
        if draw(st.integers(0, 2)) == 0:
            f = [p for p, e in nt.factor(n).items() for _ in range(e)]
            if len(f) > 1:
                s = ",".join(map(str, f))
    return cmd("cm", ["--fp", "--order=" + s], n.bit_length() + draw(st.integers(0, 2)), draw(gens.SEEDS), n=n, D=D)


@st.composite
def twist(draw, fp_hi=56, f2m_hi=40):
    c = draw(gens.curve_case(fp_hi=fp_hi, f2m_hi=f2m_hi, methods=("random", "given"), constraint=("none",),
                             points=st.none(), lo=3))
    d = from_default(c)
    d["meth"] = "twist"
    d["args"] = ["--twist"] + d["args"]
    return d


@st.composite
def family(draw):
    name, z = draw(st.sampled_from(FAMILY_Z))
    s = "".join(ch.lower() if draw(st.booleans()) else ch for ch in name)
    d = gens.fmt(abs(z), draw(st.sampled_from(["dec", "hex"])))
    return cmd("family", ["--fp", "--family=" + s], max(abs(z).bit_length(), 3) + draw(st.integers(0, 3)), draw(gens.SEEDS),
               stdin=("-" if z < 0 else "") + d + "\n", z=z, fam=name)


# small z for which the family is defined (checked by props/c17.py, which searches for them itself)
FAMILY_Z = [("BN", 5), ("BN", -1), ("BN", 1), ("BN", 7)]


RESOURCE = ("the PARI stack overflows", "not enough memory", "stack overflow", "Try to increase")


def exhausted(c, r):
    """Out of time, or out of memory where the size of the request does not bound it."""
    if r.cpu_hit:
        raise Timeout("cpu")
    if c["meth"] == "cm" and any(x in r.err for x in RESOURCE):
        raise Inconclusive("resources")


def execute(c, **kw):
    if c["meth"] == "cm":
        kw.setdefault("cpu", 5)  # the search for a prime of some orders is hopeless
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], files=c["files"], **kw)
    exhausted(c, r)
    check(r.rc == 0, lambda: "ecgen %s failed: %s" % (" ".join(c["args"]), r.brief()), "failed")
    return cli.curves(r.out, c["bits"], c["count"]), r


def observe(c, **kw):
    """Curves of a case of either kind."""
    if "args" not in c:
        c = from_default(c)
    return execute(c, **kw)[0]


def with_extra(c, extra):
    d = dict(c)
    d["args"] = c["args"][:-1] + list(extra) + [c["args"][-1]]
    return d


@st.composite
def any_method(draw, which=("ansi", "brainpool", "nums", "anomalous", "supersingular", "cm", "twist", "family")):
    m = draw(st.sampled_from(which))
    return draw({"ansi": ansi, "brainpool": brainpool, "nums": nums, "anomalous": anomalous,
                 "supersingular": supersingular, "cm": cm, "twist": twist, "family": family}[m]())
