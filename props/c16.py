from hypothesis import strategies as st
from vf import build, cli, gens, methods, nt, verify
from vf.core import Facet, Prop, check, Timeout


def judge(cv, n, bits):
    check(cv.p is not None, "not over a prime field")
    verify.domain(cv, bits, exact_size=False)
    check(cv.order == n, lambda: "order %d printed, %d requested" % (cv.order, n))
    verify.order(cv)
    check(cv.subs, "no generators")


@st.composite
def runs(draw):
    c = draw(methods.cm(96))
    k = draw(st.sampled_from([1, 1, 2, 3]))
    extra = draw(st.sampled_from([[], ["--points=none"], ["--points=random"], ["--points=prime"], ["-u"], ["--metadata"]]))
    c["args"] = ["-c", str(k)] + extra + c["args"]
    c["count"] = k
    return c


def run(c):
    cs, _ = methods.execute(c)
    for cv in cs:
        judge(cv, c["n"], c["bits"])
    return ["nontrivial", "prime" if nt.is_prime(c["n"]) else "composite", "D=%s" % c["D"], "bits:%d" % (c["n"].bit_length() // 20 * 20),
            "factors" if any("," in a for a in c["args"]) else "number"]


def small(tier):
    return [{"n": n} for n in (range(5, 900) if tier == "quick" else range(5, 20000))]


def run_small(c):
    """Every small order (those out of reach of the search are only given a second of CPU time)."""
    n = c["n"]
    bits = max(3, n.bit_length())
    r = cli.run(["--fp", "--points=none", "--order=%d" % n, str(bits)], cpu=1)
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc == 0, lambda: "order %d failed: %s" % (n, r.brief()))
    judge(cli.curves(r.out, bits, 1)[0], n, bits)
    return ["nontrivial", "prime" if nt.is_prime(n) else "composite"]


@st.composite
def refused(draw):
    k = draw(st.sampled_from(["big", "big", "junk", "trail", "list", "neg", "zero", "list0", "bigfactors"]))
    n = draw(st.integers(64, 1 << draw(st.integers(8, 60))))
    bits = n.bit_length()
    num = gens.fmt(n, draw(st.sampled_from(["dec", "hex"])))
    if k == "big":
        bits, o = draw(st.integers(1, bits - 2)), num
    elif k == "bigfactors":
        o = ",".join(map(str, draw(st.lists(st.integers(9, 99), min_size=3, max_size=5))))
        bits = draw(st.integers(3, 7))
    elif k == "junk":
        o = draw(st.text("ghxyz.-+ ,abc", min_size=1, max_size=6).filter(lambda s: s.strip()))
        if o[0] == "-" and len(o) == 1:
            o = "x"
    elif k == "trail":
        o = num + draw(st.sampled_from([" ", "g", "z", ".", ".5", "*2", "+1", "e3g", "^2", ";", "x", "-"]))
    elif k == "list":
        o = draw(st.sampled_from([",%s", "%s,", "%s,,7", "%s,g", "g,%s", "%s, ,3", "%s;7", "%s,7z"])) % num
        bits += 4
    elif k == "neg":
        o = "-" + num
    elif k == "list0":
        o, bits = num + ",0", bits + 4
    else:
        o = draw(st.sampled_from(["0", "0x0", "00"]))
    return {"kind": k, "o": o, "bits": bits}


def run_refused(c):
    r = cli.run(["--fp", "--points=none", "--order=" + c["o"], str(c["bits"])], cpu=10)
    check(not r.cpu_hit and r.rc != 0 and r.rc > 0, lambda: "order %r for %d bits was not refused: %s" % (c["o"], c["bits"], r.brief()))
    check("field" not in r.out, lambda: "a curve was printed for the order %r: %s" % (c["o"], r.brief()))
    return ["nontrivial", c["kind"]]


PROP = Prop(
    "C16",
    "a curve was printed and its number of points verified to be the requested one; for the refusals, the request was refused without a curve",
    [Facet("small", None, run_small, 0, 0, enum=small, slow=0.03),
     Facet("runs", runs, run, 180, 5000, slow=0.35),
     Facet("refused", refused, run_refused, 300, 4000)],
    "property-based testing: the number of points of printed curves is verified by enumeration or by point and twist-point multiplication",
    "Every order from 5 to 900 (thorough: 20000), random orders to 96 bits by the discriminant they are built from; orders the search does not reach are not judged.",
    builds=[build.cli])
