from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, check, Timeout

# 163 b (b + 1) + 41 is prime for some b only at these of the small sizes
NONE = {1, 2, 3, 4, 5, 7, 8}


def exists(bits):
    if bits >= 24:
        return True
    b = 0
    while 163 * b * (b + 1) + 41 < 1 << bits:
        p = 163 * b * (b + 1) + 41
        if p.bit_length() == bits and nt.is_prime(p):
            return True
        b += 1
    return False


def judge(cv, bits):
    check(cv.p is not None, "not over a prime field")
    verify.domain(cv, bits)
    check(cv.order == cv.p, lambda: "order %d is not p = %d" % (cv.order, cv.p))
    verify.order(cv)
    check(cv.subs and cv.subs[0].order == cv.p and len(cv.subs) == 1, "the generator does not have order p")
    verify.generators(cv)
    if cv.meta is not None:
        check(cv.meta.get("frobenius") == "1", lambda: "trace %s" % cv.meta.get("frobenius"))


@st.composite
def runs(draw):
    bits = draw(gens.bits_st(9, 320, 24, 64))
    n = draw(st.sampled_from([1, 1, 2, 4]))
    extra = draw(st.sampled_from([[], ["--metadata"], ["--metadata"], ["-u"], ["--points=random"], ["--points=none"], ["--points=all"]]))
    if bits > 90 and extra == ["--metadata"]:
        extra = ["--points=none"]  # the conductor is factored
    return methods.cmd("anomalous", ["--fp", "--anomalous", "-r", "-c", str(n)] + extra, bits, draw(gens.SEEDS), count=n)


def run(c):
    cs, _ = methods.execute(c)
    for cv in cs:
        judge(cv, c["bits"])
    return ["nontrivial", "count:%d" % c["count"], "bits:%s" % ("<24" if c["bits"] < 24 else "24-64" if c["bits"] <= 64 else ">64")]


def small(tier):
    return [{"bits": b, "seed": s} for b in range(4, 24) for s in range(1, 5 if tier == "quick" else 60)]


def run_small(c):
    """Every small size: a curve, or a clean refusal where there is none."""
    b = c["bits"]
    r = cli.run(["--fp", "--anomalous", "-r", "--metadata", str(b)], seed=c["seed"])
    if r.cpu_hit:
        raise Timeout("cpu")
    if not exists(b):
        check(r.rc != 0 and not cli.parse(r.out), lambda: "no field of %d bits has such a curve, but: %s" % (b, r.brief()))
        return ["no such field"]
    check(r.rc == 0, lambda: "size %d refused: %s" % (b, r.brief()))
    judge(cli.curves(r.out, b, 1)[0], b)
    return ["nontrivial"]


PROP = Prop(
    "C14",
    "an anomalous curve was printed; its number of points was verified",
    [Facet("small", None, run_small, 0, 0, enum=small, slow=0),
     Facet("runs", runs, run, 500, 12000)],
    "property-based testing: the number of points of printed curves is verified by enumeration or by point and twist-point multiplication",
    "Random exploration up to 320 bits, with every size below 24.",
    builds=[build.cli])
