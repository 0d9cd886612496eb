from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, Inconclusive, check


def judge(cv, p, bits):
    check(cv.p is not None, "not over a prime field")
    if p:
        check(cv.p == p, lambda: "p = %d printed, %d given" % (cv.p, p))
    verify.domain(cv, bits, exact_size=not p)
    check(cv.order == cv.p + 1, lambda: "order %d is not p + 1, p = %d" % (cv.order, cv.p))
    verify.order(cv)
    if cv.meta is not None:
        check(cv.meta.get("frobenius") == "0", lambda: "trace %s" % cv.meta.get("frobenius"))


def cls(p):
    """How the construction goes: 3 mod 4, 2 mod 3, or by the smallest inert prime."""
    if p % 4 == 3:
        return "3 mod 4"
    if p % 3 == 2:
        return "2 mod 3"
    q = 7
    while not (q % 4 == 3 and nt.is_prime(q) and nt.jacobi(p % q, q) == -1):
        q += 1
    return "q=%d" % q


def given(tier):
    top = 3000 if tier == "quick" else 40000
    ps = [p for p in range(5, top) if nt.is_prime(p)]
    return [{"ps": ps[i:i + 6]} for i in range(0, len(ps), 6)]


def run_given(c):
    """Every prime up to a bound, several per run."""
    ps = c["ps"]
    b = ps[-1].bit_length()
    cs, _ = cli.ok_curves(["--fp", "--supersingular", "--points=none", "-c", str(len(ps)), str(b)], b, len(ps),
                          stdin="".join("%d\n" % p for p in ps))
    for cv, p in zip(cs, ps):
        judge(cv, p, b)
    return ["nontrivial"] + sorted(set(cls(p) for p in ps))


@st.composite
def runs(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    extra = draw(st.sampled_from([[], [], ["--metadata"], ["--points=random"], ["--points=none"]]))
    bits = draw(gens.bits_st(4, 256, 14, 60))
    if bits > 80 and extra != ["--points=none"]:
        extra = ["--points=none"]  # p + 1 is factored for the points
    if draw(st.booleans()):
        return methods.cmd("supersingular", ["--fp", "--supersingular", "-r", "-c", str(n)] + extra, bits, draw(gens.SEEDS), count=n, ps=None)
    # residue classes that need a larger auxiliary prime, too
    m = draw(st.sampled_from([1, 1, 12, 12, 12, 84, 84, 924]))
    ps = []
    for _ in range(n):
        p = gens.prime_from(bits, draw(st.integers(0, 1 << bits)))
        for _ in range(5000):
            if p % m == 1 or m == 1:
                break
            p = nt.next_prime(p)
        ps.append(p)
    bits = max(p.bit_length() for p in ps)
    sep = draw(st.sampled_from(["stdin", "file"]))
    if sep == "file":
        return methods.cmd("supersingular", ["--fp", "--supersingular", "-f", "@in", "-c", str(n)] + extra, bits, draw(gens.SEEDS),
                           files={"in": ",".join(map(str, ps))}, count=n, ps=ps)
    return methods.cmd("supersingular", ["--fp", "--supersingular", "-c", str(n)] + extra, bits, draw(gens.SEEDS),
                       stdin="".join("%d\n" % p for p in ps), count=n, ps=ps)


def run(c):
    cs, _ = methods.execute(c)
    l = ["nontrivial", "given" if c["ps"] else "random"]
    for i, cv in enumerate(cs):
        judge(cv, c["ps"] and c["ps"][i], c["bits"])
        l.append(cls(cv.p))
    return l


PROP = Prop(
    "C15",
    "a supersingular curve was printed; its field was compared with the given one and its number of points verified",
    [Facet("given", None, run_given, 0, 0, enum=given, slow=0),
     Facet("runs", runs, run, 500, 12000)],
    "property-based testing: the number of points of printed curves is verified by enumeration or by point and twist-point multiplication",
    "Every prime below 3000 (thorough: 40000), random ones to 256 bits, in the residue classes that need larger auxiliary primes as well.",
    builds=[build.cli])
