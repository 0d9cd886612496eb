from hypothesis import strategies as st
from vf import build, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, check, Timeout


def run(c):
    labels = ["nontrivial"]
    for cv in methods.observe(c):
        verify.domain(cv, c["bits"])
        labels += gens.describe(c, cv)
        if cv.m:
            labels.append("pentanomial" if cv.e[1] else "trinomial")
    return labels


def run_method(c):
    labels = [c["meth"]]
    for cv in methods.observe(c):
        verify.domain(cv, c["bits"], c["meth"] not in ("cm", "family"))
        if cv.p:
            check((cv.p + 1 - cv.order) ** 2 <= 4 * cv.p, "order outside the Hasse interval")
        labels.append("nontrivial")
    return labels


@st.composite
def unreduced(draw):
    """Given fields with coefficients that are not reduced."""
    c = draw(gens.curve_case(methods=("given",), points=st.just("none"), constraint=("none",)))
    bits = c["bits"]
    c["raw"] = [draw(st.integers(0, 1 << bits)), draw(st.integers(0, 1 << bits))]
    return c


def run_unreduced(c):
    """The tool reduces, or reads on (and runs out of input); it never prints what is not reduced."""
    from vf import cli
    d = dict(c)
    d["a"], d["b"] = c["raw"]
    m = methods.from_default(d)
    r = cli.run(m["args"], stdin=m["stdin"], seed=m["seed"], files=m["files"])
    if r.cpu_hit:
        raise Timeout("cpu")
    if r.rc != 0:
        return ["refused"]
    for cv in cli.curves(r.out, c["bits"]):
        verify.domain(cv, c["bits"])
    big = c["p"] if c["field"] == "fp" else 1 << c["bits"]
    return ["nontrivial", "reduced" if max(c["raw"]) >= big else "as given"]


@st.composite
def impostor(draw):
    """Fields that are none, such as an incomplete test would accept, and then a field."""
    seed = draw(gens.SEEDS)
    if draw(st.booleans()):
        m = draw(st.integers(4, 22).filter(gens.false_polys))
        kind = draw(st.sampled_from(sorted(gens.false_polys(m))))
        bad = draw(st.lists(st.sampled_from(gens.false_polys(m)[kind]), min_size=1, max_size=4))
        tri = gens.trinomials(m)
        e = [tri[0], 0, 0] if tri else gens.pentanomial(m, 0)
        order = draw(st.permutations([0, 1, 2]))
        rows = [[m] + [b[i] for i in order] for b in bad] + [[m] + list(e)]
        vals = [x for r in rows for x in r] + [draw(st.integers(0, (1 << m) - 1)), draw(st.integers(1, (1 << m) - 1))]
        return methods.cmd("given", ["--f2m", "--points=none"], m, seed, stdin="".join("%d\n" % x for x in vals), kind=kind, want=[m] + sorted(e, reverse=True))
    kind = draw(st.sampled_from(["pseudoprime", "square", "close factors", "twice"]))
    if kind == "pseudoprime":
        bad = draw(st.sampled_from(gens.PSEUDO))
    else:
        p = draw(gens.prime_st(3, 40, 12, 32))
        bad = p * {"square": p, "close factors": nt.next_prime(p + draw(st.integers(0, 30))), "twice": 2}[kind]
    p = nt.next_prime(bad if bad.bit_length() > 3 else 11)
    if p.bit_length() > bad.bit_length():
        p = gens.prime_from(bad.bit_length(), 0)
    bits = p.bit_length()
    m = draw(st.sampled_from(["given", "supersingular"]))
    a, b = draw(st.integers(1, p - 1)), draw(st.integers(1, p - 1))
    while ec.Fp(p, a, b).singular():
        b = b % (p - 1) + 1
    vals = [bad, p] + ([a, b] if m == "given" else [])
    return methods.cmd(m, ["--fp", "--points=none"] + (["--supersingular"] if m != "given" else []), bits, seed,
                       stdin="".join("%d\n" % x for x in vals), kind=kind, want=p)


def run_impostor(c):
    from vf import cli
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"])
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc == 0, lambda: "a field and a curve are given after the values that are no field, but: %s" % r.brief())
    for cv in cli.curves(r.out, c["bits"]):
        verify.domain(cv, c["bits"])
        got = cv.p or [cv.m] + sorted(cv.e, reverse=True)
        check(got == c["want"], lambda: "the field is %r, the only one among the values given is %r" % (got, c["want"]))
    return ["nontrivial", c["kind"]]


PROP = Prop(
    "C01",
    "a curve was printed (after values that are no field, in the facet impostors) and its field and coefficients were verified; distinct command lines and inputs counted",
    [Facet("mixed", lambda: gens.curve_case(fp_hi=128, f2m_hi=170, points=st.just("none"), count=st.sampled_from([1, 1, 1, 2, 3])), run, 900, 18000),
     Facet("unreduced", unreduced, run_unreduced, 300, 5000, slow=0),
     Facet("impostors", impostor, run_impostor, 300, 5000, slow=0),
     Facet("methods", methods.any_method, run_method, 400, 8000)],
    "property-based testing: random command lines of every generation method, printed field and coefficients checked by an independent primality / irreducibility / singularity oracle",
    "Random exploration: sizes up to 128 (prime) and 170 (binary) bits for the default method, smaller for the seeded methods; primality is Miller-Rabin with 12+ bases.",
    builds=[build.cli])
