from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.combined import combined
from vf.core import Facet, Prop, Inconclusive, check

KEYS_FP = {"j", "discriminant", "embedding_degree", "frobenius", "cm_discriminant", "conductor"}
KEYS_F2M = {"j", "discriminant", "frobenius"}


def dec(s):
    check(isinstance(s, str) and s.lstrip("-").isdigit() and s == str(int(s)), lambda: "not a canonical decimal number: %r" % (s,))
    return int(s)


def fundamental(d):
    if d % 4 == 1:
        n = d
    elif d % 4 == 0 and (d // 4) % 4 in (2, 3):
        n = d // 4
    else:
        return False
    return all(e == 1 for e in nt.factor(abs(n)).values())


def judge(cv):
    m = cv.meta
    check(isinstance(m, dict), "no metadata")
    check(set(m) == (KEYS_FP if cv.p is not None else KEYS_F2M), lambda: "metadata keys %s" % sorted(m))
    m = {k: dec(v) for k, v in m.items()}
    E = cv.E()
    check(m["j"] == E.j(), lambda: "j-invariant %d printed, it is %d" % (m["j"], E.j()))
    check(m["discriminant"] == E.disc(), lambda: "discriminant %d printed, it is %d" % (m["discriminant"], E.disc()))
    t = cv.q + 1 - cv.order
    check(m["frobenius"] == t, lambda: "trace %d printed, it is %d by the order" % (m["frobenius"], t))
    verify.order(cv)
    if cv.p is None:
        return m
    p = cv.p
    d, f = m["cm_discriminant"], m["conductor"]
    check(f > 0 and d * f * f == t * t - 4 * p, lambda: "%d * %d^2 is not t^2 - 4p = %d" % (d, f, t * t - 4 * p))
    check(fundamental(d), lambda: "%d is not a fundamental discriminant" % d)
    k, n = m["embedding_degree"], cv.order
    if n % p == 0:
        check(k == 0, lambda: "embedding degree %d for an anomalous curve" % k)
    elif n == 1:
        check(k in (0, 1), lambda: "embedding degree %d for a trivial group" % k)
    else:
        check(k > 0 and pow(p, k, n) == 1, lambda: "n does not divide p^%d - 1" % k)
        for r in nt.factor(k):
            check(pow(p, k // r, n) != 1, lambda: "n divides p^%d - 1, embedding degree %d printed" % (k // r, k))
    return m


@st.composite
def default(draw):
    c = draw(gens.curve_case(fp_hi=72, f2m_hi=56, constraint=("none", "none", "p", "k", "u"), points=st.sampled_from([None, "none", "random", "prime"]),
                             count=st.sampled_from([1, 1, 2])))
    d = methods.from_default(c)
    return methods.with_extra(d, ["--metadata"] if draw(st.integers(0, 5)) else [])


@st.composite
def other(draw):
    d = draw(methods.any_method())
    if d["bits"] > 80:
        d = draw(methods.anomalous(20, 80))
    return methods.with_extra(d, ["--metadata"] if draw(st.integers(0, 5)) else [])


@st.composite
def small(draw):
    """Curves over tiny fields: extreme traces, anomalous and supersingular ones, j = 0 and 1728."""
    c = draw(gens.curve_case(fp_hi=11, f2m_hi=9, methods=("given", "given", "random"), constraint=("none",), points=st.just("none"), lo=2))
    return methods.with_extra(methods.from_default(c), ["--metadata"])


@st.composite
def large(draw):
    """Curves whose discriminant has a square factor of half its size, or is that of a known field."""
    kind = draw(st.sampled_from(["anomalous", "anomalous", "supersingular"]))
    return methods.cmd(kind, ["--fp", "--" + kind, "-r", "--metadata"], draw(st.integers(81, 200)), draw(gens.SEEDS))


def tiny(tier):
    return [methods.with_extra(methods.from_default(c), ["--metadata"]) for c in gens.tiny(tier)]


def run(c):
    on = "--metadata" in c["args"]
    l = [c["meth"]]
    for cv in methods.observe(c):
        if not on:
            check(cv.meta is None, "metadata printed though not asked for")
            l.append("off")
            continue
        if verify.usable(cv):
            m = judge(cv)
            l.append("nontrivial")
            if cv.p is not None:
                E = cv.E()
                l += ["fp"] + ["j=%d" % j for j in (0, 1728) if E.j() == j % cv.p] + (["anomalous"] if cv.order == cv.p else []) + \
                    (["supersingular"] if m["frobenius"] == 0 else []) + (["conductor>1"] if m["conductor"] > 1 else [])
                if m["cm_discriminant"] % 4 == 0:
                    l.append("even discriminant")
            else:
                l.append("f2m")
    return l


PROP = Prop(
    "C20",
    "metadata were printed and every one was recomputed from the coefficients and the order, which was itself verified",
    [Facet("small", small, run, 600, 12000),
     Facet("tiny", None, run, 0, enum=tiny, slow=0),
     Facet("default", default, run, 500, 10000),
     Facet("other", other, run, 300, 6000),
     Facet("large", large, run, 40, 600),
     combined(("metadata",), ("metadata",))],
    "property-based testing: the printed invariants recomputed by independent arithmetic",
    "Random exploration to 72 bits (56 for binary fields), all methods, all kinds of small curves.",
    builds=[build.cli])
