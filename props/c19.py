from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, Inconclusive, check
from props import c04, c20


def quadratic_twist(E, T):
    """Whether T is the non-trivial quadratic twist of E (or what is wrong)."""
    if E.kind == "fp":
        p = E.p
        if E.j() != T.j():
            return "the j-invariants differ, %#x and %#x" % (E.j(), T.j())
        if E.a and E.b:
            u = T.b * E.a * pow(T.a * E.b, -1, p) % p
            ok = (T.a - E.a * u * u) % p == 0 and nt.jacobi(u, p) == -1
        elif E.a == 0:
            r = T.b * pow(E.b, -1, p) % p  # u^3
            ok = nt.jacobi(r, p) == -1 and (p % 3 != 1 or pow(r, (p - 1) // 3, p) == 1)
        else:
            r = T.a * pow(E.a, -1, p) % p  # u^2
            ok = nt.jacobi(r, p) == 1 and (p % 4 != 1 or pow(r, (p - 1) // 4, p) == p - 1)
        return None if ok else "not related by a non-square"
    if E.b != T.b:
        return "b differs, so j does"
    return None if E.F.trace(E.a ^ T.a) else "the trace of the difference of the coefficients a is not one"


def relation(cv, E, what):
    T = cv.E()
    e = quadratic_twist(E, T)
    check(e is None, lambda: "not the quadratic twist of %s: %s" % (what, e))
    verify.order(cv)
    n = 2 * cv.q + 2 - cv.order
    e = ec.order_is(E, n)
    check(e is None, lambda: "the order %d of the twist and that of the original do not sum to 2q + 2: %s" % (cv.order, e))


CON = [[], [], [], [], ["-u"], ["-k", "2"], ["-k", "4"], ["-B"], ["-p"]]


@st.composite
def runs(draw, lo=2):
    field = draw(st.sampled_from(["fp", "f2m"]))
    how = draw(st.sampled_from(["given", "given", "random", "random", "koblitz"]))
    c = {"field": field, "how": how, "seed": draw(gens.SEEDS), "stdin": ""}
    con = draw(st.sampled_from(CON)) if how == "random" else draw(st.sampled_from([[], [], ["-u"]]))
    if how == "given":
        d = draw(gens.curve_case(fields=(field,), methods=("given",), fp_hi=80, f2m_hi=40, constraint=("none",), points=st.none(), lo=lo))
        c["given"] = gens.input_values(d)
        c["bits"] = d["bits"]
        args = ["--" + field]
        c["stdin"] = "".join("%d\n" % v for v in c["given"])
        if con == ["-u"]:
            con = []
    elif how == "koblitz":
        K = draw(st.sampled_from(["0", "1", ""]))
        if field == "f2m":
            from props.c21 import koblitz_sizes
            c["bits"] = draw(st.one_of(st.integers(3, 40), st.sampled_from(sorted(m for m, _ in koblitz_sizes() if m < 300))))
        else:
            c["bits"] = draw(st.integers(5, 70))
        args = ["--" + field, "-r", "-K" + K]
        c["K"] = int(K or 0)
        con = []
    else:
        c["bits"] = draw(gens.bits_st(lo, 72 if field == "fp" else 48, 14, 40))
        if con and c["bits"] < 10 or c["bits"] > 40:
            con = []
        if field == "f2m" and con == ["-p"]:
            con = ["-k", "2"]
        if con and con[0] == "-B":
            con = ["-B", str(c["bits"] * 2 // 3 + 1)]
        if con == ["-k", "4"] and field == "f2m":
            c["bits"] = max(c["bits"], 12)
        args = ["--" + field, "-r"]
    pts = draw(st.sampled_from([[], [], ["--points=none"], ["--points=none"], ["--points=prime"], ["--points=random"], ["--points=3random"], ["--metadata"]]))
    if c["bits"] > 64:
        pts = ["--points=none"]
    n = 1 if how == "given" or pts else draw(st.sampled_from([1, 1, 3]))
    c.update(args=args, con=con, pts=pts, count=n)
    return c


def run(c):
    tail = ["-c", str(c["count"])] if c["count"] > 1 else []
    cs, _ = methods.execute({"meth": "twist", "args": c["args"] + ["--twist"] + c["con"] + c["pts"] + tail + [str(c["bits"])],
                             "stdin": c["stdin"], "seed": c["seed"], "files": {}, "bits": c["bits"], "count": c["count"]})
    l = [c["field"], c["how"], "".join(c["con"][:1]) or "no constraint"]
    for cv in cs:
        verify.domain(cv, c["bits"], exact_size=c["how"] != "given")
        if not verify.usable(cv):
            return l
    first = cs[0]
    E = None
    if c["how"] == "given":
        g = c["given"]
        if c["field"] == "fp":
            check(first.p == g[0], "another field")
            E = ec.Fp(*g)
        else:
            check([first.m] + first.e == g[:4], "another field")
            E = ec.F2m(first.poly(), g[4], g[5])
        relation(first, E, "the curve given")
    elif c["how"] == "koblitz":
        for cv in cs:
            E = ec.Fp(cv.p, c["K"], 1) if cv.p is not None else ec.F2m(cv.poly(), c["K"], 1)
            if cv.p is not None and E.singular():
                return l
            relation(cv, E, "the Koblitz curve")
    elif not c["con"]:
        # the same random state without --twist shows the original of the first curve
        o, _ = methods.execute({"meth": "default", "args": c["args"] + ["--points=none", str(c["bits"])], "stdin": c["stdin"], "seed": c["seed"],
                                "files": {}, "bits": c["bits"], "count": 1})
        o = o[0]
        check((first.p, first.m) == (o.p, o.m), lambda: "another field than without --twist")
        relation(first, o.E(), "the curve generated")
    for cv in cs:
        verify.order(cv)
        if "-k" in c["con"]:
            k = int(c["con"][1])
            check(cv.order % k == 0 and nt.is_prime(cv.order // k), lambda: "order %d for -k %d" % (cv.order, k))
            verify.generators(cv, cofactor=k)
        else:
            verify.generators(cv)
        if c["con"] == ["-p"]:
            check(nt.is_prime(cv.order), lambda: "order %d is not prime" % cv.order)
        if "-B" in c["con"]:
            check(verify.largest(cv.order).bit_length() <= int(c["con"][1]), lambda: "order %d is not smooth" % cv.order)
        pt = [p for p in c["pts"] if p.startswith("--points=")]
        kind = pt[0][9:].lstrip("3") if pt else "random"
        verify.points(cv, kind, (3 if pt and pt[0][9] == "3" else 1) if kind == "random" and pt else None) if pt else None
        if "--metadata" in c["pts"]:
            c20.judge(cv)
    return ["nontrivial"] + l


PROP = Prop(
    "C19",
    "a twist was printed, its data verified, and it was compared with the given (or, from the same random state, the generated) original",
    [Facet("small", lambda: runs(), run, 500, 12000),
     Facet("runs", lambda: runs(lo=12), run, 500, 12000)],
    "property-based testing: twists compared with their originals by the defining relation over the field, orders by point multiplication on both",
    "Random exploration, all field sizes from 3 bits to 80 (60 for generated ones), Koblitz curves to 300.",
    builds=[build.cli])
