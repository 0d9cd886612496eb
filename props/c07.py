from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, verify
from vf.combined import combined
from vf.core import Facet, Prop, check, Timeout


def params(cv):
    ps = {"a": cv.raw["a"], "b": cv.raw["b"], "order": cv.raw["order"]}
    if cv.p is not None:
        ps["p"] = cv.raw["field"]["p"]
    if cv.seed:
        ps["seed"] = cv.seed
    for i, s in enumerate(cv.raw.get("subgroups", [])):
        ps["g%dx" % i], ps["g%dy" % i] = s["x"], s["y"]
        for j, t in enumerate(s.get("points", [])):
            ps["p%d.%dx" % (i, j)], ps["p%d.%dy" % (i, j)] = t["x"], t["y"]
    return {k: v.lower() for k, v in ps.items()}


def contained(cv, h):
    h = h.lower()
    if h.startswith("0x") and len(h) > 2:
        h = h[2:]
    if h.strip("0") == "" and len(h) <= 1:
        return ["trivial"]
    return [k for k, v in params(cv).items() if h in v[2:]]


def style(draw, h):
    k = draw(st.integers(0, 4))
    if k == 0:
        h = h.upper()
    elif k == 1:
        h = "".join(c.upper() if i % 2 else c for i, c in enumerate(h))
    return draw(st.sampled_from(["", "", "0x", "0X"])) + h


PTS = st.sampled_from(["none", "none", "prime", "all", "3random"])


@st.composite
def rnd(draw):
    field = draw(st.sampled_from(["fp", "f2m"]))
    bits = draw(st.integers(10, 40))
    h = draw(st.text("0123456789abcdef", min_size=1, max_size=2 if bits < 24 else 3))
    args = ["--" + field, "-r", "--hex-check=" + style(draw, h), "--points=" + draw(PTS)]
    k = draw(st.sampled_from(["", "", "ansi", "u", "p"]))
    if k == "ansi":
        args.append("--ansi")
        bits = max(bits, 14)
    if k == "u":
        args.append("-u")
    if k == "p" and field == "fp":
        args.append("-p")
    n = draw(st.sampled_from([1, 1, 3]))
    return methods.cmd("hex", args + ["-c", str(n)], bits, draw(gens.SEEDS), h=h, count=n)


def run(c):
    cs, _ = methods.execute(c)
    labels = []
    for cv in cs:
        w = contained(cv, c["h"])
        check(w, lambda: "curve printed does not contain %r in any parameter: %s" % (c["h"], params(cv)))
        if w != ["trivial"]:
            labels += ["nontrivial", "len:%d" % len(c["h"])]
            if set(x[0] for x in w) <= {"g", "p"} and "p" not in w:
                labels.append("only in coordinates")
            if w == ["seed"]:
                labels.append("only in seed")
    return labels


@st.composite
def given(draw):
    c = draw(gens.curve_case(methods=("given",), constraint=("none",), points=PTS, fp_hi=72, f2m_hi=24))
    c["pick"] = [draw(st.integers(0, 1 << 30)) for _ in range(5)]
    c["how"] = draw(st.sampled_from(["sub", "sub", "cross", "cross", "absent", "whole", "longer"]))
    c["style"] = "dec"
    c["hs"] = draw(st.integers(0, 99))
    return c


def run_given(c):
    """A given curve: printed if its own parameters contain the string, refused unless some parameter does."""
    base = methods.observe(c)[0]
    ps = params(base)
    own = {k: v[2:] for k, v in ps.items() if k in ("p", "a", "b", "order")}
    ks = sorted(own)
    i = c["pick"]
    v = own[ks[i[0] % len(ks)]]
    how = c["how"]
    if how in ("sub", "whole"):
        a = i[1] % len(v) if how == "sub" else 0
        h = v[a:a + 1 + i[2] % 6] if how == "sub" else v
    elif how == "cross":
        # the end of one parameter and the beginning of the next
        w = own[ks[i[3] % len(ks)]]
        h = v[-(1 + i[1] % 4):] + w[:1 + i[2] % 4]
    elif how == "longer":
        h = v + "%x" % (i[1] % 16)
    else:
        h = "%x" % i[1]
    if len(h) < 2 and h == "0":
        return ["trivial"]
    d = dict(c)
    s = h if c["hs"] % 3 else h.upper()
    d["extra"] = ["--hex-check=" + ("0x" if c["hs"] % 5 == 0 else "") + s]
    m = methods.from_default(d)
    r = cli.run(m["args"], stdin=m["stdin"], seed=m["seed"], files=m["files"])
    if r.cpu_hit:
        raise Timeout("cpu")
    inown = [k for k in own if h in own[k]]
    if r.rc != 0:
        check(not inown, lambda: "curve containing %r in %s refused: %s %s" % (h, inown, own, r.brief()))
        check(not r.out.strip() or not cli.parse(r.out), lambda: "a failed run printed a curve: %r" % r.out)
        return ["nontrivial", how + ":refused"]
    cv = cli.curves(r.out, c["bits"], 1)[0]
    check(contained(cv, h), lambda: "curve printed does not contain %r: %s" % (h, params(cv)))
    return ["nontrivial", how + ":printed"]


@st.composite
def kept(draw):
    """The command line of a curve, and where in its parameters to take the string from."""
    k = draw(st.integers(0, 9))
    if k < 2:
        c = draw(methods.any_method(("ansi", "brainpool", "supersingular", "twist")))
    else:
        c = draw(gens.curve_case(methods=("given",) if k < 8 else ("random",), constraint=("none", "none", "u"), points=st.sampled_from(["prime", "all", "all", "nonprime", "4random"]), fp_hi=64, f2m_hi=24))
        if k < 6 and c["method"] == "given" and c["field"] == "fp" and c["p"] > 11:
            # three points of order two: often two generators
            p = c["p"]
            r, s = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
            t = (-r - s) % p
            if len({r, s, t}) == 3:
                c["a"], c["b"] = (r * s + r * t + s * t) % p, -r * s * t % p
    c["from"] = draw(st.sampled_from(["last points", "last points", "points", "gens", "any"]))
    c["at"] = draw(st.integers(0, 1 << 20))
    c["len"] = draw(st.integers(1, 20))
    return c


def run_kept(c):
    """The curve of a run, rerun with the string looked for taken from its parameters, is not rejected."""
    m = c if "args" in c else methods.from_default(c)
    base = methods.execute(m)[0][0]
    ps = params(base)
    last = max(len(base.subs) - 1, 0)
    pre = {"last points": ("p%d." % last,), "points": ("p0.", "p1."), "gens": ("g",), "any": ("",)}[c["from"]]
    ks = sorted(k for k in ps if k.startswith(pre)) or sorted(ps)
    v = ps[ks[c["at"] % len(ks)]][2:]
    n = max(min(c["len"], len(v)), min(2, len(v)))
    a = (c["at"] >> 8) % (len(v) - n + 1)
    h = v[a:a + n]
    if h == "0":
        return ["trivial"]
    d = methods.with_extra(m, ["--hex-check=" + (h.upper() if c["at"] & 1 else h)])
    r = cli.run(d["args"], stdin=d["stdin"], seed=d["seed"], files=d["files"])
    if r.cpu_hit:
        raise Timeout("cpu")
    where = contained(base, h)
    check(r.rc == 0, lambda: "a curve containing %r in %s was refused: %s" % (h, where, r.brief()))
    got = cli.curves(r.out, d["bits"], 1)[0]
    check(got.raw == base.raw, lambda: "the curve containing %r in %s was rejected for another: %s, not %s" % (h, where, got.raw, base.raw))
    l = ["nontrivial", "%d subgroups" % len(base.subs)]
    own = [k for k in ("p", "a", "b", "order", "seed") if k in ps and h in ps[k][2:]]
    if not own:
        l.append("only in coordinates")
        if all(k.startswith("p") for k in where):
            l.append("only in points")
            if last and all(k.startswith("p1.") for k in where):
                l.append("only in points of the second subgroup")
    return l


PROP = Prop(
    "C07",
    "a curve was printed under --hex-check and the string found in one parameter, or a given curve was refused and its prime, coefficients and order did not contain the string, or a curve rerun with a string of its own parameters came out again",
    [Facet("random", rnd, run, 500, 12000),
     Facet("given", given, run_given, 900, 20000, slow=0),
     Facet("kept", kept, run_kept, 900, 20000, slow=0),
     combined(("hex",), ("hex",))],
    "property-based testing: random strings on random curves; on given curves, substrings of their parameters (must be printed) and absent or cross-boundary strings (must not); curves of a run rerun with the same random state and a string of their seed, coefficients, generators or points (must come out again)",
    "Random exploration; one to three digits on random curves. The single digit 0 is not judged (it also matches the 0x prefix).",
    builds=[build.cli])
