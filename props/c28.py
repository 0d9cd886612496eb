import collections, re
from hypothesis import strategies as st
from vf import build, cli, drv, gens, nt
from vf.core import Facet, Prop, check, Timeout

SEED = st.integers(1, 1 << 40)
DRAWS = 40  # draws per reachable value: a value of n is missed with probability n * exp(-40)


def full(got, values, what):
    s = set(got)
    check(s <= set(values), lambda: "%s: %s out of range" % (what, sorted(s - set(values))[:5]))
    check(s == set(values), lambda: "%s: %s never come out in %d draws" % (what, sorted(set(values) - s)[:5], len(got)))


@st.composite
def small(draw):
    k = draw(st.sampled_from(["int", "prime", "range", "fp", "f2m", "bits"]))
    c = {"k": k, "seed": draw(SEED)}
    if k == "int":
        c["bits"] = draw(st.integers(1, 7))
    elif k == "prime":
        c["bits"] = draw(st.integers(2, 9))
    elif k == "range":
        c["lo"] = draw(st.integers(0, 1 << 70))
        c["n"] = draw(st.integers(0, 40))
    elif k == "fp":
        c["p"] = draw(gens.prime_st(2, 6))
    elif k == "f2m":
        c["poly"] = draw(gens.poly_st(3, 6))
    else:
        c["bits"] = draw(st.integers(0, 6))
    return c


def run_small(c):
    d = drv.get("unit")
    d.ask("seed %d" % c["seed"])
    k = c["k"]
    if k == "int":
        b = c["bits"]
        vals = range(1 << (b - 1), 1 << b)
        full([int(x) for x in d.tokens("rint %d %d" % (b, DRAWS * len(vals)))], vals, "%d-bit integers" % b)
    elif k == "prime":
        b = c["bits"]
        vals = [p for p in range(1 << (b - 1), 1 << b) if nt.is_prime(p)]
        n = max(400, 60 * len(vals))
        got = d.tokens("rprime %d %d" % (b, n))
        full([int(x) for x in got], vals, "%d-bit primes" % b)
    elif k == "range":
        lo, n = c["lo"], max(c["n"], 1)
        full([int(x) for x in d.tokens("rrange %d %d %d" % (lo, lo + c["n"], DRAWS * n))], range(lo, lo + n), "range [%d, %d)" % (lo, lo + c["n"]))
    elif k == "fp":
        full([int(x) for x in d.tokens("rfp %d %d" % (c["p"], DRAWS * c["p"]))], range(c["p"]), "elements of F_%d" % c["p"])
    elif k == "f2m":
        m, e = c["poly"]
        full([int(x) for x in d.tokens("rf2m %d %d %d %d %d" % (m, e[0], e[1], e[2], DRAWS << m))], range(1 << m), "elements of GF(2^%d)" % m)
    else:
        b = c["bits"]
        got = [x.split(":")[0] for x in d.tokens("rbits %d %d" % (b, DRAWS << b))] if b else [""]
        full(got, [("{:0%db}" % b).format(i) if b else "" for i in range(1 << b)], "bit strings of %d bits" % b)
    return ["nontrivial", k]


@st.composite
def large(draw):
    k = draw(st.sampled_from(["int", "prime", "range", "bits", "fp", "f2m"]))
    c = {"k": k, "seed": draw(SEED), "bits": draw(st.integers(10, 300))}
    if k == "prime":
        c["bits"] = draw(st.integers(10, 120))
    if k == "range":
        c["lo"] = draw(st.integers(0, 1 << 100))
        c["w"] = draw(st.integers(1, 1 << 100))
    if k == "fp":
        c["p"] = draw(gens.prime_st(20, 120))
    if k == "f2m":
        c["poly"] = draw(gens.poly_st(8, 60))
    return c


def run_large(c):
    """In range, and every bit takes both values over 64 draws."""
    d = drv.get("unit")
    d.ask("seed %d" % c["seed"])
    k, b, n = c["k"], c["bits"], 64
    free = None
    if k == "int":
        got = [int(x) for x in d.tokens("rint %d %d" % (b, n))]
        check(all(x.bit_length() == b for x in got), "random integers of %d bits: %s" % (b, [hex(x) for x in got if x.bit_length() != b][:3]))
        free = range(b - 1)
    elif k == "prime":
        got = [int(x) for x in d.tokens("rprime %d %d" % (b, n))]
        check(all(x.bit_length() == b and nt.is_prime(x) for x in got), "random primes of %d bits: %s" % (b, got[:5]))
        free = range(1, b - 1)
    elif k == "range":
        lo, hi = c["lo"], c["lo"] + c["w"]
        got = [int(x) for x in d.tokens("rrange %d %d %d" % (lo, hi, n))]
        check(all(lo <= x < hi for x in got), "random values of [%d, %d): %s" % (lo, hi, [x for x in got if not lo <= x < hi][:3]))
        got = [x - lo for x in got]
        free = range(max(0, c["w"].bit_length() - 2))
    elif k == "bits":
        out = [x.split(":") for x in d.tokens("rbits %d %d" % (b, n))]
        for s, r in out:
            check(len(s) == b and len(r) == 2 * ((b + 7) // 8), "random bit string of %d bits: %s" % (b, s))
            check(int(r, 16) == int(s, 2) << (-b % 8), "random bit string %s with raw bytes %s" % (s, r))
        got = [int(s, 2) for s, r in out]
        free = range(b)
    elif k == "fp":
        p = c["p"]
        got = [int(x) for x in d.tokens("rfp %d %d" % (p, n))]
        check(all(0 <= x < p for x in got), "random elements of F_%d" % p)
        free = range(p.bit_length() - 1)
    else:
        m, e = c["poly"]
        got = [int(x) for x in d.tokens("rf2m %d %d %d %d %d" % (m, e[0], e[1], e[2], n))]
        check(all(x >> m == 0 for x in got), "random elements of GF(2^%d)" % m)
        free = range(m)
    for i in free:
        z = {x >> i & 1 for x in got}
        check(len(z) == 2, lambda: "%s: bit %d is always %d in %d draws" % (k, i, list(z)[0], n))
    return ["nontrivial", k]


# ---- the state a run starts from

CMDS = [["--fp", "-r", "--points=none", "40"], ["--f2m", "-r", "--points=none", "31"], ["--fp", "-r", "--ansi", "--points=none", "24"],
        ["--fp", "-r", "--anomalous", "64"], ["--fp", "-r", "--supersingular", "64"], ["--f2m", "-r", "--ansi", "--points=none", "24"],
        ["--fp", "-r", "--brainpool", "--points=none", "24"], ["--fp", "-r", "-c3", "--points=none", "40"]]


def run_fresh(c):
    """Real runs, one after the other and at once: all different, every seed used once."""
    args = CMDS[c["cmd"]]
    outs, seeds = [], []
    for i in range(c["n"]):
        r = cli.run(args, seed=None, env={"VF_SEEDLOG": "seeds.log"}, keep=["seeds.log"])
        if r.cpu_hit:
            raise Timeout("cpu")
        check(r.rc == 0, lambda: "ecgen %s failed: %s" % (args, r.brief()))
        outs.append(r.out)
        seeds += (r.files["seeds.log"] or "").split()
    check(len(seeds) >= c["n"], "the random state was not seeded")
    check(len(set(seeds)) == len(seeds), "a random state was used twice in %d runs: %s" % (c["n"], [s for s, k in collections.Counter(seeds).items() if k > 1]))
    check(len(set(outs)) == len(outs), "two of %d runs printed the same" % c["n"])
    check(any(int(s) >> 32 for s in seeds), "none of %d random states has more than 32 bits: %s" % (len(seeds), seeds))
    return ["nontrivial", " ".join(args[:3])]


@st.composite
def threads(draw):
    p = draw(gens.prime_st(9, 11))
    return {"p": p, "a": draw(st.integers(1, p - 1)), "b": draw(st.integers(1, p - 1)), "t": draw(st.integers(2, 8))}


def run_threads(c):
    """Every thread of an invalid-curve run starts from its own state."""
    from vf import ec
    if ec.Fp(c["p"], c["a"], c["b"]).singular():
        return ["singular"]
    r = cli.run(["--fp", "--invalid=2-13", "--threads=%d" % c["t"], "--thread-stack=20m", "%d" % c["p"].bit_length()],
                stdin="%d\n%d\n%d\n" % (c["p"], c["a"], c["b"]), seed=None, env={"VF_SEEDLOG": "seeds.log"}, keep=["seeds.log"])
    if r.cpu_hit:
        raise Timeout("cpu")
    check(r.rc == 0, lambda: "failed: " + r.brief())
    seeds = (r.files["seeds.log"] or "").split()
    check(len(seeds) >= c["t"] + 1, "%d threads and the main one seeded their state %d times only" % (c["t"], len(seeds)))
    check(len(set(seeds)) == len(seeds), "a state was used twice: %s" % seeds)
    return ["nontrivial", "threads:%d" % c["t"]]


# ---- spread of what the command draws at random

@st.composite
def spread(draw):
    f = draw(st.sampled_from(["fp", "f2m"]))
    return {"field": f, "bits": draw(st.integers(24, 40)), "seed": draw(gens.SEEDS), "kind": draw(st.sampled_from(["curve", "ansi", "points"] + (["brainpool", "brainpool-rfc", "supersingular", "family=BN", "family=BLS12"] if f == "fp" else [])))}


def run_spread(c):
    """Each bit of p, a, b (and of the seed of seeded methods) takes both values over 48 curves."""
    vals = collections.defaultdict(list)
    b = c["bits"]
    if c["kind"] == "points":
        cs, _ = cli.ok_curves(["--" + c["field"], "-r", "--points=48random", str(b)], b, 1, seed=c["seed"])
        g = cs[0].subs[0]
        if g.order < 1 << 20:
            return ["small"]
        pts = [P for s in cs[0].subs for P, _ in s.points]
        check(len(set(pts)) > len(pts) // 2, "random points repeat")
        vals["x"] = [P[0] for s in cs[0].subs[:1] for P, _ in s.points]
        if len(vals["x"]) < 40:
            return ["two subgroups"]
        free = {"x": b - 1}
    elif c["kind"] not in ("curve", "ansi"):
        z = c["kind"].startswith("family")
        b = b // 2 if z else b
        cs, _ = cli.ok_curves(["--fp", "-r", "--points=none", "-c", "48", "--" + c["kind"], str(b)], b, 48, seed=c["seed"], cpu=120)
        if z:
            zs = [int(cv.seed, 16) for cv in cs]
            check({v > 0 for v in zs} == {True, False}, lambda: "every z of %d random curves is of one sign: %s (%s)" % (len(zs), zs[:6], c))
            vals["seed"] = [abs(v) for v in zs]
            free = {"seed": b - 1}
        elif c["kind"] == "supersingular":
            vals["p"] = [cv.p for cv in cs]
            free = {"p": b - 1}
        else:
            vals["seed"] = [int(cv.seed, 16) for cv in cs]
            free = {"seed": 160}
    else:
        n = 48
        args = ["--" + c["field"], "-r", "--points=none", "-c", str(n)] + (["--ansi"] if c["kind"] == "ansi" else []) + [str(b)]
        cs, _ = cli.ok_curves(args, b, n, seed=c["seed"], cpu=120)
        for cv in cs:
            if cv.p:
                vals["p"].append(cv.p)
            vals["a"].append(cv.a)
            vals["b"].append(cv.b)
            if cv.seed:
                vals["seed"].append(int(cv.seed, 16))
        free = {"a": b - 1, "b": b - 1}
        if c["kind"] == "ansi":
            free["seed"] = 159  # drawn as an integer of exactly 160 bits
            if c["field"] == "f2m":
                del free["a"]  # 0 or 1 may be drawn, checked by C10
        if c["field"] == "fp":
            free["p"] = b - 1
        else:
            free = {k: (v + 1 if k != "seed" else v) for k, v in free.items()}
    for k, nb in free.items():
        for i in range(1 if k == "p" else 0, nb):
            z = {v >> i & 1 for v in vals[k]}
            check(len(z) == 2, lambda: "bit %d of %s is always %s over %d draws (%s)" % (i, k, z, len(vals[k]), c))
    return ["nontrivial", c["kind"], c["field"]]


PROP = Prop(
    "C28",
    "a batch of draws of one helper (40 per reachable value; a correct generator misses one with probability below 1e-15), a set of real runs, or 48 random curves, seeds, z or points, was decided",
    [Facet("small", small, run_small, 400, 6000, slow=0),
     Facet("large", large, run_large, 800, 20000, slow=0),
     Facet("fresh", lambda: st.builds(lambda c, n: {"cmd": c, "n": n}, st.integers(0, len(CMDS) - 1), st.integers(3, 8)), run_fresh, 24, 300),
     Facet("threads", threads, run_threads, 24, 300),
     Facet("spread", spread, run_spread, 24, 400)],
    "property-based testing: random parameters of the helpers, statistical oracle on coverage of the range with negligible false-alarm probability; recorded seeds of real runs and threads",
    "Random exploration. Reaching every value is decided on ranges up to 64 values (512 for primes) and per bit position on larger ones; the distribution within the range is not judged.",
    builds=[build.cli, lambda: build.driver("unit")])
