from hypothesis import strategies as st
from vf import build, cli, drv, gens, methods, nt, std
from vf.core import Facet, Prop, Inconclusive, check

M = 1 << 160


def seeds():
    """160-bit seeds, also such that the chain carries or wraps around."""
    return st.one_of(
        st.integers(0, M - 1), st.integers(0, M - 1),
        st.tuples(st.integers(0, M - 1), st.integers(8, 159), st.integers(0, 40)).map(lambda x: (((x[0] >> x[1]) + 1 << x[1]) - x[2]) % M),
        st.integers(0, 60).map(lambda x: M - 1 - x),
        st.integers(0, 300))


SIZES = st.one_of(st.integers(10, 60), st.sampled_from([159, 160, 161, 162, 168, 176, 192, 224, 256, 319, 320, 321, 322, 384, 480, 481, 512]), st.integers(61, 340))


def hash_step(rfc):
    @st.composite
    def s(draw):
        return {"seed": draw(seeds()), "v": draw(st.integers(0, 5)), "w": draw(st.integers(0, 160)), "rfc": rfc}
    return s


def run_hash(c):
    if c["w"] == 0 and c["v"] == 0:
        return []
    r = drv.get("std").tokens("hash %040x %d %d" % (c["seed"], c["w"], c["v"]))
    want = std.bp_hash(c["seed"], c["w"], c["v"])
    check(len(r[0]) == c["w"] + 160 * c["v"] and int(r[0], 2) == want, lambda: "hash %s, expected %#x of %d bits" % (r[0], want, c["w"] + 160 * c["v"]))
    check(r[1] == "%040x" % std.inc(c["seed"]), lambda: "the seed after %040x is %s" % (c["seed"], r[1]))
    return ["nontrivial", "v:%d" % c["v"]]


def history(rfc):
    @st.composite
    def s(draw):
        # the engine goes back to the field whenever a curve is rejected
        ops = draw(st.lists(st.sampled_from(["FE", "FE", "FEE", "FEFE"]), min_size=1, max_size=4))
        return {"rfc": rfc, "bits": draw(SIZES), "seed": draw(seeds()), "ops": "".join(ops)}
    return s


def run_history(c):
    """Prime and coefficients along the seed chain, over several rejections."""
    r = drv.get("std").tokens("bp %d %d %040x %s" % (c["rfc"], c["bits"], c["seed"], c["ops"]))
    check(r.pop(0) == "1", "seed refused")
    ch = std.Chain(c["seed"], c["bits"], c["rfc"])
    p = None
    for i, o in enumerate(c["ops"]):
        check(r.pop(0) == "1", "step refused")
        if o == "F":
            p = ch.field()
            got = int(r.pop(0))
            check(got == p, lambda: "step %d of %s: p = %d, expected %d" % (i, c["ops"], got, p))
        else:
            ab = ch.equation(p)
            got = int(r.pop(0)), int(r.pop(0))
            check(got == ab, lambda: "step %d of %s: a, b = %#x, %#x, expected %#x, %#x" % (i, c["ops"], *got, *ab))
        s = r.pop(0)
        check(s == "%040x" % ch.s, lambda: "step %d of %s: seed %s, expected %040x" % (i, c["ops"], s, ch.s))
    return ["nontrivial", "blocks:%d" % ch.v, "steps:%d" % len(c["ops"])]


def whole(rfc):
    @st.composite
    def s(draw):
        k = draw(st.integers(0, 9))
        bits = draw(st.integers(14, 30)) if k < 6 else draw(st.integers(6, 13)) if k < 8 else draw(st.integers(31, 40))
        name = "brainpool-rfc" if rfc else "brainpool"
        how = draw(st.sampled_from(["arg", "arg", "arg", "stdin", "random"]))
        n = draw(st.sampled_from([1, 1, 2]))
        if how == "random":
            c = methods.cmd(name, ["--fp", "-r", "--" + name, "--points=none", "-c", str(n)], draw(st.integers(16, 60)), draw(gens.SEEDS), count=n)
        else:
            x = draw(seeds())
            h = draw(st.sampled_from(["%040x", "%040X", "0x%040x"])) % x
            opt = "--%s=" % name if rfc else draw(st.sampled_from(["--brainpool=", "-b"]))
            if how == "arg":
                c = methods.cmd(name, ["--fp", draw(st.sampled_from(["-r", "--points=none"])), opt + h, "-c", str(n)], bits, draw(gens.SEEDS), x=x, count=n)
            else:
                c = methods.cmd(name, ["--fp", "--" + name, "--points=none"], bits, draw(gens.SEEDS), stdin=h + "\n", x=x)
        c["rfc"], c["how"] = rfc, how
        return c
    return s


def run_whole(c):
    cs, _ = methods.execute(c)
    l = ["nontrivial", "how:" + c["how"]]
    if "x" in c:
        p, a, b, n, G, s, rej = std.brainpool(c["x"], c["bits"], c["rfc"])
        l.append("rejected:%s" % ("0" if not sum(rej.values()) else "1-20" if sum(rej.values()) <= 20 else ">20"))
        l += ["rejected for " + k for k, v in rej.items() if v]
    for cv in cs:
        check(isinstance(cv.seed, str) and len(cv.seed) == 42, lambda: "seed %r printed" % (cv.seed,))
        fs = int(cv.seed, 16)
        if "x" in c:
            for what, got, want in (("p", cv.p, p), ("a", cv.a, a), ("b", cv.b, b), ("order", cv.order, n), ("final seed", fs, s)):
                check(got == want, lambda: "%s = %#x, seed %040x gives %#x" % (what, got, c["x"], want))
        else:
            G = std.brainpool_back(fs, c["bits"], c["rfc"], cv, 400)
            check(G is not None, lambda: "no seed before the final one, %s, gives the curve %s" % (cv.seed, cv.raw))
            check(nt.is_prime(cv.order) and cv.order < cv.p, lambda: "order %d is not a prime below p" % cv.order)
            check(not std.embedding_bad(cv.order, cv.p), "embedding degree too small")
        check(len(cv.subs) == 1 and cv.subs[0].P in (G, cv.E().neg(G)), lambda: "generator %s, expected +-%s" % (cv.subs[0].P, G))
    return l


def facets(rfc):
    return [Facet("history", history(rfc), run_history, 400, 10000),
            Facet("whole", whole(rfc), run_whole, 480, 10000)]


PROP = Prop(
    "C11",
    "prime, coefficients, generator and seed chain were recomputed from a seed by the reference procedure",
    [Facet("hash", hash_step(False), run_hash, 1500, 30000)] + facets(False),
    "property-based testing: a reference implementation of the procedure, on whole runs and on histories of steps",
    "Random exploration; whole runs from 6 to 40 bits (60 for random seeds, verified backwards from the printed seed), single steps to 512. A rejected curve restarts the search with the prime, which is how the tool reads the procedure.",
    builds=[build.cli, lambda: build.driver("std")])
