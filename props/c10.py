from hypothesis import strategies as st
from vf import build, cli, drv, ec, gens, methods, nt, std, verify
from vf.core import Facet, Prop, Inconclusive, check


@st.composite
def seedhex(draw):
    """Hex digits of a seed of at least 160 bits: also with carries in seed + i, wrap-around and leading zeros."""
    n = draw(st.sampled_from([40, 40, 40, 40, 41, 42, 43, 48, 56, 64, 80]))
    k = draw(st.integers(0, 6))
    if k == 0:
        z = draw(st.integers(0, 8))
        s = "f" * (n - 2) + "%02x" % (255 - z)
    elif k == 1:
        s = "0" * (n - draw(st.integers(0, 4)))
        s = s + "".join(draw(st.sampled_from("0123456789abcdef")) for _ in range(n - len(s)))
    elif k == 2:
        j = draw(st.integers(1, n - 1))
        s = draw(methods.hexstr(n, False))[:j] + "f" * (n - j)
    else:
        s = "%0*x" % (n, draw(st.integers(0, 16 ** n - 1)))
    return s.upper() if draw(st.integers(0, 5)) == 0 else s


def seed_bytes(s):
    s = s[2:] if s[:2] in ("0x", "0X") else s
    return bytes.fromhex("0" * (len(s) % 2) + s)


def accept(fp, q, t, a, b, seed):
    """The X9.62 verifier; q is p or the degree."""
    if fp:
        r = std.ansi_w(seed, t, False)
        check((r * b * b - a ** 3) % q == 0, lambda: "r = %#x from seed %s: r b^2 != a^3 (a = %#x, b = %#x, p = %d)" % (r, seed.hex(), a, b, q))
    else:
        w = std.ansi_w(seed, t, True)
        check(b == w, lambda: "b = %#x, seed %s gives %#x" % (b, seed.hex(), w))


# sizes around the multiples of 160, and elsewhere
SIZES = st.one_of(st.sampled_from([159, 160, 161, 162, 168, 176, 319, 320, 321, 322, 328, 336, 480, 481, 512, 521, 640, 641]), st.integers(12, 700))


@st.composite
def step(draw):
    fp = draw(st.booleans())
    t = draw(SIZES)
    return {"fp": fp, "t": t, "seed": draw(seedhex()), "p": gens.prime_from(t, draw(st.integers(0, 1 << t))) if fp else 0}


def run_step(c):
    """The equation generators alone, at sizes whose points nobody counts."""
    d = drv.get("std")
    r = d.tokens("ansi %s %d %s %d" % ("fp" if c["fp"] else "f2m", c["t"], c["seed"], c["p"]))
    sb = seed_bytes(c["seed"])
    check(r[0] == "1", "seed %s refused" % c["seed"])
    w = std.ansi_w(sb, c["t"], not c["fp"])
    if r[1] != "1":
        check(r[1] == "-3" and (w % c["p"] == 0 if c["fp"] else w == 0), "seed %s refused at %d bits" % (c["seed"], c["t"]))
        return ["refused"]
    a, b = int(r[2]), int(r[3])
    check(0 <= a < (c["p"] or 1 << c["t"]), "a out of range")
    accept(c["fp"], c["p"], c["t"], a, b, sb)
    check(int(r[4], 16) == int(c["seed"], 16) and len(r[4]) == 2 * len(sb), "seed %s became %s" % (c["seed"], r[4]))
    return ["nontrivial", "fp" if c["fp"] else "f2m", "blocks:%d" % ((c["t"] - 1) // 160), "top:%s" % ("whole" if c["t"] % 160 == 0 else "part"),
            "digits:%s" % ("odd" if len(c["seed"]) % 2 else "even")]


@st.composite
def command(draw):
    field = draw(st.sampled_from(["fp", "f2m"]))
    k = draw(st.integers(0, 19))
    bits = draw(st.integers(12, 60)) if k < 15 else draw(st.integers(61, 110)) if k < 19 or field == "fp" else draw(st.integers(150, 240))
    how = draw(st.sampled_from(["arg", "arg", "random", "stdin", "own"]))
    con = draw(st.sampled_from([[], [], [], ["-u"], ["-p"], ["--points=none"]]))
    if bits > 60:
        con = ["--points=none"]
    if con == ["-p"] and (field == "f2m" or how not in ("random",)):
        con = []  # a given seed cannot change, but a is random: fine, just slow
    s = draw(seedhex())
    pre = draw(st.sampled_from(["", "", "0x", "0X"]))
    n = 1
    base = ["--" + field] + con
    if how == "arg":
        n = draw(st.sampled_from([1, 1, 2]))
        c = methods.cmd("ansi", base + ["-r", draw(st.sampled_from(["--ansi=", "-s"])) + pre + s, "-c", str(n)], bits, draw(gens.SEEDS), given=s, count=n)
    elif how == "random":
        n = draw(st.integers(1, 3))
        c = methods.cmd("ansi", base + ["-r", "--ansi", "-c", str(n)], bits, draw(gens.SEEDS), count=n)
    elif how == "stdin":
        c = methods.cmd("ansi", base + ["--random=field", "--ansi"], bits, draw(gens.SEEDS), stdin=pre + s + "\n", given=s)
    else:
        if field == "fp":
            own = str(gens.prime_from(bits, draw(st.integers(0, 1 << bits))))
        else:
            bits = min(bits, 40)
            own = "\n".join(map(str, [bits] + list(gens.pentanomial(bits, draw(st.integers(0, 5))))))
        c = methods.cmd("ansi", base + ["--ansi=" + pre + s], bits, draw(gens.SEEDS), stdin=own + "\n", given=s, own=own.split()[0])
    c["how"] = how
    return c


def run_command(c):
    cs, _ = methods.execute(c)
    l = ["how:" + c["how"]]
    for cv in cs:
        check(isinstance(cv.seed, str) and cli.HEXP.match(cv.seed) and len(cv.seed) % 2 == 0, lambda: "seed %r printed" % (cv.seed,))
        sb = seed_bytes(cv.seed)
        if "given" in c:
            check(sb == seed_bytes(c["given"]), lambda: "seed %s printed, %s given" % (cv.seed, c["given"]))
        else:
            check(len(sb) == 20, lambda: "random seed %s is not of 160 bits" % cv.seed)
        if c.get("own") and cv.p:
            check(cv.p == int(c["own"]), "other prime")
        accept(cv.p is not None, cv.p, c["bits"], cv.a, cv.b, sb)
        l.append("fp" if cv.p else "f2m")
    if "given" not in c:
        check(len(set(cv.seed for cv in cs)) == len(cs), "two curves with the same random seed")
    return l + ["nontrivial", "bits:%s" % ("<=60" if c["bits"] <= 60 else "61-150" if c["bits"] <= 150 else ">150")]


PROP = Prop(
    "C10",
    "an equation was derived from a seed and judged by the independent X9.62 verifier",
    [Facet("step", step, run_step, 2400, 60000, slow=0),
     Facet("command", command, run_command, 320, 8000)],
    "property-based testing: an independent X9.62 verifier judges printed curves, and the equation step at sizes up to 700 bits",
    "Random exploration. Prime fields have exactly the requested size; seeds of an odd number of digits stand for the bytes printed.",
    builds=[build.cli, lambda: build.driver("std")])
