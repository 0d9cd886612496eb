"""Input is a stream of tokens; a reference reader says which curves it asks for, or that it ends too early."""
from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, Inconclusive, check, Timeout

GARBAGE = ["", "x", "abc", "0x", "-", "--5", "12z", "0xfg", "1 2", "3.5", "+", "p=7"]


class End(Exception):
    pass


class Reader:
    def __init__(self, text, delim):
        self.toks = text.split(delim)
        if self.toks[-1] == "":
            self.toks.pop()
        self.i = 0
        self.rejected = 0

    def next(self):
        if self.i == len(self.toks):
            raise End
        self.i += 1
        return self.toks[self.i - 1]

    def integer(self, bits):
        """The next number of at most this many bits, None for an unacceptable token."""
        t = self.next()
        s = t[1:] if t.startswith("-") else t
        try:
            v = int(s, 16) if s[:2] in ("0x", "0X") and "_" not in s else int(s, 10)
            if not s.isalnum() or not s.isascii():
                raise ValueError
        except ValueError:
            return None
        if v >> bits:
            return None
        return -v if t.startswith("-") else v


def coefficient(rd, bits):
    while True:
        v = rd.integer(bits)
        if v is not None:
            return v
        rd.rejected += 1


def prime(rd, bits):
    while True:
        p = rd.integer(bits)
        if p is not None and p > 1 and nt.is_prime(p):
            return p
        rd.rejected += 1


def binary(rd, bits):
    """The exponents of the next acceptable polynomial."""
    while True:
        m = rd.integer(16)
        if m != bits:
            rd.rejected += 1
            continue
        es = []
        for _ in range(3):
            e = rd.integer(16)
            if e is None or e < 0 or e > m:
                break
            es.append(e)
        if len(es) == 3 and any(es):
            f = (1 << m) | 1
            for e in es:
                f |= 1 << e
            if verify.irreducible(f):
                return f
        rd.rejected += 1


def reference(c, rd):
    """The curves the stream describes: (complete, [(q, a, b)]); None stands for a random value."""
    out = []
    try:
        for _ in range(c["count"]):
            while True:
                fp = c["field"] == "fp"
                q = None if "f" in c["random"] else prime(rd, c["bits"]) if fp else binary(rd, c["bits"])
                a = None if "a" in c["random"] else coefficient(rd, c["bits"])
                b = None if "b" in c["random"] else coefficient(rd, c["bits"])
                if q is None or (fp and (a is None or b is None)):
                    break  # non-singular but for a negligible fraction of the random values
                if b is None:
                    break
                if fp and not ec.Fp(q, a, b).singular() or not fp and b:
                    break
                rd.rejected += 1
            out.append((q, a, b))
        return True, out
    except End:
        return False, out


@st.composite
def number(draw, v):
    k = draw(st.integers(0, 5))
    s = "-" if v < 0 else ""
    v = abs(v)
    if k < 3:
        return s + "%d" % v
    if k == 3:
        return s + "0x%x" % v
    if k == 4:
        return s + "0x%X" % v
    return s + "0x" + "0" * draw(st.integers(1, 4)) + "%x" % v


@st.composite
def bad_number(draw, bits):
    """Not acceptable as any number of at most `bits` bits."""
    k = draw(st.integers(0, 3))
    if k == 0:
        return ""
    if k == 1:
        return draw(st.sampled_from(GARBAGE))
    v = draw(st.one_of(st.just(1 << bits), st.integers(1 << bits, 1 << (bits + 1)), st.integers(1 << bits, 1 << (2 * bits + 70))))
    return draw(number(-v if k == 3 and draw(st.booleans()) else v))


@st.composite
def values_fp(draw, bits, tiny):
    """A good p, a, b, with unacceptable values before them."""
    v = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        k = draw(st.integers(0, 4))
        if k == 0:
            x = draw(st.integers(2, 1 << (bits // 2))) * draw(st.integers(2, 1 << (bits // 2)))
            v.append(draw(number(x)))
        elif k == 1:
            v.append(draw(st.sampled_from(["0", "1", "-1", "-2", "-7", "0x0"])))
        else:
            v.append(draw(bad_number(bits)))
    return v


@st.composite
def given(draw):
    field = draw(st.sampled_from(["fp", "fp", "f2m"]))
    random = draw(st.sampled_from(["", "", "", "", "f", "a", "b", "ab", "fa", "fb"]))
    if field == "f2m" and "f" in random:
        random = random.replace("f", "")
    count = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
    if random:
        bits = draw(st.integers(30, 60)) if field == "fp" else draw(st.integers(16, 24))
    else:
        bits = draw(gens.bits_st(4, 64 if field == "fp" else 24, 14, 40))
    ex = {"con": "none"}
    v = []
    for _ in range(count):
        rounds = draw(st.sampled_from([1, 1, 1, 2]))
        for i in range(rounds):
            q = None
            if "f" not in random:
                if field == "fp":
                    v += draw(values_fp(bits, False))
                    if random or draw(st.integers(0, 3)):
                        q = gens.prime_from(bits, draw(st.integers(0, 1 << bits)))
                    else:
                        q = draw(gens.prime_st(3, bits, 14, 40))
                    v.append(draw(number(q)))
                else:
                    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                        k = draw(st.integers(0, 6))
                        if k == 0:
                            v.append(draw(st.one_of(bad_number(16), st.integers(0, 70).filter(lambda x: x != bits).map(str))))
                            continue
                        v.append(str(bits))
                        if k == 1:
                            v += ["0", "0", "0"]
                        elif k == 2:  # two terms: even, reducible
                            e = draw(st.lists(st.integers(1, bits - 1), min_size=2, max_size=2, unique=True))
                            v += draw(st.permutations(list(map(str, e)) + ["0"]))
                        elif k == 3:
                            e = draw(st.lists(st.integers(1, bits - 1), min_size=3, max_size=3, unique=True))
                            v += list(map(str, e))
                        elif k == 4:
                            v += draw(st.sampled_from([[], ["0"], ["1", "0"]]))
                            v.append(draw(st.one_of(bad_number(16), st.integers(bits + 1, 65535).map(str), st.integers(-bits, -1).map(str))))
                        else:
                            e = draw(st.integers(1, bits - 1))
                            v += [str(e), "0", "0"]
                    poly = gens.pentanomial(bits, draw(st.integers(0, 20))) if bits > 4 and draw(st.booleans()) else None
                    tri = gens.trinomials(bits)
                    e = list(poly) if poly else [draw(st.sampled_from(tri)), 0, 0] if tri else list(gens.pentanomial(bits, 1) or (4, 3, 1))
                    v += [draw(number(x)) for x in [bits] + draw(st.permutations(e))]
                    q = 1 << bits
            for w in "ab":
                if w in random:
                    continue
                for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2]))):
                    v.append(draw(bad_number(bits)))
                if i + 1 < rounds and not random:
                    # a singular curve: the tool asks for another one
                    x = 0
                elif w == "b" and field == "f2m":
                    x = draw(st.integers(1, (1 << bits) - 1))
                else:
                    lo = -(1 << bits) + 1 if field == "fp" else 0
                    x = draw(st.one_of(st.integers(0, (1 << bits) - 1), st.integers(lo, (1 << bits) - 1), st.integers(max(lo, -3), 3)))
                    if random and x == 0:
                        x = 1
                v.append(draw(number(x)))
    cut = draw(st.sampled_from(["full", "full", "full", "full", "extra", "cut", "cut", "cutchar"]))
    if cut == "extra":
        v.append(draw(st.sampled_from(["7", "junk", ""])))
    elif cut == "cut":
        v = v[:draw(st.integers(0, max(0, len(v) - 1)))]
    via = draw(st.sampled_from(["stdin", "file"]))
    d = "," if via == "file" else "\n"
    text = d.join(v) + (d if v and draw(st.booleans()) else "")
    if cut == "cutchar":
        text = text[:draw(st.integers(0, len(text)))]
    return {"field": field, "random": random, "bits": bits, "count": count, "via": via, "text": text,
            "seed": draw(gens.SEEDS), "cut": cut}


def go(args, c):
    files, stdin = {}, c["text"]
    if c["via"] == "file":
        files, stdin = {"in.csv": c["text"]}, ""
        args = args[:-1] + ["-f", "@in.csv", args[-1]]
    # reading never takes long: a loop at the end of the input shows as the CPU limit on a small output
    r = cli.run(args, stdin=stdin, seed=c["seed"], files=files, cpu=20)
    return r


def ended(r):
    if r.cpu_hit:
        check(len(r.err) < 1 << 20, "the tool goes on asking after the input has ended")
        raise Timeout("cpu")


RND = {"f": "field", "a": "a", "b": "b"}


def run_given(c):
    args = ["--" + c["field"]]
    if c["random"]:
        args.append("--random=" + ",".join(RND[x] for x in c["random"]))
    args += ["--points=none"]
    if c["count"] > 1:
        args += ["-c", str(c["count"])]
    args.append(str(c["bits"]))
    rd = Reader(c["text"], "," if c["via"] == "file" else "\n")
    full, want = reference(c, rd)
    r = go(args, c)
    ended(r)
    if r.rc != 0 and full and "f" in c["random"] and "a" not in c["random"] and "b" not in c["random"]:
        if any(p.bit_length() == c["bits"] for _, a, b in want for p in nt.factor(abs(4 * a ** 3 + 27 * b ** 2) or 1)):
            raise Inconclusive("possibly singular over the random field")
    if full:
        check(r.rc == 0, lambda: "acceptable input %r refused: %s" % (c["text"], r.brief()))
    else:
        check(r.rc != 0, lambda: "input %r ends before the curve is complete, but the run succeeded: %s" % (c["text"], r.brief()))
    cs = cli.curves(r.out, c["bits"])
    check(len(cs) == len(want), lambda: "%d curves printed, the input %r describes %d" % (len(cs), c["text"], len(want)))
    for cv, (q, a, b) in zip(cs, want):
        if c["field"] == "fp":
            if q is not None:
                check(cv.p == q, lambda: "p = %d printed, input %r means %d" % (cv.p, c["text"], q))
            red = lambda v: v % cv.p
        else:
            if q is not None:
                check(cv.m is not None and cv.poly() == q, lambda: "field %s printed, input %r" % (cv.raw["field"], c["text"]))
            red = lambda v: v
        if a is not None:
            check(cv.a == red(a), lambda: "a = %#x printed, input %r means %d" % (cv.a, c["text"], a))
        if b is not None:
            check(cv.b == red(b), lambda: "b = %#x printed, input %r means %d" % (cv.b, c["text"], b))
    l = [c["field"], "cut:" + c["cut"], "accepted" if full else "ends early", "rejected:%s" % min(rd.rejected, 3)]
    if c["random"]:
        l.append("partly random")
    if rd.rejected or not full or len(want) > 1 or not c["text"].endswith((",", "\n")):
        l.append("nontrivial")
    return l


# ---- seeds

@st.composite
def seeds(draw):
    algo = draw(st.sampled_from(["ansi", "ansi", "brainpool", "brainpool-rfc"]))
    field = draw(st.sampled_from(["fp", "f2m"])) if algo == "ansi" else "fp"
    bits = draw(st.integers(16, 24)) if field == "f2m" else draw(st.integers(30, 44)) if algo == "ansi" else draw(st.integers(20, 40))
    v = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        k = draw(st.integers(0, 4))
        if k == 0:
            v.append(draw(st.sampled_from(["", "0x", "zz", "seed", "1"])))
        elif k == 1:
            v.append(draw(methods.hexstr(draw(st.integers(1, 39)), False)))
        elif k == 2:
            s = draw(methods.hexstr(40, False))
            i = draw(st.integers(1, 39))
            v.append(s[:i] + draw(st.sampled_from("gxz -.")) + s[i + 1:])
        elif k == 3:
            v.append("0x" + draw(methods.hexstr(39, False)))
        elif algo != "ansi":
            v.append(draw(methods.hexstr(draw(st.integers(41, 60)))))
    v.append(draw(methods.hexstr(draw(st.sampled_from([40, 41, 42, 56])) if algo == "ansi" else 40)))
    own = algo == "ansi" and draw(st.booleans())
    if own:
        if field == "fp":
            v += draw(values_fp(bits, False))
            v.append(str(gens.prime_from(bits, draw(st.integers(0, 1 << bits)))))
        else:
            v += ["x", str(bits)] + list(map(str, gens.pentanomial(bits, 2)))
    cut = draw(st.sampled_from(["full", "full", "full", "cut"]))
    if cut == "cut":
        v = v[:draw(st.integers(0, len(v) - 1))]
    via = draw(st.sampled_from(["stdin", "file"]))
    d = "," if via == "file" else "\n"
    return {"algo": algo, "field": field, "bits": bits, "own": own, "via": via, "cut": cut,
            "text": d.join(v) + (d if v and draw(st.booleans()) else ""), "seed": draw(gens.SEEDS)}


def seed_token(rd, algo):
    while True:
        t = rd.next()
        h = t[2:] if t[:2] in ("0x", "0X") else t
        n = len(h)
        if all(x in "0123456789abcdefABCDEF" for x in h) and (n >= 40 if algo == "ansi" else n == 40):
            return h
        rd.rejected += 1


def run_seeds(c):
    rd = Reader(c["text"], "," if c["via"] == "file" else "\n")
    full, q, s = True, None, None
    try:
        s = seed_token(rd, c["algo"])
        if c["own"]:
            q = prime(rd, c["bits"]) if c["field"] == "fp" else binary(rd, c["bits"])
    except End:
        full = False
    base = ["--" + c["field"]] + (["--random=field"] if c["algo"] == "ansi" and not c["own"] else [])
    r = go(base + ["--points=none", "--" + c["algo"], str(c["bits"])], c)
    ended(r)
    check((r.rc == 0) == full, lambda: "input %r should %s: %s" % (c["text"], "be accepted" if full else "end too early", r.brief()))
    cs = cli.curves(r.out, c["bits"], 1 if full else 0)
    l = [c["algo"], "accepted" if full else "ends early", "rejected:%s" % min(rd.rejected, 3), "nontrivial"]
    if full:
        cv = cs[0]
        if q is not None:
            check((cv.p or cv.poly()) == q, lambda: "field %s printed, input %r" % (cv.raw["field"], c["text"]))
        if c["algo"] == "ansi":
            check(isinstance(cv.seed, str) and int(cv.seed, 16) == int(s, 16), lambda: "seed %s printed, input %r" % (cv.seed, c["text"]))
        else:
            # the same seed as an argument gives the same curve
            r2, v = cli.run_ok(base + ["--points=none", "--%s=%s" % (c["algo"], s), str(c["bits"])], seed=c["seed"])
            for k in ("field", "a", "b", "order", "seed"):
                check(v[0].get(k) == cv.raw.get(k), lambda: "%s differs between the seed as input and as argument: %r %r" % (k, cv.raw.get(k), v[0].get(k)))
    return l


# ---- families

def bn(z):
    return 36 * z ** 4 + 36 * z ** 3 + 24 * z * z + 6 * z + 1, 36 * z ** 4 + 36 * z ** 3 + 18 * z * z + 6 * z + 1


def bls12(z):
    n = (z - 1) ** 2 * (z ** 4 - z * z + 1)
    return (n // 3 + z if n % 3 == 0 else 0), z ** 4 - z * z + 1


FAM = {"BN": bn, "BLS12": bls12}


def defined(f, z):
    p, r = FAM[f](z)
    return p > 3 and r > 1 and nt.is_prime(p) and nt.is_prime(r)


@st.composite
def families(draw):
    f = draw(st.sampled_from(sorted(FAM)))
    v = []
    zs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        # the next z at which the family is defined, and some at which it is not
        z0 = draw(st.integers(-3000, 3000))
        z = z0
        while not defined(f, z):
            z += 1
        zs.append(z)
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            w = draw(st.integers(-3000, 3000))
            if not defined(f, w):
                v.append(draw(number(w)))
        if draw(st.integers(0, 3)) == 0:
            v.append(draw(bad_number(14)))
        v.append(draw(number(z)))
    count = draw(st.integers(1, len(zs)))
    cut = draw(st.sampled_from(["full", "full", "full", "cut"]))
    if cut == "cut":
        v = v[:draw(st.integers(0, len(v) - 1))]
    via = draw(st.sampled_from(["stdin", "file"]))
    d = "," if via == "file" else "\n"
    return {"fam": f, "via": via, "count": count, "cut": cut, "seed": draw(gens.SEEDS), "bits": 14,
            "text": d.join(v) + (d if v and draw(st.booleans()) else "")}


def run_families(c):
    rd = Reader(c["text"], "," if c["via"] == "file" else "\n")
    zs, full = [], True
    try:
        while len(zs) < c["count"]:
            z = rd.integer(c["bits"])
            if z is not None and defined(c["fam"], z):
                zs.append(z)
            else:
                rd.rejected += 1
    except End:
        full = False
    r = go(["--fp", "--family=" + c["fam"], "--points=none", "-c", str(c["count"]), str(c["bits"])], c)
    ended(r)
    check((r.rc == 0) == full, lambda: "input %r should %s: %s" % (c["text"], "be accepted" if full else "end too early", r.brief()))
    cs = cli.parse(r.out)
    check(len(cs) == len(zs), lambda: "%d curves printed, the input %r describes %d" % (len(cs), c["text"], len(zs)))
    for o, z in zip(cs, zs):
        check(int(o["field"]["p"], 16) == FAM[c["fam"]](z)[0], lambda: "p = %s printed for z = %d of %r" % (o["field"]["p"], z, c["text"]))
    l = [c["fam"], "accepted" if full else "ends early", "rejected:%s" % min(rd.rejected, 3)]
    if rd.rejected or not full or len(zs) > 1:
        l.append("nontrivial")
    return l


PROP = Prop(
    "C09",
    "the input contained an unacceptable value, ended early or without a delimiter, or described several curves",
    [Facet("given", given, run_given, 1500, 40000, slow=0),
     Facet("seeds", seeds, run_seeds, 300, 8000),
     Facet("families", families, run_families, 250, 6000)],
    "property-based testing: random streams of acceptable and unacceptable values, truncated anywhere, against a reference reader",
    "Random exploration. Numbers with surrounding whitespace, equal or m-th exponents and negative binary coefficients are not judged.",
    builds=[build.cli])
