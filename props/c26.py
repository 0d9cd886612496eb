import re
from hypothesis import strategies as st
from vf import build, cli, ec, gens, methods, nt, verify
from vf.core import Facet, Prop, Inconclusive, Violation, check, Timeout
from props import c07, c18, c19, c20

PRIME_ONLY = ["brainpool", "brainpool-rfc", "nums", "anomalous", "supersingular", "cm", "family"]
WARN = {"count": "-c/--count", "random": "-r/--random", "prime": "-p/--prime", "cofactor": "-k/--cofactor", "smooth": "-B/--smooth",
        "koblitz": "-K/--koblitz", "unique": "-u/--unique", "hex": "--hex-check", "points": "--points", "metadata": "--metadata"}


@st.composite
def options(draw, meth, field, bits, max_size=4, need=None):
    """A satisfiable subset of the generation options."""
    names = draw(st.lists(st.sampled_from(["count", "order", "order", "koblitz", "unique", "hex", "points", "points", "metadata"]),
                          min_size=0 if need else 1, max_size=max_size, unique=True))
    if need and draw(st.booleans()):  # just the two, of those that decide on the same step
        names = [draw(st.sampled_from(["order", "koblitz", "unique"]))]
    if need and need not in names:
        names.append(need)
    own = meth in ("default", "ansi", "twist")  # methods that search for an order
    o = {}
    for n in names:
        if n == "count":
            o[n] = draw(st.integers(2, 3))
        elif n == "order":
            k = draw(st.sampled_from(["prime", "cofactor", "smooth"]))
            if k == "prime" and field == "f2m" and own:
                k = "smooth"
            if k == "prime":
                o[k] = True
            elif k == "cofactor":
                o[k] = 2 if field == "f2m" and own else draw(st.sampled_from([1, 2, 3, 4, 6]))
                if own and field == "f2m":
                    o[k] = draw(st.sampled_from([2, 4]))
            else:
                o[k] = draw(st.integers(bits * 2 // 3 + 1, bits + 2))
        elif n == "koblitz":
            o[n] = draw(st.sampled_from(["", "0", "1"]))
        elif n == "hex":
            o[n] = draw(st.text("0123456789abcdefABCDEF", min_size=1, max_size=2))
        elif n == "points":
            o[n] = draw(st.sampled_from(["prime", "all", "nonprime", "none", "random", "3random", "7random"]))
        else:
            o[n] = True
    if "koblitz" in o and meth in ("default", "twist", "invalid"):
        o.pop("prime", None)
        o.pop("cofactor", None)
        if field == "f2m":
            o.pop("smooth", None)
            o.pop("unique", None)
            o.pop("hex", None)
    if meth in ("cm",):
        o.pop("hex", None)
    return o


def render(draw, o):
    a = []
    for n, v in o.items():
        if n == "count":
            a.append(["-c", str(v)] if draw(st.booleans()) else ["--count=%d" % v])
        elif n == "prime":
            a.append([draw(st.sampled_from(["-p", "--prime"]))])
        elif n == "cofactor":
            a.append(["-k", str(v)] if draw(st.booleans()) else ["--cofactor=%d" % v])
        elif n == "smooth":
            a.append(["-B%d" % v] if draw(st.booleans()) else ["--smooth=%d" % v])
        elif n == "koblitz":
            a.append([("-K" + v) if draw(st.booleans()) else "--koblitz" + ("=" + v if v else "")])
        elif n == "unique":
            a.append([draw(st.sampled_from(["-u", "--unique"]))])
        elif n == "hex":
            a.append(["--hex-check=" + v])
        elif n == "points":
            a.append(["--points=" + v])
        else:
            a.append(["--metadata"])
    return a


METHODS = ["default", "default", "default", "ansi", "ansi", "brainpool", "brainpool-rfc", "nums", "anomalous", "supersingular", "cm", "twist", "twist", "family", "invalid"]


@st.composite
def runs(draw, need=None):
    meth = draw(st.sampled_from(METHODS))
    if need and draw(st.booleans()):
        meth = draw(st.sampled_from(["default", "ansi", "default", "ansi", "twist", "invalid"]))
    field = "fp" if meth in PRIME_ONLY else draw(st.sampled_from(["fp", "f2m"]))
    bits = draw(st.integers(12, 32)) if field == "fp" else draw(st.integers(12, 26))
    rnd = draw(st.sampled_from(["", "", "", "a", "b", "field", "equation", "a,field", "seed", "seed,field"]))
    c = {"meth": meth, "field": field, "seed": draw(gens.SEEDS), "random": rnd, "files": {}}
    if meth == "brainpool" or meth == "brainpool-rfc":
        bits = max(bits, 24)
    if meth == "anomalous":
        bits = max(bits, 24)
    if meth == "invalid":
        bits = draw(st.integers(12, 16))
    args = {"default": [], "ansi": ["--ansi"], "brainpool": ["--brainpool"], "brainpool-rfc": ["--brainpool-rfc"], "nums": ["--nums"],
            "anomalous": ["--anomalous"], "supersingular": ["--supersingular"], "twist": ["--twist"], "family": ["--family=BN"],
            "invalid": ["--invalid=%d-%d" % draw(st.sampled_from([(2, 7), (3, 5), (5, 13)]))]}.get(meth, [])
    if meth == "cm":
        n = draw(st.sampled_from([1000, 2310, 5005, 10007, 30030, 6469, 72, 1024]))
        c["order"] = n
        args = ["--order=%d" % n]
        bits = n.bit_length() + draw(st.integers(0, 2))
    o = draw(options(meth, field, bits, 4 if not need else 3, need))
    if meth == "nums":
        rnd = c["random"] = None
    # what the random parts leave to be read
    parts = {"": {"seed", "field", "a", "b"}}.get(rnd) if rnd is not None else set()
    if parts is None:
        parts = {y for x in rnd.split(",") for y in (("a", "b") if x == "equation" else (x,))}
    args.append("--" + field)
    if rnd is not None:
        args.append(draw(st.sampled_from(["-r", "--random"])) if rnd == "" else "--random=" + rnd)
    read = []
    n = o.get("count", 1)
    if meth in ("default", "twist", "invalid"):
        if "field" not in parts:
            if field == "fp":
                c["p"] = draw(st.sampled_from([x for x in [nt.next_prime((1 << (bits - 1)) + 64 * i) for i in range(20)] if x < 1 << bits]))
                read.append(c["p"])
            else:
                m, e = draw(gens.poly_st(bits, bits))
                c["poly"] = [m] + e
                read += c["poly"]
        if "koblitz" not in o:
            for x in ("a", "b"):
                if x not in parts:
                    c[x] = draw(st.integers(1, 1 << (bits - 2)))
                    read.append(c[x])
    elif meth == "ansi":
        if "seed" not in parts:
            c["given_seed"] = "0x" + draw(st.text("0123456789abcdef", min_size=40, max_size=40))
            read.append(c["given_seed"])
        if "field" not in parts:
            if field == "fp":
                c["p"] = nt.next_prime((1 << (bits - 1)) + 1000)
                read.append(c["p"])
            else:
                m, e = draw(gens.poly_st(bits, bits))
                c["poly"] = [m] + e
                read += c["poly"]
    elif meth.startswith("brainpool") and "seed" not in parts:
        read.append("0x" + draw(st.text("0123456789abcdef", min_size=40, max_size=40)))
    elif meth == "family" and "seed" not in parts:
        c["z"] = draw(st.sampled_from([1, 5, 7, -1, 20]))
        read.append(c["z"])
    elif meth == "supersingular" and "field" not in parts:
        c["p"] = nt.next_prime((1 << (bits - 1)) + 1000)
        read.append(c["p"])
    c.update(opts=o, bits=bits, parts=sorted(parts))
    groups = [[x] for x in args] + render(draw, o)
    if meth == "invalid" and draw(st.booleans()):
        groups.append(["--threads=%d" % draw(st.integers(2, 4))])
    elif draw(st.integers(0, 3)) == 0:  # of no bearing on what is asked for
        groups.append([draw(st.sampled_from(["--threads=2", "--timeout=100", "--memory=900m", "--thread-stack=64m", "--verbose=@log"]))])
    groups = draw(st.permutations(groups))
    c["args"] = [x for g in groups for x in g] + [str(bits)]
    c["stdin"] = "".join("%s\n" % x for x in read) * n
    return c


def violates(fn):
    try:
        r = fn()
    except Violation as v:
        return v.msg
    return r


def dropped(c, name, v, cs):
    """Why the request was not honoured (None if it was)."""
    own = cs
    if c["meth"] == "invalid":
        # what the search for invalid curves is given; only the invalid curves are generated
        own = cs[1:] if name == "unique" else cs[:1]
    for cv in own:
        n = cv.order
        if name == "count":
            return None if len(cs) == v else "%d curves" % len(cs)
        if name == "prime" and not nt.is_prime(n):
            return "order %d" % n
        if name == "cofactor":
            if n % v or not nt.is_prime(n // v):
                return "order %d" % n
            if "unique" not in c["opts"] and (not cv.subs or cv.subs[0].cofactor != v):
                return "cofactors %s" % [g.cofactor for g in cv.subs]
        if name == "smooth" and max(nt.factor(n), default=1).bit_length() > v:
            return "order %d" % n
        if name == "koblitz":
            K = int(v or 0)
            if c["meth"] == "twist":
                E = ec.Fp(cv.p, K, 1) if cv.p is not None else ec.F2m(cv.poly(), K, 1)
                e = c19.quadratic_twist(E, cv.E())
                if e:
                    return e
            elif (cv.a, cv.b) != (K, 1):
                return "a = %#x, b = %#x" % (cv.a, cv.b)
        if name == "unique" and (len(cv.subs) != 1 or cv.subs[0].order != n):
            return "generators of order %s, curve order %d" % ([g.order for g in cv.subs], n)
        if name == "hex" and not c07.contained(cv, v):
            return "%r is in no parameter" % v
        if name == "points":
            e = violates(lambda: verify.points(cv, v.lstrip("0123456789"), int(v[0]) if v[0].isdigit() else 1))
            if e:
                return e
        if name == "metadata":
            e = violates(lambda: c20.judge(cv) and None)
            if e:
                return e
    return None


def run(c, only=None):
    """Every request (or those named) is honoured, or there is a warning about it."""
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], cpu=4)
    if r.cpu_hit:
        raise Timeout("cpu")
    if any(x in r.err for x in methods.RESOURCE):
        raise Inconclusive("resources")
    warned = [l for l in r.err.splitlines() if "arning" in l]
    if r.rc:
        check(r.rc > 0, lambda: "died: %s" % r.brief())
        return ["refused", c["meth"] + ":refused"]
    cs = cli.curves(r.out, c["bits"])
    check(cs, "no curve printed by a successful run")
    for cv in cs:
        if not verify.usable(cv):
            return []
    l = ["nontrivial", c["meth"], c["field"]]
    for name, v in c["opts"].items():
        if only and name not in only:
            continue
        e = dropped(c, name, v, cs)
        if e is None:
            l.append(name + ":honoured")
            continue
        check(any(WARN[name] in w or re.search(r"\b%s\b" % name, w) for w in warned),
              lambda: "%s (%r) was neither honoured (%s) nor is there a warning about it: ecgen %s, stderr %r" % (name, v, e, " ".join(c["args"]), r.err[-500:]))
        l.append(name + ":warned")
    if only:
        return l
    # the field, and what is not random is what was read
    for cv in cs:
        check((cv.p is not None) == (c["field"] == "fp"), "a curve over the other kind of field")
        if "order" in c:
            check(cv.order == c["order"], lambda: "order %d, %d requested" % (cv.order, c["order"]))
    n = len(cs) if c["meth"] != "invalid" else 1
    for cv in cs[:n]:
        if "p" in c:
            check(cv.p == c["p"], lambda: "p = %#x, %#x was given" % (cv.p, c["p"]))
            l.append("p given")
        if "poly" in c:
            check([cv.m] + cv.e == c["poly"], lambda: "another field than the one given")
        if "given_seed" in c:
            check(int(cv.seed, 16) == int(c["given_seed"], 16), lambda: "seed %s, given was %s" % (cv.seed, c["given_seed"]))
            l.append("seed given")
        if "z" in c:
            check(int(cv.seed.replace("0x", ""), 16) == c["z"], lambda: "z = %s, given was %d" % (cv.seed, c["z"]))
            l.append("z given")
        if c["meth"] in ("default", "invalid"):
            q = cv.p or (1 << 64)
            for x in ("a", "b"):
                if x in c:
                    check(getattr(cv, x) == c[x] % q, lambda: "%s = %#x, %#x was given" % (x, getattr(cv, x), c[x]))
                    l.append(x + " given")
    return l


def table(tier):
    """The requests that decide on the same steps, in all combinations that can be met."""
    out = []
    for rep in range(3 if tier == "quick" else 40):
        for meth in ("default", "ansi", "twist", "invalid"):
            for field in ("fp", "f2m"):
                for con in ("", "p", "k", "B"):
                    for K in (None, "0", "1"):
                        for u in (False, True):
                            bits = 14 + rep % 3
                            if field == "f2m" and (con == "p" or K is not None and (con or u)) or K == "0" and con in ("p", "k"):
                                continue  # orders which no curve, or only one of very few has
                            o, a = {}, ["-r", "--" + field]
                            if meth == "invalid":
                                a.append("--invalid=3-7")
                                if rep % 2:
                                    a.append("--threads=2")
                            elif meth != "default":
                                a.append("--" + meth)
                            if con == "p":
                                o["prime"] = True
                                a.append("-p")
                            elif con == "k":
                                o["cofactor"] = 2 if field == "f2m" else 1 + rep % 3
                                a.append("-k%d" % o["cofactor"])
                            elif con == "B":
                                o["smooth"] = bits * 2 // 3
                                a.append("-B%d" % o["smooth"])
                            if K is not None:
                                o["koblitz"] = K
                                a.append("-K" + K)
                            if u:
                                o["unique"] = True
                                a.append("-u")
                            if o:
                                out.append({"meth": meth, "field": field, "seed": 1 + len(out), "random": "", "files": {}, "opts": o, "bits": bits,
                                            "parts": ["a", "b", "field", "seed"], "stdin": "", "args": a[rep % 2:] + a[:rep % 2] + [str(bits)]})
    return out


# contradictory or meaningless command lines
SEED40 = "5ca1ab1e" * 5


@st.composite
def wrong(draw):
    """A list of arguments, a part of which makes the whole a contradiction."""
    M = {"order": ["--order=1000"], "order2": ["-n", "30,7"], "supersingular": ["--supersingular"], "anomalous": ["--anomalous"], "ansi": ["--ansi"],
         "brainpool": ["--brainpool"], "brainpool-rfc": ["--brainpool-rfc=" + SEED40], "nums": ["--nums"], "invalid": ["--invalid"], "twist": ["--twist"], "family": ["--family=BLS12"]}
    kind = draw(st.sampled_from(["nofield", "twofields", "methods", "methods", "methods", "orders", "orders", "primeonly", "primeonly", "family", "points", "random", "seed", "seed", "nums", "anomalous", "nobits", "twobits", "unknown"]))
    bits = draw(st.integers(10, 40))
    base = ["--" + draw(st.sampled_from(["fp", "f2m"]))]
    if draw(st.booleans()):
        base.append("-r")
    extra = draw(st.lists(st.sampled_from(["-u", "--metadata", "-v", "--points=none", "-c2", "--timeout=100"]), max_size=2, unique=True))
    tail = [[str(bits)]]
    if kind == "nofield":
        g = [[draw(st.sampled_from(["-r", "-u", "--metadata"]))]] + draw(st.sampled_from([[], [["--ansi"]], [["--order=1000"]], [["--invalid"]]]))
    elif kind == "twofields":
        g = [["--fp"], ["--f2m"], ["-r"]] + draw(st.sampled_from([[], [["--ansi"]], [["--twist"]], [["--fp"]]]))
    elif kind == "methods":
        two = draw(st.lists(st.sampled_from(sorted(M)), min_size=2, max_size=3, unique_by=lambda x: x.rstrip("2")))
        g = [["--fp"], ["-r"]] if draw(st.integers(0, 3)) else [base]
        g = g + [M[x] for x in two]
    elif kind == "orders":
        two = draw(st.lists(st.sampled_from(["-p", "-k4", "-B%d" % bits]), min_size=2, max_size=3, unique=True))
        g = [["--fp"], ["-r"]] + [[x] for x in two] + draw(st.sampled_from([[], [["--ansi"]], [["--supersingular"]], [["--twist"]]]))
    elif kind == "primeonly":
        g = [["--f2m"]] + [M[draw(st.sampled_from(["order", "order2", "supersingular", "anomalous", "brainpool", "brainpool-rfc", "nums", "family"]))]]
        if draw(st.booleans()):
            g.append(["-r"])
    elif kind == "family":
        g = [["--fp"], ["-r"], ["--family=" + draw(st.sampled_from(["", "BLS", "BN254", "KSS", "KSS17", "B", "BNN", "BLS48", "KSS8", " BN", "MNT"]))]]
    elif kind == "points":
        g = [["--fp"], ["-r"], ["--points=" + draw(st.sampled_from(["", "some", "rand", "prim", "Prime", "5", "nothing", "al", "primeall", "randoms", "non", "5all", "-1random", "1 random"]))]]
    elif kind == "random":
        g = [["--fp"], ["--random=" + draw(st.sampled_from(["p", "c", "field,p", "A", "all", "order", "seed,fields", "a b", "a;b", "equation,generator", "ab"]))]]
    elif kind == "seed":
        m = draw(st.sampled_from(["ansi", "brainpool", "brainpool-rfc"]))
        n = draw(st.sampled_from([0, 1, 8, 20, 38, 39] + ([41, 42, 64] if m != "ansi" else [])))
        s = draw(st.text("0123456789abcdef", min_size=n, max_size=n))
        if draw(st.integers(0, 2)) == 0:
            s = draw(st.text("0123456789abcdef", min_size=40, max_size=40))
            i = draw(st.integers(1, 39))
            s = s[:i] + draw(st.sampled_from("gzx -.,G/:@`")) + s[i + 1:]
        if draw(st.booleans()):
            s = "0x" + s
        g = [["--fp"], ["-r"], ["--%s=%s" % (m, s)]]
    elif kind == "nums":
        g = [["--fp"], ["--nums"], [draw(st.sampled_from(["-r", "--random=a", "--random=field", "--random=seed"]))]]
    elif kind == "anomalous":
        g = [["--fp"], ["--anomalous"]]
    elif kind == "nobits":
        g, tail = [["--fp"], ["-r"]], []
    elif kind == "twobits":
        g, tail = [["--fp"], ["-r"]], [[str(bits)], [draw(st.sampled_from(["12", "x", str(bits)]))]]
    else:
        g = [["--fp"], ["-r"], [draw(st.sampled_from(["--fq", "-x", "--prim-order", "--f3m", "-Z", "--seed=1", "--points", "--count", "-k", "--", "--cofactors=2"]))]]
        if g[-1] == ["--"]:
            g[-1] = ["--wrong"]
    g = list(draw(st.permutations([x for x in g] + [[x] for x in extra])))
    if kind != "twobits" and draw(st.booleans()) and kind != "unknown":
        g = tail + g
    else:
        g = g + tail
    stdin = "".join("%d\n" % x for x in draw(st.sampled_from([[], [1009, 3, 5], [10, 3, 0, 0, 5, 7]])))
    return {"kind": kind, "args": [x for y in g for x in y], "stdin": stdin, "seed": draw(gens.SEEDS), "bits": bits}


def run_wrong(c):
    if c["kind"] == "unknown" and c["args"][-2:-1] in (["--points"], ["--count"], ["-k"]):
        c = dict(c, args=c["args"][:-1])  # the value is what is missing
    r = cli.run(c["args"], stdin=c["stdin"], seed=c["seed"], cpu=10)
    check(not r.cpu_hit, lambda: "a contradictory command line (%s) ran: ecgen %s" % (c["kind"], " ".join(c["args"])))
    check(r.rc > 0, lambda: "a contradictory command line (%s) was accepted: ecgen %s: %s" % (c["kind"], " ".join(c["args"]), r.brief()))
    check("{" not in r.out, lambda: "refused, but printed %r" % r.out[:300])
    check(r.err.strip(), "refused without a word")
    return ["nontrivial", c["kind"]]


PROP = Prop(
    "C26",
    "a request ran and each of its options was found honoured by the curve or named in a warning; or a contradictory command line was refused without a curve",
    [Facet("table", None, run, 0, enum=table),
     Facet("options", runs, run, 1500, 30000),
     Facet("contradictions", wrong, run_wrong, 1500, 20000)],
    "property-based testing over the option matrix: each request judged on the printed curve or matched with a warning; mutated contradictory command lines have to be refused",
    "Random exploration over all methods x subsets of the options (orders of options included). Unsatisfiable requests run into the CPU limit and are not judged.",
    builds=[build.cli])
