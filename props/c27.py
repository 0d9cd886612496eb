import os, re, subprocess
from hypothesis import strategies as st
from vf import build, cli, gens, nt
from vf.core import Facet, Prop, Inconclusive, check

# the values of misc/config.h
METHOD = {None: 0, "order": 1, "anomalous": 2, "ansi": 4, "brainpool": 4, "brainpool-rfc": 4, "nums": 4, "invalid": 8, "twist": 16, "supersingular": 32, "family": 64}
SEEDALG = {"ansi": 1, "brainpool": 2, "brainpool-rfc": 3, "nums": 5}
FAMILY = ["BN", "BLS12", "BLS24", "KSS16", "KSS18", "KSS36", "KSS40"]
POINTS = {"prime": 0, "nonprime": 1, "random": 2, "all": 3, "none": 4}
PART = {"seed": 1, "field": 2, "a": 4, "b": 8, "equation": 12}
UNIT = {"": 1, "k": 10**3, "K": 10**3, "m": 10**6, "M": 10**6, "g": 10**9, "G": 10**9}
TIME = {"": 1, "s": 1, "S": 1, "m": 60, "M": 60, "h": 3600, "H": 3600, "d": 86400, "D": 86400}


def parse(args):
    p = subprocess.run([build.driver("args", "O")] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={"PATH": os.environ["PATH"], "LC_ALL": "C"}, timeout=60)
    d = {}
    if p.returncode == 0:
        for l in p.stdout.decode("latin-1").splitlines():
            k, _, v = l.partition("=")
            d[k] = v
    return p.returncode, d, p.stderr.decode("latin-1")


def text(d, k):
    v = d[k]
    return None if v == "none" else bytes.fromhex(v).decode("latin-1")


NUM = st.one_of(st.integers(1, 20), st.integers(1, 10**6), st.integers(1, 2**62))


@st.composite
def number(draw, hi=2**62):
    n = draw(st.one_of(st.integers(1, min(hi, 20)), st.integers(1, min(hi, 10**6)), st.integers(1, hi)))
    return n, ("0" * draw(st.sampled_from([0, 0, 0, 1, 3]))) + str(n)


def opt(draw, short, long, val=None, optional=False):
    """One of the ways to write an option."""
    k = draw(st.integers(0, 3))
    if val is None:
        return ["-" + short] if short and k < 2 else ["--" + long]
    if optional:
        return ["-" + short + val] if short and k < 2 and val else ["--%s=%s" % (long, val)]
    if short and k == 0:
        return ["-" + short, val]
    if short and k == 1 and val:
        return ["-" + short + val]
    return ["--" + long, val] if k == 2 else ["--%s=%s" % (long, val)]


def hexs(draw, n):
    return draw(st.text("0123456789abcdefABCDEF", min_size=n, max_size=n))


@st.composite
def good(draw):
    w = {}  # what the configuration has to say
    g = []
    field = draw(st.sampled_from(["fp", "fp", "f2m"]))
    g.append(["--" + field])
    w["field"] = 1 if field == "fp" else 2
    bits, s = draw(number(draw(st.sampled_from([64, 600, 10000]))))
    w["bits"], w["hex_digits"] = bits, 2 * -(-bits // 8)
    g.append([s])
    m = draw(st.sampled_from([None, None, None] + [x for x in METHOD if x] + ["ansi", "brainpool", "family", "order", "invalid"]))
    if field == "f2m" and m not in (None, "ansi", "invalid", "twist"):
        m = None
    w["method"] = METHOD[m]
    w["seed_algo"] = SEEDALG.get(m, 0)
    if m == "order":
        l = [draw(NUM) for _ in range(draw(st.integers(1, 4)))]
        v = ",".join(draw(st.sampled_from(["%d", "%d", "0x%x", "0X%X"])) % x for x in l)
        g.append(opt(draw, "n", "order", v))
        w["cm_order"] = v
    elif m in ("ansi", "brainpool", "brainpool-rfc"):
        short = {"ansi": "s", "brainpool": "b", "brainpool-rfc": None}[m]
        if draw(st.booleans()):
            n = 40 if m != "ansi" else draw(st.sampled_from([40, 40, 41, 42, 50, 64, 100]))
            v = draw(st.sampled_from(["", "0x"])) + hexs(draw, n)
            g.append(opt(draw, short, m, v, optional=True))
            w["seed"] = v
        else:
            g.append(opt(draw, short, m))
    elif m == "family":
        i = draw(st.integers(0, 6))
        v = "".join(c.lower() if draw(st.booleans()) else c for c in FAMILY[i])
        g.append(opt(draw, "F", "family", v))
        w["family"] = i
    elif m == "invalid":
        k = draw(st.integers(0, 3))
        if k:
            a, b = draw(st.integers(0, 100)), draw(st.integers(100, 1000))
            v = ["%d-%d" % (a, b), "%d" % b, "%d-" % a][k - 1]
            g.append(opt(draw, "i", "invalid", v, optional=True))
            w["invalid_primes"] = v
        else:
            g.append(opt(draw, "i", "invalid"))
    elif m:
        g.append(["--" + m])
    # random
    w["random"] = 0
    k = draw(st.integers(0, 3)) if m != "nums" else 0
    if m == "anomalous":
        k = 1
    if k in (1, 3):
        g.append(opt(draw, "r", "random"))
        w["random"] = 15
    if k in (2, 3):
        for _ in range(draw(st.integers(1, 2))):
            l = draw(st.lists(st.sampled_from(sorted(PART)), min_size=1, max_size=4))
            g.append(opt(draw, "r", "random", ",".join(l), optional=True))
            for x in l:
                w["random"] |= PART[x]
    if draw(st.booleans()):
        n, s = draw(number())
        g.append(opt(draw, "c", "count", s))
        w["count"] = n
    con = draw(st.sampled_from(["", "", "prime", "cofactor", "smooth"]))
    w["prime"] = w["cofactor"] = w["smooth"] = 0
    if con == "prime":
        g.append(opt(draw, "p", "prime"))
        w["prime"] = 1
    elif con:
        n, s = draw(number())
        g.append(opt(draw, {"cofactor": "k", "smooth": "B"}[con], con, s))
        w[con], w[con + "_value"] = 1, n
    w["koblitz"] = w["koblitz_value"] = 0
    if draw(st.integers(0, 3)) == 0:
        v = draw(st.sampled_from(["", "0", "1", "1"]))
        g.append(opt(draw, "K", "koblitz", v or None, optional=True))
        w["koblitz"], w["koblitz_value"] = 1, int(v or 0)
    w["unique"] = w["metadata"] = w["append"] = 0
    if draw(st.integers(0, 2)) == 0:
        g.append(opt(draw, "u", "unique"))
        w["unique"] = 1
    if draw(st.integers(0, 2)) == 0:
        g.append(["--metadata"])
        w["metadata"] = 1
    if draw(st.integers(0, 2)) == 0:
        h = hexs(draw, draw(st.integers(1, 10)))
        g.append(opt(draw, None, "hex-check", draw(st.sampled_from(["", "0x", "0X"])) + h))
        w["hex_check"] = h
    w["points"], w["amount"] = 0, None
    if draw(st.booleans()):
        t = draw(st.sampled_from(sorted(POINTS) + ["random", "random"]))
        w["points"] = POINTS[t]
        if t == "random":
            n = draw(st.one_of(st.none(), st.integers(1, 9), st.integers(1, 5000)))
            w["amount"] = n or 0
            t = (str(n) if n else "") + t
        g.append(opt(draw, None, "points", t))
    w["memory"], w["thread_memory"] = 10**9, bits * 2000000
    for k, (sh, lo) in (("memory", ("m", "memory")), ("thread_memory", (None, "thread-stack"))):
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            u = draw(st.sampled_from(sorted(UNIT)))
            n, s = draw(number(2**62 // UNIT[u]))
            g.append(("seq", opt(draw, sh, lo, s + u), k, n * UNIT[u]))
    w["timeout"] = 0
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        u = draw(st.sampled_from(sorted(TIME)))
        n, s = draw(number(2**62 // TIME[u]))
        g.append(("seq", opt(draw, None, "timeout", s + u), "timeout", n * TIME[u]))
    w["threads"] = 1
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        n, s = draw(number(10000))
        if draw(st.integers(0, 4)) == 0:
            n, s = -1, draw(st.sampled_from(["auto", "AUTO"]))
        g.append(("seq", opt(draw, None, "threads", s), "threads", n))
    if draw(st.integers(0, 3)) == 0:
        g.append(opt(draw, "a", "append"))
        w["append"] = 1
    for k, sh, lo in (("input", "f", "input"), ("output", "o", "output"), ("datadir", "d", "data-dir")):
        if draw(st.integers(0, 3)) == 0:
            v = draw(st.sampled_from(["x", "dir/file.json", "-", "a b", "=", "0", "r"]))
            if v == "-":
                g.append(["--%s=-" % lo])
            else:
                g.append(opt(draw, sh, lo, v))
            w[k] = v
    w["verbose"] = 0
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        v = draw(st.sampled_from([None, None, "log"]))
        g.append(opt(draw, "v", "verbose", v, optional=True))
        w["verbose"] += 1
        if v:
            w["verbose_log"] = v
    g = draw(st.permutations(g))
    args = []
    for x in g:
        if isinstance(x, tuple):
            args += x[1]
            w[x[2]] = x[3]  # the last one counts
        else:
            args += x
    return {"args": args, "want": w}


def run_good(c):
    w = dict(c["want"])
    rc, d, err = parse(c["args"])
    check(rc == 0 and d.get("end") == "1", lambda: "refused (%d): ecgen %s: %s" % (rc, " ".join(c["args"]), err[-400:]))
    if w["threads"] == -1:
        w["threads"] = os.sysconf("SC_NPROCESSORS_ONLN")
    w.setdefault("count", 1)
    if w["amount"] is None:
        del w["amount"]
    for k in ("hex_check", "seed", "cm_order", "invalid_primes", "input", "output", "datadir", "verbose_log"):
        v = text(d, k)
        x = w.pop(k, None)
        if k in ("seed", "hex_check") and v is not None and x is not None:
            # the same digits; whether a prefix stays is not ours to say
            v, x = (re.sub("^0x", "", y.lower()) for y in (v, x))
        check(v == x, lambda: "%s is %r, not %r: ecgen %s" % (k, v, x, " ".join(c["args"])))
    for k, v in w.items():
        check(d[k] == str(v), lambda: "%s is %s, not %s: ecgen %s" % (k, d[k], v, " ".join(c["args"])))
    return ["nontrivial"] + [k for k in ("count", "prime", "cofactor", "smooth", "koblitz", "unique", "metadata", "timeout", "random", "method") if w.get(k)]


BADNUM = ["", "x", "3x", "x3", "-1", "+3", "3.5", "1e3", "0x3", "3,", "3 4", "--", "99999999999999999999", "18446744073709551616", "3kk", "³"]


@st.composite
def bad(draw):
    kind = draw(st.sampled_from(["bits", "memory", "thread-stack", "timeout", "threads", "cofactor", "smooth", "koblitz", "order", "hex-check", "ansi", "brainpool", "brainpool-rfc", "points", "random", "family", "invalid", "count"]))
    num = draw(st.one_of(st.sampled_from(BADNUM), st.text("0123456789kmgshdx+-. ,", min_size=1, max_size=6)))
    ok = re.compile("[0-9]+$")
    s = None
    if kind in ("bits", "cofactor", "smooth", "threads", "count"):
        s = num if not ok.match(num) or int(num) == 0 or int(num) > 2**63 - 1 else num + "x"
    elif kind in ("memory", "thread-stack"):
        s = num if not re.match("[0-9]+[kKmMgG]?$", num) or len(num) > 19 else num + draw(st.sampled_from(["b", "kb", "x", "B", " ", "-", "s"]))
        s = draw(st.sampled_from([s, s, "99999999999g", "10000000000000000k"]))
        if re.match("[0-9]+[kKmMgG]?$", s) and not s.startswith(("999999", "100000", "184467")):
            s += "!"
    elif kind == "timeout":
        s = num if not re.match("[0-9]+[smhdSMHD]?$", num) or len(num) > 19 else num + draw(st.sampled_from(["x", "ms", "k", "hh", "y", " ", "min"]))
        if re.match("[0-9]+[smhdSMHD]?$", s) and len(s) < 20:
            s += "!"
    elif kind == "koblitz":
        s = draw(st.sampled_from(["2", "-1", "a", "1x", "0x1", "+1", "10", "1.0", "-0", "01x", "9999999999999999999999"]))
    elif kind == "order":
        s = draw(st.sampled_from(["", ",", "1,,2", "100,", ",100", "0x", "1e3", "-5", "abc", "0xg", "12,0x", "12;13", "12 13", "12,-1", "x10", "12,13x", "0x12h", "1.5"]))
    elif kind == "hex-check":
        s = draw(st.sampled_from(["g", "0xg", "12x", " 12", "12 ", "0x0x1", "x1", "-1", "1,2", "h1", "1G", "0x1z"]))
    elif kind in ("ansi", "brainpool", "brainpool-rfc"):
        h = draw(st.text("0123456789abcdefABCDEF", min_size=40, max_size=40))
        how = draw(st.sampled_from(["short", "short", "char", "long", "empty"]))
        if how == "short":
            h = h[:draw(st.integers(0, 39))]
        elif how == "char":
            i = draw(st.integers(2, 39))
            h = h[:i] + draw(st.sampled_from("gGzZ .,-_:/@`x")) + h[i + 1:]
        elif how == "long":
            h = h + (draw(st.sampled_from(["g", "0123z"])) if kind == "ansi" else draw(st.text("0123456789abcdef", min_size=1, max_size=5)))
        else:
            h = ""
        s = draw(st.sampled_from(["", "0x"])) + h
    elif kind == "points":
        s = draw(st.sampled_from(["", "5", "foo", "rand", "Prime", "randomx", "primes", "alll", "nonee", "non", "5prime", "2all", "-3random", "+3random", " random", "random ", "3 random", "3.5random", "0x3random", "random3", "99999999999999999999random", "primeall"]))
    elif kind == "random":
        s = draw(st.sampled_from(["x", "c", "A", "fields", "all", "a b", "seed,x", "a,b,c", "equation,order", "none", "field;a", "a-b", "fielda"]))
    elif kind == "family":
        s = draw(st.sampled_from(["", "B", "BNx", "BLS", "BLS13", "KSS", "KSS17", "KSS8", " BN", "BN ", "MNT", "BLS12,BLS24"]))
    else:
        s = draw(st.sampled_from(["a", "3-7x", "3..7", "3,7", "0x3-0x7", "3 7", "3-a", "x-7", "+3-7"]))
    pre = draw(st.sampled_from([["--fp", "-r"], ["--fp"], ["--fp", "-r", "-u"]]))
    if kind == "bits":
        args = pre + (["--", s] if s.startswith("-") else [s])
    else:
        args = pre + ["--%s=%s" % (kind, s), "16"]
        if draw(st.booleans()):
            args = args[len(pre):] + pre
    return {"kind": kind, "value": s, "args": args}


def run_bad(c):
    if c["kind"] == "bits" and c["value"] in ("--",):
        return []
    a = [x.encode("utf-8").decode("latin-1") for x in c["args"]]
    rc, d, err = parse(a)
    check(rc > 0, lambda: "malformed value accepted (%d): ecgen %s: %s" % (rc, " ".join(c["args"]), {k: d.get(k) for k in ("bits", "count", "memory", "thread_memory", "timeout", "threads", "cofactor_value", "smooth_value", "koblitz_value", "points", "amount", "random")}))
    check(err.strip(), "refused without a word")
    return ["nontrivial", c["kind"]]


@st.composite
def effect(draw):
    """Values with an effect that is seen in the result or its cost."""
    k = draw(st.sampled_from(["memory", "memory", "count", "points", "koblitz", "bits"]))
    c = {"kind": k, "seed": draw(gens.SEEDS)}
    if k == "memory":
        u = draw(st.sampled_from(sorted(UNIT)))
        c["n"], c["u"] = (draw(st.integers(2, 9)) * 1000 if u == "" else draw(st.integers(2, 30)) if u in "kK" else 1), u
        if u in "mMgG" and u:
            c["u"] = u = draw(st.sampled_from("kK"))
            c["n"] = draw(st.integers(2, 30))
        c["long"] = draw(st.booleans())
    elif k == "count":
        c["n"] = draw(st.integers(1, 40))
    elif k == "points":
        c["n"] = draw(st.integers(1, 60))
    elif k == "koblitz":
        c["n"] = draw(st.sampled_from([0, 1]))
    else:
        c["n"] = draw(st.integers(3, 90))
    return c


def run_effect(c):
    k, n = c["kind"], c["n"]
    if k == "memory":
        s = "%d%s" % (n, c["u"])
        r = cli.run(["--fp", "-r", "--memory=" + s if c["long"] else "-m" + s, "48"], seed=c["seed"])
        m = re.search(r"current stack size: (\d+)", r.err)
        if not m:
            return []
        want = n * UNIT[c["u"]]
        # PARI rounds the size
        check(abs(int(m.group(1)) - want) <= 1024, lambda: "stack of %s for -m %s" % (m.group(1), s))
        return ["nontrivial", "memory"]
    a = {"count": ["-c", str(n)], "points": ["--points=%drandom" % n], "koblitz": ["-K%d" % n], "bits": []}[k]
    b = n if k == "bits" else 14
    cs, _ = cli.ok_curves(["--fp", "-r"] + a + [str(b)], b, n if k == "count" else 1, seed=c["seed"])
    if k == "points":
        check(sum(len(g.points) for g in cs[0].subs) == n, "wrong number of points")
    if k == "koblitz":
        check((cs[0].a, cs[0].b) == (n, 1), "wrong Koblitz coefficient")
    check(all(x.p.bit_length() == b for x in cs), "wrong size")
    return ["nontrivial", k]


PROP = Prop(
    "C27",
    "a command line was parsed by the repository's parser and the whole configuration compared with a model, or one with a malformed value was refused",
    [Facet("values", good, run_good, 4000, 60000, slow=0),
     Facet("malformed", bad, run_bad, 3000, 30000, slow=0),
     Facet("effects", effect, run_effect, 200, 3000)],
    "model-based property-based testing of the command line parser: generated command lines in every spelling and order against a reference model of the options; mutated malformed values",
    "Random exploration. Values beyond a signed 64-bit integer count as malformed; repeated options are generated where the last one counts.",
    builds=[build.cli, lambda: build.driver("args", "O")])
