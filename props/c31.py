import json
from hypothesis import strategies as st
from vf import build, drv
from vf.core import Facet, Prop, check

TEXT = st.one_of(st.text("ab.c-_ 09", max_size=6),
                 st.text(st.characters(min_codepoint=1, exclude_categories=["Cs"]), max_size=12),
                 st.text(st.sampled_from("\"\\/\b\f\n\r\t\x01\x0b\x1f\x7f\u00e9\u07ff\u0800\uffff\U00010000\U0010ffffA"), max_size=12))
NUM = st.one_of(st.integers(-2 ** 53, 2 ** 53), st.integers(-20, 20),
                st.floats(allow_nan=False, allow_infinity=False).filter(lambda x: x == 0 or 1e-300 < abs(x) < 1e300))
LEAF = st.one_of(st.none(), st.booleans(), NUM, TEXT, TEXT)
VALUE = st.recursive(LEAF, lambda c: st.one_of(st.lists(c, max_size=5), st.dictionaries(TEXT, c, max_size=5)), max_leaves=25)
OBJECT = st.dictionaries(TEXT, VALUE, max_size=5)
KEY = st.sampled_from(["a", "b", "a.b", "a.b.c", "b.a", "a.a.a.b", ".", "", "a.", ".a", "b.b", "c"])


def H(s):
    return s.encode().hex() or "-"


def toks(v):
    if isinstance(v, dict):
        return ["o", str(len(v))] + [x for k, w in v.items() for x in [H(k)] + toks(w)]
    if isinstance(v, list):
        return ["a", str(len(v))] + [x for w in v for x in toks(w)]
    if isinstance(v, str):
        return ["s", H(v)]
    if v is None:
        return ["0"]
    if v is True or v is False:
        return ["t" if v else "f"]
    return ["n", repr(float(v))]


def untok(t):
    """A value from the front of the list of tokens; dicts stay lists of pairs to see the order."""
    k = t.pop(0)
    uh = lambda s: "" if s == "-" else bytes.fromhex(s).decode()
    if k == "o":
        n = int(t.pop(0))
        r = {}
        for _ in range(n):
            key = uh(t.pop(0))
            check(key not in r, "the key %r is there twice" % key)
            r[key] = untok(t)
        return r
    if k == "a":
        return [untok(t) for _ in range(int(t.pop(0)))]
    if k == "s":
        return uh(t.pop(0))
    if k == "n":
        return float(t.pop(0))
    check(k in ("t", "f", "0", "nil"), "unexpected token %s" % k)
    return {"t": True, "f": False, "0": None, "nil": "<nil>"}[k]


def same(a, b):
    """Equal with types: True is not 1, 1.0 is 1, the order of keys does not matter."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if num(a) and num(b):
        return float(a) == float(b)
    return type(a) == type(b) and a == b


def check_serial(t, v, what):
    for form in ("compact", "pretty"):
        check(t and not t[0].startswith("!"), lambda: "%s form: driver says %s (%s)" % (form, t[:1], what))
        s = bytes.fromhex(t.pop(0)).decode()
        try:
            got = json.loads(s)
        except ValueError as e:
            check(False, "%s form of %s is not JSON: %s: %r" % (form, what, e, s[:300]))
        check(same(got, v), lambda: "%s form of %s is %r" % (form, what, s[:500]))
        check((form == "pretty") or "\n" not in s, "compact form has a line break")
        check(not t or t[0] != "!parse", lambda: "%s form of %s does not parse to an equal value" % (form, what))


def run_build(c):
    v = c["v"]
    t = drv.get("json").tokens("build " + " ".join(toks(v)))
    check(not any(x.startswith("!") for x in t), lambda: "building %r: %s" % (v, [x for x in t if x[0] == "!"]))
    got = untok(t)
    check(same(got, v), lambda: "built %r, holds %r" % (v, got))
    check_serial(t, v, repr(v)[:300])
    return ["nontrivial"] if isinstance(v, (dict, list)) and v else ["leaf"]


@st.composite
def text_case(draw):
    """A text of a value with free white space and escapes, as a list of lexical pieces."""
    v = draw(VALUE)
    rnd = draw(st.randoms(use_true_random=False))
    return {"pieces": pieces(v, rnd), "v": v, "break": draw(st.one_of(st.none(), st.integers(0, 10 ** 6)))}


def lit(s, rnd):
    out = '"'
    for ch in s:
        o = ord(ch)
        m = rnd.random()
        short = {'"': '\\"', "\\": "\\\\", "/": "\\/", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
        if m < 0.3 or o < 32 and ch not in short:
            w = ["%04x" % o] if o < 65536 else ["%04x" % (0xd800 + (o - 65536 >> 10)), "%04x" % (0xdc00 + (o - 65536 & 1023))]
            out += "".join("\\u" + (x.upper() if rnd.random() < 0.5 else x) for x in w)
        elif ch in short and (o < 32 or ch in '"\\' or m < 0.6):
            out += short[ch]
        else:
            out += ch
    return out + '"'


def pieces(v, rnd):
    ws = lambda: "".join(rnd.choice(" \t\n\r") for _ in range(rnd.choice([0, 0, 0, 1, 3])))
    def w(x):
        if isinstance(x, dict):
            r = ["{"]
            for i, (k, y) in enumerate(x.items()):
                r += ([","] if i else []) + [lit(k, rnd), ":"] + w(y)
            return r + ["}"]
        if isinstance(x, list):
            r = ["["]
            for i, y in enumerate(x):
                r += ([","] if i else []) + w(y)
            return r + ["]"]
        if isinstance(x, str):
            return [lit(x, rnd)]
        if isinstance(x, float) and rnd.random() < 0.5:
            return ["%.17e" % x if abs(x) >= 1 else repr(x)]
        return [json.dumps(x)]
    r = []
    for p in w(v):
        r += [ws(), p]
    return [x for x in r if x] + ([" "] if rnd.random() < 0.2 else [])


BAD_STRINGS = ['"\\x"', '"\\u12"', '"\\u12g4"', '"\\ud800"', '"\\ud800\\u0041"', '"\\udc00"', '"a\nb"', '"\x01"', '"\\', '"abc', '"\\"']
BAD_VALUES = ["nul", "tru", "fals", "True", "None", "'a'", "+1", ".5", "01", "-", "0x10", "NaN", "Infinity", "-Infinity", "undefined", "1e999", ":", ",", "]", "}"]


def broken(ps, n):
    """A text that is not JSON, and in which no prefix is (the reader stops after the first value)."""
    idx = [i for i, p in enumerate(ps) if p.strip()]
    container = ps[idx[0]] in "[{"
    ops = ["value"]
    if container:
        ops += ["cut", "cut", "value", "value", "comma", "close", "colon", "trail"]
    k = ops[n % len(ops)]
    n //= len(ops)
    t = lambda q: "".join(q)
    if k == "cut":  # ends too early
        i = idx[n % len(idx)]
        return k, t(ps[:i])
    vals = [i for i in idx if ps[i] not in "[]{},:"]
    if k == "value" and vals:
        i = vals[n % len(vals)]
        # a key can only be replaced by a bad string, another value by anything bad
        j = next((q for q in idx if q > i), None)
        key = j is not None and ps[j] == ":"
        bad = BAD_STRINGS + (["1", "null", "a", "[]"] if key else BAD_VALUES)
        b = bad[(n // 7) % len(bad)]
        if b in ('"\\', '"abc', '"\\"'):
            return k, t(ps[:i]) + b
        if not key and j is not None and ps[j] in "]}" and b in "]}" or not container and False:
            return k, None  # closes what is open: may be fine
        return k, t(ps[:i]) + b + t(ps[i + 1:])
    if k == "comma":
        cs = [i for i in idx if ps[i] == ","]
        if cs:
            i = cs[n % len(cs)]
            return k, t(ps[:i]) + ["", ",,", ";", ":"][(n // 5) % 4] + (" " if (n // 5) % 4 == 0 else "") + t(ps[i + 1:])
    if k == "colon":
        cs = [i for i in idx if ps[i] == ":"]
        if cs:
            i = cs[n % len(cs)]
            return k, t(ps[:i]) + [" ", "::", "=", ","][(n // 5) % 4] + t(ps[i + 1:])
    if k in ("close", "trail"):
        cs = [i for i in idx if ps[i] in "]}"]
        i = cs[n % len(cs)]
        if k == "close":
            return k, t(ps[:i]) + {"]": "}", "}": "]"}[ps[i]] + t(ps[i + 1:])
        return k, t(ps[:i]) + "," + t(ps[i:])
    return k, None


def run_text(c):
    ps, v = c["pieces"], c["v"]
    d = drv.get("json")
    if c["break"] is not None:
        k, s = broken(ps, c["break"])
        if s is None:
            return ["skipped"]
        try:  # what Python takes as well is not broken, and neither is a value followed by something
            json.JSONDecoder(parse_constant=lambda x: 1 // 0).raw_decode(s.lstrip(" \t\n\r"))
            return ["skipped"]
        except (ValueError, ZeroDivisionError):
            pass
        if "1e999" in s or "\x00" in s:
            return ["skipped"]
        t = d.tokens("parse " + H(s))
        check(t == ["nil"], lambda: "a text that is not JSON was taken: %r as %s" % (s, t[:20]))
        return ["nontrivial", "broken:" + k]
    s = "".join(ps)
    t = d.tokens("parse " + H(s))
    check("!copy" not in t, lambda: "the copy of %r is not equal" % s)
    got = untok(t)
    check(same(got, v), lambda: "the text %r was read as %r" % (s, got))
    check_serial(t, v, repr(s)[:300])
    got = untok(t)
    check(same(got, v), lambda: "the copy of %r is %r" % (s, got))
    return ["nontrivial", "valid"] if isinstance(v, (dict, list)) and v else ["leaf"]


@st.composite
def edits(draw):
    op = st.one_of(
        st.tuples(st.sampled_from(["dset", "dset", "set", "aadd"]), KEY, VALUE),
        st.tuples(st.sampled_from(["dstr", "str"]), KEY, TEXT),
        st.tuples(st.sampled_from(["rem", "drem", "drem", "get", "dget", "dget", "aclr"]), KEY),
        st.tuples(st.just("arem"), KEY, st.integers(0, 6)),
        st.tuples(st.just("arep"), KEY, st.integers(0, 6), VALUE),
        st.tuples(st.sampled_from(["aadd"] * 3), KEY, LEAF),
        st.tuples(st.sampled_from(["copy", "again", "clear"])))
    big = draw(st.booleans())
    return {"v": draw(OBJECT) if not big else {("k%d" % i if i else "a"): ([] if i % 3 == 0 else i) for i in range(draw(st.integers(0, 40)))},
            "ops": draw(st.lists(op, max_size=20))}


def run_edit(c):
    import copy
    root = copy.deepcopy(c["v"])
    req, want, hits = ["edit"] + toks(root), [], 0
    sub = lambda o, k: o.get(k) if isinstance(o, dict) else "<nil>"

    def dget(k):
        o = root
        parts = k.split(".")
        for p in parts:
            if not isinstance(o, dict) or p not in o:
                return "<nil>"
            o = o[p]
        return o
    ok = lambda b: 0 if b else -1
    for op in c["ops"]:
        k = op[0]
        args = op[1:]
        w = [k]
        if k == "copy":
            want.append((None, None))
        elif k == "again":
            want.append((None, None))
        elif k == "clear":
            root.clear()
            want.append((0, None))
        else:
            key = args[0]
            w.append(H(key))
            if k in ("dset", "set", "dstr", "str"):
                v = copy.deepcopy(args[1])
                w += [H(v)] if k in ("dstr", "str") else toks(v)
                if k in ("set", "str"):
                    root[key] = v
                    r = True
                else:
                    o, parts, r = root, key.split("."), True
                    for p in parts[:-1]:
                        if p in o and not isinstance(o[p], dict):
                            r = False
                            break
                        o = o.get(p) if p in o else {}
                    if r:
                        o = root
                        for p in parts[:-1]:
                            o = o.setdefault(p, {})
                        o[parts[-1]] = v
                hits += r
                want.append((ok(r), None))
            elif k in ("rem", "drem"):
                o, p = root, key
                if k == "drem" and "." in key:
                    o, p = dget(key.rsplit(".", 1)[0]), key.rsplit(".", 1)[1]
                r = isinstance(o, dict) and p in o
                if r:
                    del o[p]
                hits += r
                want.append((ok(r), None))
            elif k in ("get", "dget"):
                v = dget(key) if k == "dget" else root.get(key, "<nil>")
                want.append((0, [copy.deepcopy(v)]))
            else:
                a = dget(key)
                r = isinstance(a, list)
                if k == "aadd":
                    w += toks(args[1])
                    if r:
                        a.append(copy.deepcopy(args[1]))
                elif k == "aclr":
                    if r:
                        a.clear()
                else:
                    i = args[1]
                    w.append(str(i))
                    r = r and i < len(a)
                    if k == "arem":
                        if r:
                            del a[i]
                    else:
                        w += toks(args[2])
                        if r:
                            a[i] = copy.deepcopy(args[2])
                hits += r
                want.append((ok(r), None))
        req += w
    out = drv.get("json").ask(" ".join(req)).split("|")
    check(len(out) == len(want) + 1, "answer %r" % out)
    for n, (o, (st_, v)) in enumerate(zip(out, want)):
        t = o.split()
        what = lambda: "operation %d, %s, of %s on %s" % (n, c["ops"][n], c["ops"], c["v"])
        if v is not None:
            got = untok(t)
            check(same(got, v[0]) if v[0] != "<nil>" else got == "<nil>", lambda: "%s gives %r, expected %r" % (what(), got, v[0]))
        if st_ is not None:
            check(t and int(t[0]) == st_, lambda: "%s returns %s, expected %d" % (what(), t, st_))
    t = out[-1].split()
    bad = [x for x in t if x[0] == "!" and x != "!parse"]
    check(not bad, lambda: "%s after %s on %s" % (bad, c["ops"], c["v"]))
    got = untok(t)
    check(same(got, root), lambda: "after %s on %s: %r, expected %r" % (c["ops"], c["v"], got, root))
    check_serial(t, root, "the edited value")
    return ["nontrivial"] if hits >= 2 else ["few"]


PROP = Prop(
    "C31",
    "a nonempty array or object built, serialised and read back (also by Python's reader), a broken text refused, or at least two edits that took effect",
    [Facet("build", lambda: st.builds(lambda v: {"v": v}, VALUE), run_build, 4000, 100000, slow=0),
     Facet("text", text_case, run_text, 8000, 200000, slow=0),
     Facet("edit", edits, run_edit, 4000, 100000, slow=0)],
    "property-based testing of reading, building, editing and serialising: round-trip and differential against Python's JSON reader, model-based for edits, into buffers of exactly the announced size under AddressSanitizer",
    "Random exploration; values of up to 25 leaves, edits of up to 20 operations. Numbers outside 1e-300..1e300, NUL characters, repeated keys and what follows the first value of a text are not judged.",
    builds=[lambda: build.driver("json")])
