from hypothesis import strategies as st
from vf import build, drv
from vf.core import Facet, Prop, check

BYTES = st.one_of(st.text("abc,0xXfF ", max_size=12), st.binary(max_size=30).map(lambda b: b.replace(b"\0", b"").decode("latin-1")), st.just(""),
                  st.integers(1, 400).map(lambda n: "z" * n))
HEXISH = st.one_of(st.text("0123456789abcdefABCDEF", max_size=20), st.text("0123456789abcdefABCDEFxXgG-+. \t", max_size=8),
                   st.text("0123456789abcdefABCDEF", max_size=9).map(lambda s: "0x" + s), st.text("0123456789abcdefxX", max_size=6).map(lambda s: "0X" + s),
                   st.sampled_from(["", "0x", "0X", "x", "0", "00x1", "0x0x1", " 1", "1 ", "0xg", "\xe9", "0x\xff"]))


def hx(s):
    return s.encode("latin-1").hex() or "-"


def un(t):
    return "" if t == "-" else bytes.fromhex(t).decode("latin-1")


def run(c):
    d = drv.get("unit")
    k = c["k"]
    if k in ("join", "joinv", "concat"):
        ss = c["ss"]
        if k == "joinv":
            ss = ss[:24]
        sep = c["sep"] if k != "concat" else None
        got = un(d.tokens("%s %s %s" % (k, "nil" if sep is None else hx(sep), " ".join(map(hx, ss))))[0])
        want = (sep or "").join(ss)
        check(got == want, "%s of %r with %r gives %r" % (k, ss, sep, got))
        return ["nontrivial" if len(ss) > 1 else "trivial", k, "n:%d" % min(len(ss), 12)]
    if k == "cnt":
        s, ch = c["s"], c["ch"]
        got = int(d.tokens("cnt %s %d" % (hx(s), ord(ch)))[0])
        check(got == s.count(ch), "counting %r in %r gives %d" % (ch, s, got))
        return ["nontrivial" if s.count(ch) else "trivial", "cnt"]
    s = c["s"]
    out = d.tokens("ishex " + hx(s))
    body = s[2:] if len(s) > 2 and s[:2] in ("0x", "0X") else s
    ok = all(ch in "0123456789abcdefABCDEF" for ch in body)
    want = ["no"] if not ok else [str(len(s) - len(body))] + ([body] if body else [])
    check(out == want, "%r as hex: %s, expected %s" % (s, out, want))
    return ["nontrivial", "hex" if ok else "nothex"]


CASE = st.one_of(
    st.builds(lambda k, ss, sep: {"k": k, "ss": ss, "sep": sep}, st.sampled_from(["join", "joinv", "concat"]),
              st.one_of(st.lists(BYTES, max_size=8), st.lists(BYTES, min_size=4, max_size=40)), st.one_of(st.none(), BYTES)),
    st.builds(lambda s, ch: {"k": "cnt", "s": s, "ch": ch}, BYTES, st.sampled_from("abc,0xz ")),
    st.builds(lambda s: {"k": "hex", "s": s}, HEXISH))

PROP = Prop(
    "C36",
    "two or more strings joined, a character that occurs counted, or a string classified as hex; results compared with Python's",
    [Facet("strings", lambda: CASE, run, 8000, 300000, slow=0)],
    "property-based testing of the string helpers against Python's string operations, under address and undefined-behaviour sanitizers",
    "Random exploration; up to 40 strings (24 for the variadic form) of up to 400 characters.",
    builds=[lambda: build.driver("unit")])
