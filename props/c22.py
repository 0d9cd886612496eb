import hashlib
from hypothesis import strategies as st
from vf import build, drv
from vf.core import Facet, Prop, check

NR = 4
BYTE = lambda s: bytes(int(s[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(s), 8))


def show(s):
    """Every view of a bit string, from the model."""
    if s is None:
        return "nil"
    n = len(s)
    v = int(s, 2) if s else 0
    raw = BYTE(s)
    hexs = "%0*x" % (2 * ((n + 7) // 8), v) if n else ""
    return "%d|%s|%s|%d|%s|%s|%s" % (n, s, hexs, v, raw.hex(), s, hashlib.sha1(raw).hexdigest())


LEN = st.one_of(st.integers(0, 20), st.integers(0, 70), st.sampled_from([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 160, 161, 256]), st.integers(0, 600))


@st.composite
def content(draw):
    n = draw(LEN)
    k = draw(st.integers(0, 5))
    if k == 0:
        return "1" * n
    if k == 1:
        return "0" * n
    return "".join(draw(st.sampled_from("01")) for _ in range(n)) if n <= 24 else bin(draw(st.integers(1 << n, (2 << n) - 1)))[3:]


AMOUNT = st.one_of(st.integers(-20, 20), st.integers(-700, 700), st.sampled_from([8, -8, 16, -16, 64, -64, 1, -1, 0]))
R = st.integers(0, NR - 1)
OPS = ["shift", "shiftr", "shifti", "lengthen", "shorten"]


def op():
    return st.one_of(
        st.tuples(st.just("load"), R, st.sampled_from(["hex", "bin", "i", "ilen", "raw", "vec"]), content(), st.integers(0, 40)),
        st.tuples(st.sampled_from(["copy", "cpy", "not", "rot"]), R, R),
        st.tuples(st.sampled_from(["notz", "rotz"]), R),
        st.tuples(st.sampled_from(["or", "and"]), R, R, R),
        st.tuples(st.sampled_from(["concat", "concatz"]), R, st.lists(R, min_size=1, max_size=3)),
        st.tuples(st.sampled_from(OPS), R, R, AMOUNT),
        st.tuples(st.sampled_from([o + "z" for o in OPS]), R, AMOUNT),
        st.tuples(st.just("eq"), R, R),
        st.tuples(st.just("new"), R, LEN))


def act(o, s, n):
    """The model of the operations with an amount."""
    L = len(s)
    if o == "shift":
        return "".join(s[i + n] if 0 <= i + n < L else "0" for i in range(L))
    if o == "shiftr":
        return "".join(s[(i + n) % L] for i in range(L))
    if o == "shifti":
        return act("lengthen", s, -n) if n > 0 else act("shorten", s, n)
    if o == "lengthen":
        return "0" * n + s if n > 0 else s + "0" * -n
    if o == "shorten":
        return s[n:] if n > 0 else s[:L + n] if n < 0 else s
    raise KeyError(o)


def run(c):
    d = drv.get("unit")
    d.ask("bits reset 0")
    regs = [None] * NR
    labels = []
    hist = []

    def send(line, expect_eq=None):
        hist.append(line)
        out = d.ask("bits " + line).split()
        if expect_eq is not None:
            check(out[0] == str(int(expect_eq)), lambda: "equality is %s, expected %s; after %s" % (out[0], expect_eq, hist))
            out = out[1:]
        for i in range(NR):
            check(out[i] == show(regs[i]), lambda: "after %s: register %d is\n  %s\nexpected\n  %s" % (hist, i, out[i], show(regs[i])))
    for i, s in enumerate(c["init"]):
        regs[i] = s
        send("bin %d %s" % (i, s or "-"))
    for o in c["ops"]:
        k, r = o[0], o[1]
        labels.append(k)
        if k == "load":
            how, s, extra = o[2], o[3], o[4]
            if how == "hex":
                h = "".join("%x" % int(s[i:i + 4].ljust(4, "0"), 2) for i in range(0, len(s), 4))
                if extra % 2:
                    h = h.upper()
                regs[r] = "".join("{:04b}".format(int(x, 16)) for x in h)
                send("hex %d %s" % (r, h or "-"))
            elif how in ("i", "ilen"):
                v = int(s, 2) if s else 0
                if how == "i" and v == 0:
                    v = 1
                if how == "i":
                    regs[r] = bin(v)[2:]
                    send("i %d %d" % (r, v))
                else:
                    n = max(v.bit_length(), 1) + extra
                    regs[r] = bin(v)[2:].rjust(n, "0")
                    send("ilen %d %d %d" % (r, v, n))
            elif how == "raw":
                b = bytearray(BYTE(s))
                regs[r] = s
                send("raw %d %s %d" % (r, bytes(b).hex() or "-", len(s)))
            elif how == "vec":
                regs[r] = s
                send("vec %d %s" % (r, s or "-"))
            else:
                regs[r] = s
                send("bin %d %s" % (r, s or "-"))
        elif k == "copy":
            regs[r] = regs[o[2]]
            send("copy %d %d" % (r, o[2]))
        elif k == "cpy":
            if r == o[2]:
                continue
            if regs[o[2]]:
                regs[r] = regs[o[2]]
            send("cpy %d %d" % (r, o[2]))
        elif k in ("not", "rot"):
            s = regs[o[2]]
            regs[r] = s.translate({48: "1", 49: "0"}) if k == "not" else s[::-1]
            send("%s %d %d" % (k, r, o[2]))
        elif k in ("notz", "rotz"):
            s = regs[r]
            regs[r] = s.translate({48: "1", 49: "0"}) if k == "notz" else s[::-1]
            send("%s %d" % (k, r))
        elif k in ("or", "and"):
            a, b = regs[o[2]], regs[o[3]]
            n = max(len(a), len(b))
            f = (lambda x, y: x | y) if k == "or" else (lambda x, y: x & y)
            v = f(int(a, 2) if a else 0, int(b, 2) if b else 0)
            regs[r] = bin(v)[2:].rjust(n, "0") if n else ""
            send("%s %d %d %d" % (k, r, o[2], o[3]))
        elif k == "concat":
            regs[r] = "".join(regs[i] for i in o[2])
            if len(regs[r]) > 3000:
                regs[r] = ""
                send("new %d 0" % r)
                continue
            send("concat %d %s" % (r, " ".join(map(str, o[2]))))
        elif k == "concatz":
            if r in o[2] or sum(len(regs[i]) for i in [r] + o[2]) > 3000:
                continue
            regs[r] = regs[r] + "".join(regs[i] for i in o[2])
            send("concatz %d %s" % (r, " ".join(map(str, o[2]))))
        elif k == "eq":
            send("eq %d %d" % (r, o[2]), regs[r] == regs[o[2]])
        elif k == "new":
            regs[r] = "0" * o[2]
            send("new %d %d" % (r, o[2]))
        else:
            inplace = k.endswith("z")
            name = k[:-1] if inplace else k
            src, n = (r, o[2]) if inplace else (o[2], o[3])
            L = len(regs[src])
            if L == 0 and name in ("shift", "shiftr"):
                continue
            if (name == "shorten" or (name == "shifti" and n < 0)) and abs(n) > L:
                n = (abs(n) % (L + 1)) * (-1 if n < 0 else 1)
            if L + abs(n) > 4000:
                continue
            if n > L or n < -L:
                labels.append("amount beyond the length")
            regs[r] = act(name, regs[src], n)
            send("%s %d %s" % (k, r, n if inplace else "%d %d" % (src, n)))
    labels = sorted(set(labels))
    if len(c["ops"]) >= 2:
        labels.append("nontrivial")
    return labels


def case():
    return st.builds(lambda i, o: {"init": i, "ops": [list(x) for x in o]},
                     st.lists(content(), min_size=NR, max_size=NR), st.lists(op(), min_size=1, max_size=14))


def run_signed(c):
    """Integers of either sign survive the conversion and copies."""
    d = drv.get("unit")
    d.ask("bits reset 0")
    v = int(c["v"])
    n = abs(v).bit_length()
    h = "%s%0*x" % ("-" if v < 0 else "", 2 * ((n + 7) // 8), abs(v))
    want = "%d|%s%s|%s|%d" % (n, "-" if v < 0 else "", bin(abs(v))[2:], h, v)
    for l in ("i 0 %d" % v, "copy 1 0", "new 2 3", "cpy 2 1", "ilen 3 %d %d" % (v, n)):
        out = d.ask("bits " + l).split()
    for i in range(NR):
        check("|".join(out[i].split("|")[:4]) == want, "%d stored, register %d (%s) reads %s" % (v, i, l, out[i]))
    out = d.ask("bits i 1 %d" % -v).split()
    for other, e in ((0, 1), (1, 0), (2, 1)):
        out = d.ask("bits eq 0 %d" % other).split()
        check(out[0] == str(e), "comparing %d with its %s gives %s" % (v, "copy" if e else "opposite", out[0]))
    # unsigned again after
    out = d.ask("bits i 0 7").split()
    return ["nontrivial", "negative" if v < 0 else "positive"]


PROP = Prop(
    "C22",
    "a program of at least two bit-string operations was run and all registers in all their views (binary, hex, integer, raw, bit vector, SHA-1) compared with the model after every operation",
    [Facet("program", case, run, 4000, 120000, slow=0),
     Facet("signed", lambda: st.builds(lambda v, n: {"v": str(v if not n else -v)}, st.one_of(st.integers(1, 300), st.integers(1, 1 << 200)), st.booleans()), run_signed, 600, 10000, slow=0)],
    "stateful model-based testing: random programs of bit-string operations against a model on Python strings, under address and undefined-behaviour sanitizers",
    "Random exploration; lengths to 4000 bits. Excluded: shortening by more than the length and building from an integer longer than the length (no defined result), and copying from an empty string, which the tests pin as no operation.",
    builds=[lambda: build.driver("unit")])
