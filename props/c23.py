import hashlib
from hypothesis import strategies as st
from vf import build, drv
from vf.core import Facet, Prop, check


@st.composite
def msg(draw):
    n = draw(st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 183, 184]), st.integers(0, 3000)))
    kind = draw(st.sampled_from(["rnd", "rnd", "zero", "ff", "high"]))
    m = {"rnd": None, "zero": b"\0" * n, "ff": b"\xff" * n, "high": b"\x80" * n}[kind]
    if m is None:
        import random
        m = random.Random(draw(st.integers(0, 1 << 40))).randbytes(n)
    cuts = sorted(draw(st.lists(st.integers(0, n), max_size=8)))
    return {"msg": m.hex(), "cuts": cuts}


def run(c):
    m = bytes.fromhex(c["msg"])
    cs = [0] + c["cuts"] + [len(m)]
    parts = [m[a:b].hex() or "-" for a, b in zip(cs, cs[1:])]
    got = drv.get("unit").tokens("sha1 " + " ".join(parts))[0]
    check(got == hashlib.sha1(m).hexdigest(), "SHA-1 of %d bytes in parts %s: %s" % (len(m), [len(p) // 2 for p in parts], got))
    return ["nontrivial" if m else "empty", "parts:%d" % len(parts), "pad2" if len(m) % 64 >= 56 else "pad1"]


def run_bits(c):
    """bits_sha1 hashes the bytes of the bit string, the last one padded with zeros."""
    d = drv.get("unit")
    s = c["s"]
    d.ask("bits reset 0")
    out = d.ask("bits bin 0 %s" % (s or "-")).split()[0]
    for op in c["ops"]:
        if op == "shorten" and len(s) > 3:
            s = s[:-3]
            out = d.ask("bits shortenz 0 -3").split()[0]
        if op == "lengthen":
            s = s + "00000"
            out = d.ask("bits lengthenz 0 -5").split()[0]
        if op == "not":
            s = s.translate({48: "1", 49: "0"})
            out = d.ask("bits notz 0").split()[0]
    raw = bytes(int(s[i:i + 8].ljust(8, "0"), 2) for i in range(0, len(s), 8))
    check(out.split("|")[-1] == hashlib.sha1(raw).hexdigest(), "SHA-1 of bit string %s (after %s) is %s" % (s, c["ops"], out))
    return ["nontrivial"]


def long_cases(tier):
    ns = [1 << 16, (1 << 20) + 13, 5000000]
    if tier != "quick":
        ns += [(1 << 29) - 1, 1 << 29, (1 << 29) + 77, (1 << 30) + 5]  # the bit counter passes 2^32
    else:
        ns += [(1 << 29) + 3]
    return [{"byte": 165, "n": n, "chunk": k} for n in ns for k in (1 << 20, 1000003)]


def run_long(c):
    h = hashlib.sha1()
    n, chunk = c["n"], bytes([c["byte"]]) * c["chunk"]
    while n > 0:
        h.update(chunk[:n])
        n -= c["chunk"]
    got = drv.get("unit", "O").ask("sha1rep %d %d %d" % (c["byte"], c["n"], c["chunk"]), timeout=300).split()[0]
    check(got == h.hexdigest(), "SHA-1 of %d equal bytes is %s" % (c["n"], got))
    return ["nontrivial"]


PROP = Prop(
    "C23",
    "a non-empty message was hashed and compared with an independent SHA-1",
    [Facet("message", msg, run, 5000, 200000, slow=0),
     Facet("bits", lambda: st.builds(lambda s, o: {"s": s, "ops": o}, st.text("01", max_size=200), st.lists(st.sampled_from(["shorten", "lengthen", "not"]), max_size=3)), run_bits, 1000, 20000, slow=0),
     Facet("long", None, run_long, 0, enum=long_cases, slow=0)],
    "differential testing against hashlib: random messages, random splits into updates, lengths at the block and counter boundaries",
    "Random exploration plus a few messages beyond 2^29 bytes (64-bit length counter).",
    builds=[lambda: build.driver("unit"), lambda: build.driver("unit", "O")])
