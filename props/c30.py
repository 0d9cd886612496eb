import copy
from hypothesis import strategies as st
from vf import build, drv, ec, gens, nt
from vf.core import Facet, Prop, check

MAXOBJ = 12
OPT = lambda s: st.one_of(s, s, s, st.none())


def val(m):  # numbers whose bit 1 can change in place without changing their size or leaving the field
    return st.integers(8, max(9, m - 4))


@st.composite
def point(draw, m):
    if draw(st.integers(0, 9)) == 0:
        return {"x": None, "y": None, "o": draw(OPT(val(1 << 70))), "c": None}
    return {"x": draw(val(m)), "y": draw(val(m)), "o": draw(OPT(val(1 << 200))), "c": draw(OPT(val(1 << 66)))}


@st.composite
def subgroup(draw, m):
    return {"g": draw(OPT(point(m))),
            "p": draw(st.one_of(st.none(), st.lists(point(m), max_size=3)))}


def seed():
    return st.fixed_dictionaries({"s": OPT(st.tuples(st.booleans(), st.binary(min_size=1, max_size=45).map(bytes.hex))),
                                  "h": OPT(st.binary(min_size=20, max_size=20).map(bytes.hex))})


@st.composite
def obj(draw, m, binary):
    k = draw(st.sampled_from("CCCCSPBTQ"))
    if k == "C":
        ell = draw(st.integers(0, 2))
        a, b = draw(OPT(val(m))), draw(OPT(val(m)))
        if ell:
            a, b = a or 9, b or 11
        return {"k": "C", "ell": ell, "z": draw(OPT(seed())), "f": draw(OPT(val(m))), "a": a, "b": b,
                "o": draw(OPT(val(1 << 180))), "g": draw(st.one_of(st.none(), st.lists(subgroup(m), max_size=3), st.lists(subgroup(m), max_size=3)))}
    if k == "S":
        return {"k": k, "v": draw(subgroup(m))}
    if k == "P":
        return {"k": k, "v": draw(point(m))}
    if k == "B":
        return {"k": k, "v": draw(seed())}
    return {"k": k, "v": draw(st.lists(subgroup(m) if k == "T" else point(m), max_size=4))}


@st.composite
def case(draw):
    if draw(st.integers(0, 2)):
        p = draw(st.one_of(gens.prime_st(5, 9), gens.prime_st(60, 70), gens.prime_st(10, 200)))
        fld, m, binary = ["p", str(p)], p, False
    else:
        e = draw(st.integers(5, 70))
        fld, m, binary = ["b", str(e)], 1 << e, True
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("N"), obj(m, binary)),
        st.tuples(st.sampled_from("ccll"), st.integers(0, 99)),
        st.tuples(st.sampled_from("cl"), st.integers(0, 99)),
        st.tuples(st.just("F"), st.integers(0, 99)),
        st.tuples(st.just("X"), st.integers(0, 99), st.integers(0, 10 ** 6)),
        st.tuples(st.just("E"), st.integers(0, 99)),
        st.tuples(st.just("R")),
        st.tuples(st.just("G"), st.integers(0, 99))), min_size=2, max_size=14))
    return {"field": fld, "first": draw(obj(m, binary)), "ops": ops}


S = lambda v: "-" if v is None else str(v)


def w_point(p):
    return ["."] if p is None else [S(p[k]) for k in "xyoc"]


def w_sub(s):
    r = w_point(s["g"])
    return r + ["-1"] if s["p"] is None else r + [str(len(s["p"]))] + [x for p in s["p"] for x in w_point(p)]


def w_seed(z):
    if z is None:
        return ["."]
    s = z["s"]
    return ["-" if s is None else ("~" if s[0] else "") + s[1], S(z["h"])]


def words(o, fieldp):
    """What the driver reads to make the object, and prints of it (without the curve object)."""
    if o["k"] == "C":
        f = o["f"] if fieldp is None or o["f"] is None else (o.get("fp") or fieldp)
        g = o["g"]
        return w_seed(o["z"]) + [S(f), S(o["a"]), S(o["b"]), S(o["o"])] + \
            (["-1"] if g is None else [str(len(g))] + [x for s in g for x in w_sub(s)])
    v = o["v"]
    return {"S": w_sub, "P": w_point, "B": w_seed}[o["k"]](v) if o["k"] in "SPB" else \
        [x for e in v for x in (w_sub if o["k"] == "T" else w_point)(e)]


def make(o, fieldp):
    if o["k"] == "C":
        return ["C", str(o["ell"])] + words(o, fieldp)
    return [o["k"]] + ([str(len(o["v"]))] if o["k"] in "TQ" else []) + words(o, fieldp)


def flips(o, fieldp):
    """All places of an object that can be changed: (words for the driver, change of the model)."""
    r = []

    def pt(p, si, pi):
        for k in "xyoc":
            if p is not None and p[k] is not None:
                r.append(([k, str(si), str(pi)], lambda p=p, k=k: p.__setitem__(k, p[k] ^ 2)))

    def sub(s, si):
        pt(s["g"], si, -1)
        for i, p in enumerate(s["p"] or []):
            pt(p, si, i)

    def sd(z):
        if z and z["s"] is not None:
            def fl():
                sg, h = z["s"]
                z["s"] = (sg, h[0] + "%x" % (int(h[1], 16) ^ 2) + h[2:])
            r.append((["zs"], fl))
        if z and z["h"] is not None:
            r.append((["zh"], lambda: z.__setitem__("h", z["h"][:38] + "%02x" % (int(z["h"][38:], 16) ^ 2))))
    if o["k"] == "C":
        sd(o["z"])
        if o["f"] is not None and fieldp is None:
            r.append((["f"], lambda: o.__setitem__("f", o["f"] ^ 2)))
        elif o["f"] is not None:
            r.append((["f"], lambda: o.__setitem__("fp", (o.get("fp") or fieldp) ^ 2)))
        for k in "abo":
            if o[k] is not None:
                r.append((["n" if k == "o" else k], lambda k=k: o.__setitem__(k, o[k] ^ 2)))
        for i, s in enumerate(o["g"] or []):
            sub(s, i)
    elif o["k"] == "S":
        sub(o["v"], 0)
    elif o["k"] == "P":
        pt(o["v"], 0, 0)
    elif o["k"] == "B":
        sd(o["v"])
    elif o["k"] == "T":
        for i, s in enumerate(o["v"]):
            sub(s, i)
    else:
        for i, p in enumerate(o["v"]):
            pt(p, 0, i)
    return r


def run_objects(c):
    fld = c["field"]
    p = int(fld[1]) if fld[0] == "p" else None
    slots = {}
    req, dumps, labels, cards = list(fld), [], set(), []

    def new(o):
        i = min(set(range(MAXOBJ)) - set(slots))
        o = copy.deepcopy(o)
        o["cl"] = False
        if o["k"] == "C" and o["ell"] and p and (4 * o["a"] ** 3 + 27 * o["b"] ** 2) % p == 0:
            o["ell"] = 0
        slots[i] = o
        req.extend(["N", str(i)] + make(o, p))

    def show():
        req.append("D")
        dumps.append({i: (o["k"], words(o, p), o.get("ell") and [str(o["ella"]), str(o["ellb"])]) for i, o in slots.items()})
    new(c["first"])
    for o in slots.values():
        if o["k"] == "C":
            o["ella"], o["ellb"], o["tag"] = o["a"], o["b"], 0
    show()
    n_made = 1
    for op in c["ops"]:
        k = op[0]
        if k == "N":
            if len(slots) == MAXOBJ:
                continue
            before = set(slots)
            new(op[1])
            for i in set(slots) - before:
                o = slots[i]
                if o["k"] == "C":
                    o["ella"], o["ellb"], o["tag"] = o["a"], o["b"], n_made
                n_made += 1
            show()
            continue
        if not slots:
            continue
        if k == "R":
            for i in [i for i in slots if not slots[i]["cl"]]:
                req.extend(["F", str(i)])
                del slots[i]
            req.append("R")
            if slots:
                labels.add("stack gone")
            show()
            continue
        i = sorted(slots)[op[1] % len(slots)]
        o = slots[i]
        if k in "cl":
            if len(slots) == MAXOBJ:
                continue
            j = min(set(range(MAXOBJ)) - set(slots))
            slots[j] = copy.deepcopy(o)
            slots[j]["cl"] = k == "l"
            req += [k, str(i), str(j)]
            labels.add("clone" if k == "l" else "copy")
        elif k == "F":
            del slots[i]
            req += ["F", str(i)]
            labels.add("freed")
        elif k == "X":
            fl = flips(o, p)
            if not fl:
                continue
            w, change = fl[op[2] % len(fl)]
            change()
            req += ["X", str(i)] + w
            labels.add("changed")
        elif k == "E":
            if o["k"] != "C" or not o["ell"]:
                continue
            req += ["E", str(i)]
            cards.append((i, o["tag"]))
            labels.add("order computed")
        elif k == "G":
            if o["k"] != "C" or o["g"] is None:
                continue
            o["g"] = None
            req += ["G", str(i)]
        show()
    d = drv.get("objects", env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:max_free_fill_size=65536:free_fill_byte=165:quarantine_size_mb=64"})
    out = d.ask(" ".join(req))
    if not out.endswith("blocks 0 allocs 0"):  # PARI itself keeps tables it made on first use
        out = d.ask(" ".join(req))
    parts = out.split("|")
    check(len(parts) == len(dumps) + 1, "answer %r" % out[:300])
    tags, orders = {}, {}
    ci = 0
    for n, (part, want) in enumerate(zip(parts, dumps)):
        toks = part.split()
        while toks and toks[0][0] == "E" and toks[0][1:].isdigit():
            i, tag = cards[ci]
            ci += 1
            check(orders.setdefault(tag, toks[1]) == toks[1], "the order of the curve in slot %d is %s, of its original or copy %s: %r" % (i, toks[1], orders[tag], req))
            toks = toks[2:]
        got = {}
        check("!notnull" not in part, "a freed object was not set to NULL: %r" % req)
        for e in " ".join(toks).split(";"):
            e = e.split()
            if e:
                got[int(e[0][:-1])] = (e[0][-1], e[1:])
        check(set(got) == set(want), "slots %s, expected %s" % (sorted(got), sorted(want)))
        for i, (kind, ws, ell) in want.items():
            g = got[i][1]
            if ell:
                j = len(ws)
                check(g[j:j + 1] == ["E"] and g[j + 1:j + 3] == ell, lambda: "after step %d the curve object in slot %d is %s, expected %s first: %s" % (n, i, g[j:], ell, " ".join(req)))
                e = tuple(g[j + 1:])
                key = tuple(ell)  # discriminant and j of all copies are those of the first
                check(tags.setdefault(key, e) == e, lambda: "the curve object in slot %d changed from %s to %s: %s" % (i, tags[key], e, " ".join(req)))
                g = g[:j]
            norm = lambda l: [x.lower() for x in l]
            check(norm(g) == norm(ws), lambda: "after step %d the object in slot %d is %s, expected %s: %s" % (n, i, g, ws, " ".join(req)))
    end = parts[-1].split()
    check(end == ["blocks", "0", "allocs", "0"], lambda: "after everything was freed: %s (PARI blocks, allocations left): %s" % (end, " ".join(req)))
    return sorted(labels) + (["nontrivial"] if labels & {"copy", "clone"} and labels & {"freed", "changed", "order computed"} else [])


PROP = Prop(
    "C30",
    "an object was copied or cloned and an object was changed in place, freed, or had its order computed as well",
    [Facet("objects", case, run_objects, 6000, 150000, slow=0)],
    "stateful property-based testing: random programs of making, copying, cloning, changing in place and freeing objects against a value model, under AddressSanitizer with freed memory overwritten and all allocations counted",
    "Random exploration; up to 12 live objects, 15 operations. Seeds are compared by value and hash, metadata is not copied by the tool and not judged.",
    builds=[lambda: build.driver("objects")])
