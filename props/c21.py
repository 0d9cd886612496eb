import subprocess
from hypothesis import strategies as st
from vf import build, drv, cli
from vf.core import Facet, Prop, check

MAXM, UNIT = 10000, "unit"
_irr = None


def irr_ask(m, e):
    global _irr
    if _irr is None or _irr.poll() is not None:
        _irr = subprocess.Popen([build.oracle("irr")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    _irr.stdin.write("%d %d %d %d\n" % (m, e[0], e[1], e[2]))
    _irr.stdin.flush()
    return _irr.stdout.readline().strip() == "1"


def table_poly(m):
    t = drv.get(UNIT).tokens("poly %d" % m)
    check(t[0] == "1", "size %d is not known" % m)
    check(t[1] != "nil", "size %d has no polynomial" % m)
    v = [int(x) for x in t[1:]]
    check(v[0] == m, "entry of degree %d found for size %d" % (v[0], m))
    return v[1:]


def run_poly(c):
    m = c["m"]
    e = table_poly(m)
    nz = sorted([x for x in e if x], reverse=True)
    check(len(nz) in (1, 3) and len(set(nz)) == len(nz) and nz[0] < m, "entry %s of size %d is not a tri- or pentanomial" % (e, m))
    check(irr_ask(m, e), "polynomial %s of degree %d is reducible" % (e, m))
    if m <= 1500 or m % 16 == 0:
        g = [int(x) for x in drv.get(UNIT).tokens("polygen %d" % m, timeout=120)]
        check(g == [m] + nz + [0], "field of size %d is built with the polynomial %s, not %s" % (m, g, [m] + nz + [0]))
    return ["nontrivial", "pentanomial" if len(nz) == 3 else "trinomial"]


def poly_cases(tier):
    return [{"m": m} for m in range(2, MAXM + 1)]


def run_range(c):
    """Sizes outside of the range are unknown, through the interface and the command alike."""
    m = c["m"]
    t = drv.get(UNIT).tokens("poly %d" % m)
    check((t[0] == "1") == (2 <= m <= MAXM) and (t[1] != "nil") == (2 <= m <= MAXM), "size %d: %s" % (m, t))
    return ["nontrivial"]


def frobenius_order(m, a):
    mu = 1 if a else -1
    v0, v1 = 2, mu
    for _ in range(m - 1):
        v0, v1 = v1, mu * v1 - 2 * v0
    return (1 << m) + 1 - v1


def koblitz(m, a):
    t = drv.get(UNIT).tokens("koblitz %d %d" % (m, a))
    return None if t[0] == "nil" else [int(x) if x.isdigit() else x for x in t]


def koblitz_sizes():
    return {(m, a) for m in range(1, 700) for a in (0, 1) if koblitz(m, a)}


# binary Koblitz curves of cryptographic standards, which the tool promises to know
STANDARD = [(163, 1), (233, 0), (239, 0), (283, 0), (409, 0), (571, 0), (131, 0), (113, 1), (109, 1), (101, 1), (103, 0),
            (107, 0), (107, 1), (277, 0), (283, 1), (311, 1), (331, 1), (347, 1), (349, 0), (359, 1)]


def run_koblitz(c):
    m, a = c["m"], c["a"]
    k = koblitz(m, a)
    if (m, a) in STANDARD:
        check(k, "the known Koblitz curve m=%d a=%d is not found" % (m, a))
    if not k:
        return ["absent"]
    check(k[:2] == [m, a], "looking up (%d,%d) finds %s" % (m, a, k[:2]))
    check(k[2] == frobenius_order(m, a), "Koblitz order m=%d a=%d: %#x, by the recurrence %#x" % (m, a, k[2], frobenius_order(m, a)))
    return ["nontrivial"]


def run_cli(c):
    """The command uses the entry of the table, for fields of every size."""
    m = c["m"]
    e = table_poly(m)
    nz = sorted([x for x in e if x], reverse=True)
    cs, _ = cli.ok_curves(["--f2m", "--points=none", "-r", str(m)], m, 1, seed=c["seed"], cpu=60)
    check(cs[0].m == m and cs[0].e == nz + [0] * (3 - len(nz)), "size %d: printed field %s %s, table %s" % (m, cs[0].m, cs[0].e, nz))
    return ["nontrivial"]


PROP = Prop(
    "C21",
    "a table entry was found and decided (irreducibility by Rabin's test, Koblitz order by the Frobenius recurrence)",
    [Facet("poly", None, run_poly, 0, enum=poly_cases, slow=0),
     Facet("range", lambda: st.builds(lambda m: {"m": m}, st.one_of(st.sampled_from([0, 1, 2, 3, 159, 160, 161, 1999, 2000, 2001, 9999, 10000, 10001]), st.integers(0, 20000))), run_range, 300, 5000, slow=0),
     Facet("koblitz", None, run_koblitz, 0, enum=lambda t: [{"m": m, "a": a} for m in range(0, 700 if t == "quick" else 5000) for a in (0, 1, 2)], slow=0),
     Facet("cli", lambda: st.builds(lambda m, s: {"m": m, "seed": s}, st.integers(3, 170), st.integers(1, 1 << 30)), run_cli, 60, 1500, slow=0)],
    "enumeration of the inputs of the tables (every size 2..10000) with an independent irreducibility test; random sizes through the command",
    "Tables decided entry by entry with an own implementation of Rabin's irreducibility test and of the Frobenius recurrence.",
    builds=[build.cli, lambda: build.driver(UNIT), lambda: build.oracle("irr")])
