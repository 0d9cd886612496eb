"""The facet of a property about one request: made together with others, in every method."""
import importlib
from hypothesis import strategies as st
from .core import Facet, check

# methods which search for a curve have to honour these (a warning does not do)
SEARCH = ("default", "ansi", "twist")
STRICT = {"prime": SEARCH, "cofactor": SEARCH, "smooth": SEARCH, "unique": SEARCH + ("invalid",), "koblitz": ("default", "twist")}


def combined(need, only, quick=320, thorough=6000, table=False):
    c26 = lambda: importlib.import_module("props.c26")

    def judge(c):
        if not any(x in c["opts"] for x in only):
            return []
        l = c26().run(c, only)
        for x in only:
            check(not (x + ":warned" in l and c["meth"] in STRICT.get(x, ())), lambda: "%s is ignored by %s" % (x, c["meth"]))
        if "nontrivial" in l and not any(x.endswith(":honoured") for x in l):
            l.remove("nontrivial")
        return l
    if table:
        return Facet("table", None, judge, 0, enum=lambda tier: [c for c in c26().table(tier) if any(x in c["opts"] for x in only)])
    return Facet("combined", lambda: st.one_of([c26().runs(need=x) for x in need]), judge, quick, thorough)
