from vf import build
from vf.core import Prop
from props import c11

PROP = Prop(
    "C12",
    "prime, coefficients, generator and seed chain were recomputed from a seed by the reference procedure",
    c11.facets(True),
    c11.PROP.technique, c11.PROP.level_note,
    builds=c11.PROP.builds)
