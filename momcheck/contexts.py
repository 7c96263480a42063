"""Symbolic arguments for the routines of the package."""
from . import terms as T
from .terms import mk, st, num, TRUE, FALSE, NONE

KINDS = {
    "tc": "str", "zc": "str", "zb": "str", "patm": "num", "rhozero": "num", "gravity": "num", "level": "num",
    "ti": "int", "strict": "bool", "th": "num", "radius": "num",
}


def S(name):
    return mk("sym", name, KINDS[name])


def names(I):
    return I.new_dict({st("t"): S("tc"), st("z"): S("zc"), st("zbounds"): S("zb")})


def args(*pos, **kw):
    """Arguments: each a node, or a function of the interpreter"""

    def b(I):
        f = lambda v: v(I) if callable(v) else v
        return [f(v) for v in pos], {k: f(v) for k, v in kw.items()}

    return b


def arr(name, kind="da"):
    return lambda I: I.sym(name, kind)


def ds(name="ds"):
    return lambda I: I.sym(name, "ds")


def lit(v):
    return T.const(v)


def steric_args(reference=False, **kw):
    opts = dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"))
    opts.update(kw)
    if reference:
        opts["reference"] = ds("ref")
    return args(ds(), **opts)
