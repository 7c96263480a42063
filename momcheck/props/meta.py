"""C24, C28: declared units against dimensional analysis; encoding and metadata"""
import re
from fractions import Fraction

from .. import terms as T
from .. import catalog, ops
from ..terms import Term, mk, st, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import S, args, arr, ds, names
from ..checks import EOS, pick
from ..values import Obj
from ..views import unmodelled

D = "momlevel.derived."

# --------------------------------------------------------------- dimensions
UNITS = {
    "kg": {"kg": 1}, "m": {"m": 1}, "s": {"s": 1}, "degC": {"K": 1}, "K": {"K": 1}, "PSU": {"S": 1}, "Pa": {"kg": 1, "m": -1, "s": -2},
    "N": {"kg": 1, "m": 1, "s": -2}, "J": {"kg": 1, "m": 2, "s": -2}, "W": {"kg": 1, "m": 2, "s": -3},
    "1": {}, "rad": {}, "radian": {}, "radians": {}, "degree": {}, "degrees": {}, "deg": {}, "degrees_north": {}, "degrees_east": {},
    "meter": {"m": 1}, "meters": {"m": 1}, "metre": {"m": 1}, "metres": {"m": 1}, "second": {"s": 1}, "seconds": {"s": 1}, "sec": {"s": 1},
    "psu": {"S": 1}, "degrees_C": {"K": 1}, "degree_C": {"K": 1}, "degC": {"K": 1}, "celsius": {"K": 1}, "Celsius": {"K": 1}, "Kelvin": {"K": 1}, "kelvin": {"K": 1},
}
# the same dimension on another scale
SCALED = {"cm": ("m", Fraction(1, 100)), "mm": ("m", Fraction(1, 1000)), "km": ("m", Fraction(1000)), "dm": ("m", Fraction(1, 10)),
          "g": ("kg", Fraction(1, 1000)), "dbar": ("Pa", Fraction(10000)), "hPa": ("Pa", Fraction(100)), "kPa": ("Pa", Fraction(1000)),
          "ms": ("s", Fraction(1, 1000)), "h": ("s", Fraction(3600)), "hr": ("s", Fraction(3600)), "day": ("s", Fraction(86400)), "d": ("s", Fraction(86400))}


def clean(d):
    return {k: v for k, v in d.items() if v}


def times(a, b, k=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for u, e in b.items():
        out[u] = out.get(u, 0) + e * k
    return clean(out)


def parse(s):
    """Dimension and scale of a unit string; None: not understood"""
    dim, scale = {}, Fraction(1)
    free = False
    for w in re.split(r"[\s*.·]+", s.strip()):
        if not w:
            continue
        sign = 1
        for i, x in enumerate(w.split("/")):
            if not x:
                continue
            k = -1 if i else 1
            if re.fullmatch(r"10\^?-?\d+|1e-?\d+", x):
                free = True
                continue
            m = re.fullmatch(r"([A-Za-z_]+|1)(?:\^|\*\*)?(-?\d+)?", x)
            if not m:
                return None
            u, e = m.group(1), int(m.group(2) or 1) * k
            if u in SCALED:
                u, f = SCALED[u]
                scale *= f ** e
            if u not in UNITS:
                return None
            dim = times(dim, UNITS[u], e)
    return dim, None if free else scale


def show(d):
    return " ".join(f"{u}{'' if e == 1 else e}" for u, e in sorted(d.items())) or "1"


EOSDIM = {"density": {"kg": 1, "m": -3}, "drho_dtemp": {"kg": 1, "m": -3, "K": -1}, "drho_dsal": {"kg": 1, "m": -3, "S": -1},
          "alpha": {"K": -1}, "beta": {"S": -1}}
FIELDS = {
    "thetao": "degC", "so": "PSU", "tos": "degC", "sos": "PSU", "pres": "Pa", "pso": "Pa", "patm": "Pa", "gravity": "m s-2", "level": "m",
    "n2": "s-2", "rho": "kg m-3", "vol": "m3", "masso": "kg", "volo": "m3", "dz": "m", "c": "m s-1", "f": "s-1", "zeta": "s-1", "lat": "degrees",
    "lon": "degrees", "radius": "m", "rhozero": "kg m-3", "areacello": "m2", "volcello": "m3", "deptho": "m", "uo": "m s-1", "vo": "m s-1",
    "dxCu": "m", "dyCv": "m", "areacello_bu": "m2", "zc": "m", "zb": "m", "rhoga": "kg m-3", "ifc": "m", "z_l": "m", "z_i": "m",
}
PASS = ops.LAYOUT | {"isel", "sel", "ffill", "bfill", "abs", "reset", "onaxis", "copy", "shift", "compute", "load", "astype", "store", "cumsum", "roll", "movedims", "outdims",
                     "clip", "reindex", "interp", "loc", "mkarr", "diff", "unary", "neg"}
SAME = {"max", "min", "maximum", "minimum"}
PLAIN = {"sin", "cos", "tan", "log", "exp", "log10", "arctan", "arcsin", "arccos", "radians", "degrees", "deg2rad", "rad2deg"}


class Clash(Exception):
    pass


def plain(c):
    """A factor without a dimension: a count, a half, a conversion between degrees and radians"""
    c = Fraction(c).limit_denominator(10**12)
    n, d = abs(c.numerator), c.denominator
    if n > 360 or d > 360 or {n, d} & {10, 100}:
        return False
    for p in (2, 3, 5):
        while n % p == 0:
            n //= p
        while d % p == 0:
            d //= p
    return n == d == 1


class Dims:
    """The physical dimension of a node; None where it is not known"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.of(t)
        return self.memo[t]

    def unify(self, parts):
        known = [(d, x) for d, x in parts if d is not None]
        for d, x in known[1:]:
            if d != known[0][0]:
                raise Clash(f"{T.pretty(known[0][1], 3)[:150]} ({show(known[0][0])}) is combined with {T.pretty(x, 3)[:150]} ({show(d)})")
        return known[0][0] if known else None

    def named(self, n):
        return UNITS_OF.get(n)

    def of(self, t):
        op = t.op
        if op == "sym":
            return self.named(t.args[0])
        if op == "pi":
            return {}
        if op in ("num", "nan", "inf"):
            return None
        if op == "item":
            k = t.args[1]
            b = t.args[0]
            while b.op in ops.LAYOUT or b.op in ("isel", "sel", "copy"):
                b = b.args[0]
            if k.op in ("num", "slice", "tuple", "ellipsis"):
                return self(t.args[0])
            if b.op == "dataset":
                return None
            if k.op == "str":
                return self.named(k.args[0])
            if k.op == "sym":
                return self.named(k.args[0])
            return None
        if op == "poly":
            out = []
            logs = {}
            for c, m in t.args[0]:
                d = {}
                for x, e in m:
                    if x.op == "log" and e == 1:
                        # the logarithm of a product is a sum of logarithms
                        g = tuple(y for y in m if y[0] is not x)
                        logs[g] = times(logs.get(g, {}), self.scaled(self(x.args[0]), c))
                        continue
                    dx = self(x)
                    d = times(d, self.scaled(dx, e)) if d is not None else None
                out.append((d if plain(c) else None, mk("poly", ((c, m),))))
            for d in logs.values():
                if d:
                    raise Clash(f"logarithm of a quantity of dimension {show(clean({u: e / max(map(abs, d.values())) for u, e in d.items()}))}")
            return self.unify(out)
        if op == "inv":
            return self.scaled(self(t.args[0]), -1)
        if op == "sqrt":
            return self.scaled(self(t.args[0]), Fraction(1, 2))
        if op == "reduce":
            d = self(t.args[1])
            return d if str(t.args[0]) in ("sum", "mean", "min", "max", "std", "median", "cumsum") else None
        if op in ("where", "ite"):
            return self.unify([(self(t.args[1]), t.args[1]), (self(t.args[2]), t.args[2])])
        if op in SAME:
            return self.unify([(self(x), x) for x in T.children(t)])
        if op == "differentiate":
            x, k = t.args[0], t.args[1]
            return times(self(x), self.named(k.args[0]) if isinstance(k, Term) and k.args else None, -1)
        if op == "gridop":
            d = self(t.args[0])
            return d if t.args[2] in ("interp", "diff") else None
        if op == "eosfn":
            for x in t.args[2:]:
                self(x)
            for x, w in zip(t.args[2:], ("degC", "PSU", "Pa")):
                d = self(x)
                if d is not None and d != UNITS[w]:
                    raise Clash(f"the equation of state gets {T.pretty(x, 3)[:150]} ({show(d)}) where it expects {w}")
            return EOSDIM.get(t.args[1])
        if op in PLAIN:
            d = self(t.args[0])
            if d:
                raise Clash(f"{op} of {T.pretty(t.args[0], 3)[:150]}, which has the dimension {show(d)}")
            return {}
        if op in PASS and t.args and isinstance(t.args[0], Term):
            return self(t.args[0])
        return None

    def scaled(self, d, e):
        if d is None:
            return None
        if isinstance(e, Term):
            if e.op != "num":
                return None if d else {}
            e = e.args[0]
        return clean({u: x * e for u, x in d.items()})


UNITS_OF = {k: parse(v)[0] for k, v in FIELDS.items()}

FINAL = {
    "calc_rho": "kg m-3", "calc_alpha": "degC-1", "calc_beta": "PSU-1", "calc_pdens": "kg m-3", "calc_stability_angle": "degrees", "calc_n2": "s-2",
    "inverse_barometer": "m", "calc_coriolis": "s-1", "calc_spice": "1", "calc_masso": "kg", "calc_volo": "m3", "calc_rhoga": "kg m-3",
    "calc_wave_speed": "m s-1", "calc_rossby_rd": "m", "calc_pv": "m-1 s-1", "calc_rel_vort": "s-1", "standard_grid_cell_area": "m2",
}


def attr_of(I, v, key, which="attrs"):
    """('ok', node) / ('absent', None) / ('open', why) of an entry of .attrs of a value"""
    v = I.resolve(v)
    if not isinstance(v, Obj):
        return "open", None
    d = I.resolve(I.getattr_(v, which))
    if not isinstance(d, Obj) or d.kind != "dict":
        return "open", I.to_term(d)
    r = I.rec(d)
    k = st(key)
    if k in r["items"]:
        g, x = r["items"][k]
        return "ok", I.to_term(x)
    if r["base"] is not None or r["each"]:
        return "open", I.dict_term(d)
    return "absent", None


def c24(ctx):
    ctx.opaque_eos()
    r1 = "the declared units have the dimension that follows from the units of the inputs"
    r2 = "only quantities of the same dimension are added, compared or passed where they belong"
    targets = []
    for c in catalog.calls():
        h = c.label.split("/")[0]
        if h in FINAL and "interfaces" not in c.label and not c.label.endswith("/nd"):
            targets.append((c.label, c, (), FINAL[h]))
        elif h == "steric" and "annual" not in c.label:
            v = c.label.split("/")[2]
            targets.append((c.label + "/" + v, c, (0, v), "m"))
            if "global" in c.label:
                targets.append((c.label + "/reference_height", c, (0, "reference_height"), "m"))
            else:
                targets.append((c.label + "/delta_rho", c, (0, "delta_rho"), "kg m-3"))
            if "derived" in c.label and v == "steric":
                for n, u in (("rho", "kg m-3"), ("masso", "kg"), ("volo", "m3"), ("rhoga", "kg m-3")):
                    targets.append((c.label + "/reference/" + n, c, (1, n), u))
    for key, c, path, expect in targets:
        def go():
            r = ctx.run(c.func, c.build())
            if r.pc is FALSE:
                return
            I = r.at()
            v = r.value
            for p in path:
                v = I.resolve(v)
                try:
                    v = v.items[p] if isinstance(p, int) else I.getitem(v, st(p))
                except (AttributeError, IndexError, KeyError):
                    v = None
                if v is None:
                    ctx.unsure(key, r1, c.func, "not returned")
                    return
            t = I.to_term(v)
            try:
                d = Dims()(t)
            except Clash as e:
                ctx.bad(key + "/sum", r2, c.func, str(e))
                return
            ctx.ok(key + "/sum", r2, c.func, "not inferred" if d is None else show(d))
            want, _ = parse(expect)
            if d is None:
                d = want
            elif d != want:
                ctx.bad(key + "/dimension", r1, c.func, f"the result has the dimension {show(d)}, not {expect}: {T.pretty(t, 4)[:300]}")
                return
            s, u = attr_of(I, v, "units")
            if s == "absent":
                ctx.bad(key, r1, c.func, f"no units are declared ({show(d)} expected)")
                return
            if s != "ok" or u.op != "str":
                ctx.unsure(key, r1, c.func, "units not determined")
                return
            p = parse(u.args[0])
            if p is None:
                ctx.bad(key, r1, c.func, f"units '{u.args[0]}' are not those of the result ({show(d)})")
            elif p[0] != d:
                ctx.bad(key, r1, c.func, f"units '{u.args[0]}' declared for a quantity of dimension {show(d)}")
            elif p[1] is not None and p[1] != 1:
                ctx.bad(key, r1, c.func, f"units '{u.args[0]}' declared for a value computed in {show(d)}")
            else:
                ctx.ok(key, r1, c.func, u.args[0])

        ctx.attempt(key, r1, c.func, go)
    ctx.opaque_eos(False)


# -------------------------------------------------------------------- C28
VARIANTS = ("steric", "thermosteric", "halosteric")


def texts(I, v):
    """The string-valued attributes of a value; None: not known"""
    v = I.resolve(v)
    d = I.resolve(I.getattr_(v, "attrs")) if isinstance(v, Obj) else None
    if not isinstance(d, Obj) or d.kind != "dict":
        return None
    r = I.rec(d)
    if r["base"] is not None or r["each"]:
        return None
    return {k.args[0] if k.op == "str" else T.pretty(k, 2): I.to_term(x) for k, (g, x) in r["items"].items()}


def words(t):
    """The literal text of a string node, its other parts"""
    if t.op == "str":
        return t.args[0].lower(), []
    if t.op == "fmt":
        return " ".join(x.args[0] for x in T.children(t) if x.op == "str").lower(), [x for x in T.children(t) if x.op != "str"]
    return "", [t]


def mentions(ctx, key, rule, func, a, name, others):
    """Some attribute says `name`, none says another one's"""
    if a is None:
        ctx.unsure(key, rule, func, "attributes not determined")
        return
    open_ = False
    said = False
    for k, t in a.items():
        w, rest = words(t)
        open_ = open_ or any(unmodelled(x) is not None or x.op in ("ite", "gelem", "method", "call") for x in rest)
        for o in others:
            if re.search(rf"(?<![a-z]){o}(?![a-z])", w):
                ctx.bad(key, rule, func, f"attribute {k} says '{T.pretty(t, 3)}' for a field computed with {name}")
                return
        said = said or re.search(rf"(?<![a-z]){name}(?![a-z])", w) is not None
    if said:
        ctx.ok(key, rule, func, name)
    elif open_:
        ctx.unsure(key, rule, func, "attributes not determined")
    else:
        ctx.bad(key, rule, func, f"no attribute says {name}: {', '.join(f'{k}={T.pretty(t, 3)}' for k, t in a.items())[:300]}")


def over(t):
    """What an effect in a loop ranges over: (collection, body); None for a single value"""
    return (t.args[0], t.args[3]) if t.op == "each" else None


def never(t, x):
    """A loop over names that does nothing where the input x has the name"""
    b, c = mk("bound", t.args[1]), t.args[2]
    m = {a: TRUE for a in T.subterms(c) if a.op == "in" and a.args[0] is b and a.args[1].op == "attr" and a.args[1].args[0] is x}
    return T.subst(c, m) is FALSE


def c28(ctx):
    dt = mk("sym", "dtype", "str")
    F = "momlevel.steric.steric"
    r1 = "every data variable of the result is marked for output in the requested data type"
    r2 = "the coordinates of the result get the attributes of the input's coordinates"
    r3 = "the description names the equation of state (variant, level) that was used"
    ctx.opaque_eos()
    for domain in ("local", "global"):
        for v in VARIANTS:
            for given in (False, True):
                for annual in (False, True):
                    for dl, dtype in (("requested", dt), ("default", None)):
                        kw = dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"), domain=st(domain), variant=st(v))
                        if dtype is not None:
                            kw["dtype"] = dtype
                        if annual:
                            kw["annual"] = TRUE
                        if given:
                            kw["reference"] = ds("ref")
                        key = f"{domain}/{v}/{'given' if given else 'derived'}{'/annual' if annual else ''}/{dl}"
                        ctx.attempt(key, r1, F, lambda: encoding(ctx, key, r1, r2, r3, F, args(ds(), **kw), v, domain, annual, dtype if dtype is not None else st("float32")))
    for e in EOS:
        o = [x for x in EOS if x != e]
        for f in ("calc_rho", "calc_alpha", "calc_beta"):
            for spell in (e, e.capitalize()):
                key = f"{f}/{spell}"

                def go():
                    r = ctx.run(D + f, args(arr("thetao"), arr("so"), arr("pres"), eos=st(spell)))
                    if r.pc is FALSE:
                        return
                    mentions(ctx, key, r3, D + f, texts(r.at(), r.value), e, o)

                ctx.attempt(key, r3, D + f, go)
        key = f"calc_pdens/{e}"

        def go():
            lv = S("level")
            r = ctx.run(D + "calc_pdens", args(arr("thetao"), arr("so"), level=lv, patm=S("patm"), eos=st(e)))
            a = texts(r.at(), r.value)
            mentions(ctx, key, r3, D + "calc_pdens", a, e, o)
            if a is None:
                return
            wrong = [p for t in a.values() if t.op == "fmt" for p, nxt in zip(t.args, t.args[1:] + (st(""),))
                     if p.op == "poly" and lv in T.subterms(p) and nxt.op == "str" and nxt.args[0].split()[:1] in (["m"], ["meters"], ["metres"])]
            if wrong:
                ctx.bad(key + "/level", r3, D + "calc_pdens", f"the description gives {T.pretty(wrong[0], 3)} m as the reference level")
            elif any(lv in T.subterms(t) for t in a.values()):
                ctx.ok(key + "/level", r3, D + "calc_pdens", "level")
            elif all(t.op == "str" for t in a.values()):
                ctx.bad(key + "/level", r3, D + "calc_pdens", "no attribute gives the reference level: " + ", ".join(f"{k}='{t.args[0]}'" for k, t in a.items())[:300])
            else:
                ctx.unsure(key + "/level", r3, D + "calc_pdens", "attributes not determined")

        ctx.attempt(key, r3, D + "calc_pdens", go)
        # the density of the reference state
        key = f"reference/{e}"

        def go():
            r = ctx.run("momlevel.reference.setup_reference_state", args(ds(), patm=S("patm"), eos=st(e), coord_names=names))
            I = r.at()
            mentions(ctx, key, r3, "momlevel.reference.setup_reference_state", texts(I, I.getitem(r.value, st("rho"))), e, o)

        ctx.attempt(key, r3, "momlevel.reference.setup_reference_state", go)
        # and the one that steric() sets up
        key = f"steric/reference/{e}"

        def go():
            r = ctx.run(F, args(ds(), equation_of_state=st(e), coord_names=names))
            I = r.at()
            mentions(ctx, key, r3, F, texts(I, I.getitem(I.resolve(r.value).items[1], st("rho"))), e, o)

        ctx.attempt(key, r3, F, go)
    ctx.opaque_eos(False)


def encoding(ctx, key, r1, r2, r3, F, build, v, domain, annual, dtype):
    r = ctx.run(F, build)
    if r.pc is FALSE:
        return
    I = r.at()
    res = I.resolve(r.value).items[0]
    vars_ = (v, "reference_height") if domain == "global" else (v, "delta_rho")
    effects = [e for e in r.of("setmeta") if and_(e.pc, r.pc) is not FALSE]
    enc = [e for e in effects if e.data[0] == "encoding"]
    for n in vars_:
        k = f"{key}/{n}"
        x = I.getitem(res, st(n))
        if x is None:
            ctx.unsure(k, r1, F, "not returned")
            continue
        s, t = attr_of(I, x, "dtype", "encoding")
        if s == "ok" and t is dtype:
            ctx.ok(k, r1, F, T.pretty(t, 2))
        elif s == "ok" and unmodelled(t) is None:
            ctx.bad(k, r1, F, f"{n} is marked for output as {T.pretty(t, 3)}, not {T.pretty(dtype, 2)}")
        elif s == "absent" and not annual:
            ctx.bad(k, r1, F, f"{n} has no output data type")
        elif s == "open" and annual:
            # set in a loop over the variables of the averages
            loops = [e for e in enc if over(e.data[1])]
            good = bad = None
            for e in loops:
                w = over(e.data[2])[1] if over(e.data[2]) else e.data[2]
                ks = dict(w.args[1]) if w.op == "dict" else {}
                got = ks.get(st("dtype"))
                good = good or (got is dtype and e)
                if got is not None and got is not dtype and unmodelled(got) is None:
                    bad = got
            if bad is not None:
                ctx.bad(k, r1, F, f"the annual means are marked for output as {T.pretty(bad, 3)}, not {T.pretty(dtype, 2)}")
            elif good:
                ctx.ok(k, r1, F, "in a loop over the data variables")
            elif not enc:
                ctx.bad(k, r1, F, "the annual means are not marked for output in the requested data type")
            elif unmodelled(I.to_term(x)) is None and not any(e.data[1].op != "sym" and T.is_array(e.data[1]) and contains_concat(e.data[1]) for e in enc):
                ctx.bad(k, r1, F, "the annual means are not marked for output in the requested data type")
            else:
                ctx.unsure(k, r1, F, "encoding not determined")
        else:
            ctx.unsure(k, r1, F, "encoding not determined")
    # coordinates
    src = mk("sym", "ds", "ds")
    loops = [e for e in effects if e.data[0] == "attrs" and over(e.data[1])]
    if not loops:
        if not any(e.data[0] == "attrs" and contains_coords(e.data[1]) for e in effects):
            ctx.bad(key + "/coords", r2, F, "no attributes are given to the coordinates of the result")
        else:
            ctx.unsure(key + "/coords", r2, F, "not in a loop over the coordinates")
    else:
        found = wrong = None
        for e in loops:
            b = over(e.data[2])
            body = b[1] if b else e.data[2]
            if b and never(e.data[2], src):
                wrong = wrong or (e, None)
                continue
            for a in [x for x in T.subterms(body) if x.op == "attr" and x.args[1] == "attrs"]:
                i = a.args[0]
                if i.op == "item" and base(i.args[0]) is src:
                    if i.args[1].op in ("bound", "var") or i.args[1].op not in ("str", "sym"):
                        found = e
                    else:
                        wrong = (e, a)
        if found:
            ctx.ok(key + "/coords", r2, F, f"line {found.loc[2]}")
        elif wrong:
            what = "gives no attributes to a coordinate the input has" if wrong[1] is None else f"gives every coordinate the attributes {T.pretty(wrong[1], 3)}"
            ctx.bad(key + "/coords", r2, F, f"line {wrong[0].loc[2]} {what}")
        elif annual:
            # only the copying inside the annual average is left
            ctx.bad(key + "/coords", r2, F, "no attributes of the input's coordinates are given to the result")
        else:
            ctx.unsure(key + "/coords", r2, F, "attributes not determined")
    # the variant
    if not annual:
        x = I.getitem(res, st(v))
        a = texts(I, x) if x is not None else None
        mentions(ctx, key + "/name", r3, F, a, v, [o for o in VARIANTS if o != v])


def base(t):
    while t.op in ("rename", "copy", "chunk", "assign_coords", "transpose"):
        t = t.args[0]
    return t


def contains_concat(t):
    return any(x.op == "concat" for x in T.subterms(t))


def contains_coords(t):
    return any(x.op == "attr" and x.args[1] in ("coords", "dims") for x in T.subterms(t))
