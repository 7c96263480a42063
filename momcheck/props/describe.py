"""C32: results describe themselves"""
from .. import terms as T
from .. import catalog
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import S, args, arr, ds
from ..values import Obj
from ..views import unmodelled

D, TR, U, TG, P = "momlevel.derived.", "momlevel.trend.", "momlevel.util.", "momlevel.tidegauge.", "specs.names."
ABSENT = st("<absent>")
PROBE = mk("sym", "other attribute", "str")

# what a diagnostic calls itself
SELF = {
    "calc_rho": {"standard_name": "sea_water_density", "long_name": "In situ sea water density"},
    "calc_alpha": {"long_name": "Thermal expansion coefficient"},
    "calc_beta": {"long_name": "Haline contraction coefficient"},
    "calc_pdens": {"standard_name": "sea_water_potential_density", "long_name": T.fmt([st("Sea water potential density referenced to "), S("level"), st(" m")])},
    "calc_stability_angle": {"long_name": "Stability angle"},
    "calc_n2": {"standard_name": "square_of_brunt_vaisala_frequency_in_sea_water", "long_name": "Square of seawater buoyancy frequency"},
    "inverse_barometer": {"long_name": "Inverse Barometer Height"},
    "calc_coriolis": {"standard_name": "coriolis_parameter", "long_name": "Coriolis parameter"},
    "calc_spice": {"long_name": "Sea water spiciness"},
    "calc_masso": {"standard_name": "sea_water_mass", "long_name": "Sea Water Mass"},
    "calc_volo": {"standard_name": "sea_water_volume", "long_name": "Sea Water Volume"},
    "calc_rhoga": {"long_name": "Global Average Sea Water Density"},
    "calc_wave_speed": {"long_name": "Ocean gravity wave speed of the first baroclinic mode"},
    "calc_rossby_rd": {"long_name": "Rossby radius of deformation"},
    "calc_pv": {"long_name": "Ocean potential vorticity"},
    "calc_rel_vort": {"standard_name": "ocean_relative_vorticity", "long_name": "Ocean relative vorticity"},
    "standard_grid_cell_area": {"standard_name": "cell_area", "long_name": "area of grid cell"},
}
# further entries a diagnostic has; the others' attributes are not its own
OWN = {"units", "comment", "long_name", "standard_name"}
NAME = {"calc_stability_angle": st("tu_angle"), "inverse_barometer": st("ibh"), "calc_coriolis": NONE, "calc_rossby_rd": NONE, "standard_grid_cell_area": st("cell_area")}


def entry(I, d, k):
    """The entry k of a dictionary, ABSENT where it has none"""
    from ..values import Choice

    d = I.resolve(d)
    if isinstance(d, Choice):
        return T.ite(d.cond, entry(I, d.a, k), entry(I, d.b, k))
    if isinstance(d, Obj) and d.kind == "dict":
        return I.to_term(I.dict_get(d, k, default=ABSENT))
    t = I.to_term(d)
    if t.op == "dictmerge":
        out = None
        for p in t.args:
            v = T.ite(mk("in", k, mk("keys", p)), mk("item", p, k), ABSENT)
            out = v if out is None else T.ite(mk("in", k, mk("keys", p)), mk("item", p, k), out)
        return out
    return T.ite(T.member(k, mk("keys", t)), mk("item", t, k), ABSENT)


def keys_of(I, d):
    from ..values import Choice

    d = I.resolve(d)
    if isinstance(d, Choice):
        return keys_of(I, d.a) | keys_of(I, d.b)
    if isinstance(d, Obj) and d.kind == "dict":
        r = I.rec(d)
        return {k for k in r["items"]} | set(r.get("removed", ()))
    return set()


def attrs_of(I, v):
    return I.getattr_(I.resolve(v), "attrs")


def compare(ctx, key, rule, func, r, v, s, skip=(), cond=TRUE):
    """Entry by entry, the attributes of v (a value of run r) are the dictionary
    returned by s; PROBE stands for every entry named by neither"""
    I = r.at()
    a = attrs_of(I, v)
    keys = keys_of(I, a)
    J = s.at()
    keys = sorted({k for k in keys | keys_of(J, s.value) if k.op == "str"}, key=lambda k: k.args[0])
    for k in keys + [PROBE]:
        if k.op == "str" and k.args[0] in skip:
            continue
        I = r.at()
        got = entry(I, a, k)
        J = s.at()
        want = entry(J, s.value, k)
        c = and_(cond, r.pc, s.pc)
        if k is PROBE:
            c = and_(c, *[not_(T.eq(PROBE, x)) for x in keys])
        ctx.same(f"{key}/{'others' if k is PROBE else k.args[0]}", rule, func, got, want, c, what=f"attribute {'of any other name' if k is PROBE else k.args[0]}")


def c32(ctx):
    ctx.opaque_eos()
    r1 = "a diagnostic carries the names of the quantity it is, and no attribute of its inputs"
    r2 = "what is made from a field carries the field's attributes, changed only where the meaning changes"
    r3 = "the name of a result is its own"

    def inherited(key, func, r, a, more):
        """None of the entries a diagnostic has is taken from an input"""
        for k in sorted(OWN | more):
            t = T.assume(entry(r.at(), a, st(k)), r.pc)
            src = [x for x in T.subterms(t) if x.op == "attr" and x.args[1] == "attrs"]
            if src:
                ctx.bad(f"{key}/{k}/inherited", r1, func, f"the attribute {k} depends on {T.pretty(src[0], 3)}")
            else:
                ctx.ok(f"{key}/{k}/inherited", r1, func, f"the attribute {k} is its own")

    for c in catalog.calls():
        h = c.label.split("/")[0]
        if h not in SELF or c.label.endswith("/nd"):
            continue

        def go():
            r = ctx.run(c.func, c.build())
            if r.pc is FALSE:
                return
            I = r.at()
            a = attrs_of(I, r.value)
            for k, w in SELF[h].items():
                I = r.at()
                ctx.same(f"{c.label}/{k}", r1, c.func, entry(I, a, st(k)), w if isinstance(w, T.Term) else st(w), r.pc, what=f"attribute {k}")
            more = sorted(k.args[0] for k in keys_of(r.at(), a) if k.op == "str" and k.args[0] not in OWN)
            I = r.at()
            rest = and_(r.pc, *[not_(T.eq(PROBE, st(k))) for k in OWN | set(more)])
            ctx.same(f"{c.label}/others", r1, c.func, entry(I, a, PROBE), ABSENT, rest, what="any other attribute")
            inherited(c.label, c.func, r, a, set(more))
            if h in NAME:
                I = r.at()
                ctx.same(f"{c.label}/name", r3, c.func, I.to_term(I.getattr_(I.resolve(r.value), "name")), NAME[h], r.pc, what="name")

        ctx.attempt(c.label, r1, c.func, go)
    # steric heights and what goes with them, and the reference state
    ST, RF = "momlevel.steric.steric", "momlevel.reference.setup_reference_state"

    def own(key, func, r, v, names):
        a = attrs_of(r.at(), v)
        for k, w in names.items():
            ctx.same(f"{key}/{k}", r1, func, entry(r.at(), a, st(k)), st(w), r.pc, what=f"attribute {k}")
        more = sorted(k.args[0] for k in keys_of(r.at(), a) if k.op == "str" and k.args[0] not in OWN)
        rest = and_(r.pc, *[not_(T.eq(PROBE, st(k))) for k in OWN | set(more)])
        ctx.same(f"{key}/others", r1, func, entry(r.at(), a, PROBE), ABSENT, rest, what="any other attribute")
        inherited(key, func, r, a, set(more))

    for domain in ("local", "global"):
        for v in ("steric", "thermosteric", "halosteric"):
            for given in (False, True):
                key = f"{domain}/{v}/{'given' if given else 'derived'}"

                def go():
                    kw = {"reference": ds("ref")} if given else {}
                    r = ctx.run(ST, args(ds(), variant=st(v), domain=st(domain), **kw))
                    if r.pc is FALSE:
                        return
                    for n, w in ((v, f"{v.capitalize()} height adjustment"),
                                 ("delta_rho", "change in in situ density from reference state") if domain == "local" else ("reference_height", "Reference column height")):
                        I = r.at()
                        own(f"{key}/{n}", ST, r, I.getitem(I.resolve(r.value).items[0], st(n)), {"long_name": w})

                ctx.attempt(key, r1, ST, go)

    def reference():
        r = ctx.run(RF, args(ds()))
        for n, h in (("rho", "calc_rho"), ("volo", "calc_volo"), ("masso", "calc_masso"), ("rhoga", "calc_rhoga")):
            I = r.at()
            own(f"reference/{n}", RF, r, I.getitem(I.resolve(r.value), st(n)), SELF[h])
        for n in ("thetao", "so", "volcello", "areacello"):
            I = r.at()
            a = attrs_of(I, I.getitem(I.resolve(r.value), st(n)))
            x = mk("attr", mk("item", mk("sym", "ds", "ds"), st(n)), "attrs")
            ctx.same(f"reference/{n}", r2, RF, entry(r.at(), a, PROBE), T.ite(T.member(PROBE, mk("keys", x)), mk("item", x, PROBE), ABSENT), r.pc, what="any attribute")

    ctx.attempt("reference", r1, RF, reference)
    ctx.opaque_eos(False)
    # what is made from a field
    X, tc = mk("sym", "x", "da"), S("tc")
    field = lambda f, *more, x="x": ctx.run(P + f, args(arr(x), *more))

    def seasonal():
        F = TR + "seasonal_model"
        for both in (True, False):
            for dim in (tc, None):
                kw = {"tcoord": dim} if dim is not None else {}
                lab = f"seasonal_model/{'names' if dim is not None else 'default'}/{'both' if both else 'residuals'}"
                r = ctx.run(F, args(arr("x"), return_model=TRUE if both else FALSE, **kw))
                I = r.at()
                v = I.resolve(r.value)
                parts = list(v.items) if both else [None, v]
                for p, what, short in zip(parts, ("Seasonal model", "Seasonal residuals"), ("smodel", "sresid")):
                    if p is not None:
                        compare(ctx, f"{lab}/{short}", r2, F, r, p, field("seasonal", st(what), st(short)))

    ctx.attempt("seasonal_model", r2, TR + "seasonal_model", seasonal)

    def deseason():
        F = TR + "deseason"
        for fmt, spec, suffix, doing in (
            ("residuals", "fitted", " residuals from detrending and deseasonalizing", "Residuals from detrending and deseasonalizing"),
            (None, "fitted", " residuals from detrending and deseasonalizing", "Residuals from detrending and deseasonalizing"),
            ("model", "fitted", " model of linear trend and seasonal cycle", "Model of linear trend and seasonal cycle"),
            ("coeff", "coefficients", " seasonal model polynomial coefficients", "Seasonal model polynomial coefficients"),
        ):
            r = ctx.run(F, args(arr("x"), tdim=tc, **({"output_format": st(fmt)} if fmt else {})))
            compare(ctx, f"deseason/{fmt or 'default'}", r2, F, r, r.value, field(spec, st(suffix), st(doing)))
            I = r.at()
            ctx.same(f"deseason/{fmt or 'default'}/name", r3, F, I.to_term(I.getattr_(I.resolve(r.value), "name")), mk("attr", X, "name"), r.pc, what="name")

    ctx.attempt("deseason", r2, TR + "deseason", deseason)

    def trend():
        F = TR + "calc_linear_trend"
        for lab, kw in (("units", dict(dim=tc, time_units=mk("sym", "tu", "str"))), ("names", dict(dim=tc)), ("default", {})):
            r = ctx.run(F, args(arr("x"), **kw))
            for part, comment, skip in (("slope", "Slope of linear trend", ("units",)), ("intercept", "Y-intercept of linear trend", ())):
                n = field(part + "_name").term()
                I = r.at()
                key = f"calc_linear_trend/{lab}/{part}"
                out = I.resolve(r.value)
                rec = I.rec(out) if isinstance(out, Obj) and out.kind == "ds" else {"items": {}, "base": NONE}
                if n not in rec["items"]:
                    plain = rec["base"] is None and not rec.get("each") and all(k.op in ("fmt", "str") for k in rec["items"])
                    (ctx.bad if plain else ctx.unsure)(key, r3, F, f"no variable {T.pretty(n, 3)} in the result")
                    continue
                ctx.ok(key, r3, F, T.pretty(n, 3))
                I = r.at()
                compare(ctx, key, r2, F, r, I.getitem(r.value, n), field("trend_part", st(comment)), skip)

    ctx.attempt("calc_linear_trend", r2, TR + "calc_linear_trend", trend)

    def parts():
        # the variables and coordinates of annual means, one by one
        F = U + "annual_average"
        for kind, need in (("da", ("coords",)), ("ds", ("variables", "data_vars"))):
            x = mk("sym", "x", kind)
            r = ctx.run(F, args(lambda I: I.sym("x", kind), tcoord=tc))
            key = f"annual_average/{'array' if kind == 'da' else 'dataset'}/parts"
            last, other = {}, False
            for e in r.of("setmeta"):
                if e.data[0] != "attrs" or and_(e.pc, r.pc) is FALSE:
                    continue
                whom, what = e.data[1], e.data[2]
                if whom.op != "each" or whom.args[0].op != "attr":
                    other = other or whom.op == "each"
                    continue
                n = whom.args[0].args[1]
                c, v, own = every(what, x)
                c = and_(c, every(whom, x)[0])
                if c is FALSE:
                    continue
                elif v is own:
                    last[n] = (None, "")
                elif unmodelled(v) is None and c is TRUE:
                    last[n] = (ctx.bad, f"line {e.loc[2]}: the {n} of the result get {T.pretty(v, 3)[:150]} where the input has them")
                else:
                    last[n] = (ctx.unsure, T.pretty(v, 3)[:150])
            verdict = next((v for v in last.values() if v[0] is not None), None)
            if verdict is None and not set(last) & set(need):
                verdict = (ctx.bad if not other and not (last and r.of("attrcall")) else ctx.unsure, f"no attributes are given to the {need[0]} of the result")
            if verdict:
                verdict[0](key, r2, F, verdict[1])
            else:
                ctx.ok(key, r2, F, ", ".join(sorted(last)))

    ctx.attempt("annual_average/parts", r2, U + "annual_average", parts)

    def others():
        F = U + "annual_average"
        r = ctx.run(F, args(arr("x"), tcoord=tc))
        compare(ctx, "annual_average/array", r2, F, r, r.value, field("same"))
        F = TR + "linear_detrend"
        for mode in ("remove", "correct"):
            r = ctx.run(F, args(arr("x"), dim=tc, mode=st(mode)))
            compare(ctx, f"linear_detrend/{mode}", r2, F, r, r.value, field("same"), ("detrend_comment",))
            got = entry(r.at(), attrs_of(r.at(), r.value), st("detrend_comment"))
            if any(x.op == "str" and mode in x.args[0] for x in T.subterms(got)):
                ctx.ok(f"linear_detrend/{mode}/detrend_comment", r2, F)
            else:
                (ctx.bad if unmodelled(got) is None else ctx.unsure)(f"linear_detrend/{mode}/detrend_comment", r2, F, f"does not say how it was detrended, but {T.pretty(got, 3)[:150]}")
        F = D + "adjust_negative_n2"
        r = ctx.run(F, args(arr("n2"), zcoord=S("zc")))
        compare(ctx, "adjust_negative_n2", r2, F, r, r.value, field("adjusted", x="n2"))
        F = TG + "extract_point"
        row = lambda I: I.sym("row", "dict")
        r = ctx.run(F, args(arr("x"), row))
        compare(ctx, "extract_point", r2, F, r, r.value, field("station", row))
        I = r.at()
        ctx.same("extract_point/name", r3, F, I.to_term(I.getattr_(I.resolve(r.value), "name")), mk("item", mk("sym", "row", "dict"), st("name")), r.pc, what="name")
        F = U + "tile_nominal_coords"
        r = ctx.run(F, args(arr("x"), arr("y")))
        I = r.at()
        for p, n in zip(I.resolve(r.value).items, ("geolon", "geolat")):
            I = r.at()
            ctx.same(f"tile_nominal_coords/{n}/name", r3, F, I.to_term(I.getattr_(I.resolve(p), "name")), st(n), r.pc, what="name")

    ctx.attempt("others", r2, U + "annual_average", others)


def every(t, x):
    """What a loop over names gives where the input x has the name: when, what,
    and the attributes x has for it"""
    if t.op != "each":
        return TRUE, t, NONE
    b = mk("bound", t.args[1])
    c, t = t.args[2], t.args[3]
    m = {a: TRUE for a in T.subterms(mk("tuple", c, t)) if a.op == "in" and a.args[0] is b and a.args[1].op == "attr" and a.args[1].args[0] is x}
    return T.subst(c, m), T.subst(t, m), mk("attr", mk("item", x, b), "attrs")
