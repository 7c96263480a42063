"""C14: the caller's names replace the default names everywhere"""
from .. import terms as T
from ..terms import Term, mk, st, TRUE, FALSE, NONE, and_, or_, not_
from ..values import TupleVal
from ..contexts import S, args, arr, ds
from ..checks import EOS
from ..views import View, unmodelled, compare, localise

D, U, TR, TG = "momlevel.derived.", "momlevel.util.", "momlevel.trend.", "momlevel.tidegauge."
ST = "momlevel.steric."


def name(n):
    return mk("sym", n, "str")


def sym(n, kind):
    return lambda I: I.sym(n, kind)


TC, ZC, ZB = S("tc"), S("zc"), S("zb")
TIME, ZL, ZI = st("time"), st("z_l"), st("z_i")
GRID = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}


def mapping(**kw):
    """A dictionary of names"""
    return lambda I: I.new_dict({st(k): v for k, v in kw.items()})


def pair(a, b):
    return lambda I: TupleVal([a, b])


class Case:
    """func with names given (kw, names: {symbol: default})"""

    def __init__(self, label, func, pos, kw, names, more=None, assume=TRUE):
        self.label, self.func, self.pos, self.kw, self.names = label, func, pos, kw, names
        self.more = more or {}
        self.assume = assume


def cases():
    out = []

    def add(*a, **k):
        out.append(Case(*a, **k))

    T2, T3 = [arr("thetao"), arr("so")], [arr("thetao"), arr("so"), arr("pres")]
    z = {ZC: ZL}
    t = {TC: TIME}
    for e in EOS:
        for g in (False, True):
            add(f"calc_n2/{e}{'/interfaces' if g else ''}", D + "calc_n2", T2, dict(zcoord=ZC), z, dict(eos=st(e), **(dict(interfaces=arr("ifc")) if g else {})))
        add(f"calc_stability_angle/{e}", D + "calc_stability_angle", T3, dict(zcoord=ZC), z, dict(eos=st(e)))
    add("calc_n2/adjusted", D + "calc_n2", T2, dict(zcoord=ZC), z, dict(adjust_negative=TRUE))
    add("adjust_negative_n2", D + "adjust_negative_n2", [arr("n2")], dict(zcoord=ZC), z)
    add("calc_wave_speed", D + "calc_wave_speed", [arr("n2"), arr("dz")], dict(zcoord=ZC), z)
    add("calc_masso", D + "calc_masso", [arr("rho"), arr("vol")], dict(tcoord=TC), t)
    grid = {name(v): st(v2) for v, v2 in GRID.items()}
    cd = mapping(**{k: name(k) for k in GRID})
    for s in (TRUE, FALSE):
        sl = "symmetric" if s is TRUE else "plain"
        add(f"calc_rel_vort/{sl}", D + "calc_rel_vort", [ds()], dict(coord_dict=cd), grid, dict(symmetric=s))
        add(f"calc_pv/{sl}", D + "calc_pv", [arr("zeta"), arr("f"), arr("n2")], dict(coord_dict=cd), grid, dict(symmetric=s))
    full = {TC: TIME, ZC: ZL, ZB: ZI}
    maps = {
        "all": mapping(t=TC, z=ZC, zbounds=ZB), "t": mapping(t=TC), "z": mapping(z=ZC), "zbounds": mapping(zbounds=ZB), "t,z": mapping(t=TC, z=ZC),
        "z,zbounds": mapping(z=ZC, zbounds=ZB), "t,zbounds": mapping(t=TC, zbounds=ZB),
    }
    keys = {"t": TC, "z": ZC, "zbounds": ZB}
    for ml, m in maps.items():
        own = full if ml == "all" else {keys[k]: full[keys[k]] for k in ml.split(",")}
        add(f"setup_reference_state/{ml}", "momlevel.reference.setup_reference_state", [ds()], dict(coord_names=m), own)
        add(f"default_coords/{ml}", U + "default_coords", [], dict(coord_names=m), own)
        for dom in ("local", "global"):
            for v in ("steric", "thermosteric", "halosteric"):
                if ml != "all" and v != "steric":
                    continue
                for ref in (False, True):
                    kw = dict(variant=st(v), domain=st(dom))
                    if ref:
                        kw["reference"] = ds("ref")
                    add(f"steric/{ml}/{dom}/{v}/{'given' if ref else 'derived'}", ST + "steric", [ds()], dict(coord_names=m), own, kw)
    for dom in ("local", "global"):
        add(f"steric/annual/{dom}", ST + "steric", [ds()], dict(coord_names=maps["all"]), full, dict(annual=TRUE, domain=st(dom), reference=ds("ref")))
        for f in ("thermosteric", "halosteric"):
            add(f"{f}/{dom}", ST + f, [ds()], dict(coord_names=maps["all"]), full, dict(domain=st(dom)))
    for k in ("da", "ds"):
        for f in ("annual_average", "monthly_average", "annual_cycle"):
            add(f"{f}/{k}", U + f, [sym("x", k)], dict(tcoord=TC), t)
        for g in ("min", "max", "std"):
            add(f"annual_cycle/{k}/{g}", U + "annual_cycle", [sym("x", k)], dict(tcoord=TC), t, dict(func=st(g)))
        add(f"annual_cycle/{k}/year", U + "annual_cycle", [sym("x", k)], dict(tcoord=TC), t, dict(time_axis_year=mk("sym", "year", "int")))
        for m in ("remove", "correct"):
            add(f"linear_detrend/{k}/{m}", TR + "linear_detrend", [sym("x", k)], dict(dim=TC), t, dict(mode=st(m)))
    add("calc_linear_trend", TR + "calc_linear_trend", [arr("x")], dict(dim=TC), t)
    add("calc_linear_trend/units", TR + "calc_linear_trend", [arr("x")], dict(dim=TC), t, dict(time_units=st("yr")))
    add("seasonal_model", TR + "seasonal_model", [arr("x")], dict(tcoord=TC), t)
    add("seasonal_model/model", TR + "seasonal_model", [arr("x")], dict(tcoord=TC), t, dict(return_model=TRUE))
    for o in ("residuals", "model", "coeff"):
        add(f"deseason/{o}", TR + "deseason", [arr("x")], dict(tdim=TC), t, dict(output_format=st(o)))
    my, mx, ly, lx = name("my"), name("mx"), name("ly"), name("lx")
    apart = and_(not_(T.eq(my, mx)), not_(T.eq(ly, lx)))
    for th in ({}, dict(threshold=S("th"))):
        for a in (TRUE, FALSE):
            l = f"geolocate_points/{'masked' if a is TRUE else 'all'}{'/threshold' if th else ''}"
            add(l, U + "geolocate_points", [sym("model", "df"), sym("locs", "df")], dict(model_coords=pair(my, mx), loc_coords=pair(ly, lx)),
                {my: st("geolat"), mx: st("geolon"), ly: st("lat"), lx: st("lon")}, dict(apply_mask=a, **th), apart)
    xn, yn = name("xn"), name("yn")
    flat1 = lambda n: T.eq(mk("len", mk("attr", mk("item", mk("sym", "x", "da"), n), "dims")), T.ONE)
    for m in ({}, dict(mask=arr("mask"))):
        # one-dimensional axes are given names of their own when they are tiled
        add(f"extract_tidegauge{'/mask' if m else ''}", TG + "extract_tidegauge", [arr("x")], dict(xcoord=xn, ycoord=yn), {xn: st("geolon"), yn: st("geolat")}, m,
            and_(not_(flat1(xn)), not_(flat1(yn))))
    return out


def literal(t, words):
    """A use of one of the words in the node, other than for validation"""
    bad = {w.args[0]: w for w in words}
    for x in T.subterms(t):
        if x.op == "eq" and any(y.op == "str" for y in x.args) and any(y.op in ("meth", "lower") for y in x.args):
            continue  # a name compared without regard to case: the check of the reference
        for a in x.args:
            for y in flat(a):
                if isinstance(y, Term) and y.op == "str" and y.args[0].split(".")[0] in bad:
                    return x, y.args[0]
                if isinstance(y, str) and x.op in ("attr", "dt", "meth") and y in bad:
                    return x, y
    return None


def flat(a):
    if isinstance(a, tuple):
        for y in a:
            yield from flat(y)
    else:
        yield a


def result(r):
    return r.at().to_term(r.value)


def c14(ctx):
    ctx.opaque_eos()
    for c in cases():
        key = c.label
        rule = "the caller's name wherever the default would be used"

        def go():
            r = ctx.run(c.func, args(*c.pos, **c.kw, **c.more), c.assume)
            s = ctx.run(c.func, args(*c.pos, **c.more))
            if r.pc is FALSE:
                ctx.bad(key, rule, c.func, "never returns with the caller's names")
                return
            got, want = result(r), result(s)
            u = literal(got, c.names.values()) or literal(r.pc, c.names.values())
            if u is not None:
                ctx.bad(key + "/literal", rule, c.func, f"uses the name '{u[1]}' although the caller gives another: {T.pretty(u[0], 4)[:300]}")
                return
            back = {a: b for a, b in c.names.items()}
            ctx.same(key + "/same", rule, c.func, T.renorm(T.subst(got, back)), T.renorm(want), and_(T.renorm(T.subst(r.pc, back)), s.pc))
            ctx.ok(key + "/literal", rule, c.func)

        ctx.attempt(key, rule, c.func, go)
