"""C11, C21, C22, C23: stratification, vorticity, mass"""
from .. import terms as T
from .. import ops
from ..terms import mk, st, num, TRUE, FALSE, NONE, ZERO, and_, or_, not_
from ..checks import EOS, pick
from ..contexts import S, names, args, arr, ds, lit
from ..views import View, unmodelled, compare
from . import steric as ST

D = "momlevel.derived."
P = "specs.strat."
LEADING = "uses the first element of the leading dimension as the surface"


def either(ctx, key, rule, func, build, good, finding, sbuild=None):
    """The result is that of `good`; that of `finding` is reported as the known deviation."""

    def go():
        r = ctx.run(func, build)
        if r.pc is FALSE:
            ctx.bad(key, rule, func, "never returns")
            return
        view = View()
        a = view(r.term())
        f = view(ctx.run(finding, sbuild or build).term())
        if not compare(a, f, r.pc):
            ctx.bad(key, rule, func, LEADING)
            return
        g = ctx.run(good, sbuild or build)
        ctx.same(key, rule, func, r.term(), g.term(), r.pc, view)

    ctx.attempt(key, rule, func, go)


# -------------------------------------------------------------------- C11
def c11(ctx):
    ctx.opaque_eos()
    r1 = "delta_rho is missing exactly where the reference volume is"
    r2 = "the sea level is missing exactly where the surface reference volume is"
    view = View()
    R = mk("item", mk("sym", "ref", "ds"), st("volcello"))
    zc = S("zc")
    surface = mk("isel", R, ((zc, ZERO),), ())
    for variant in ST.VARIANTS:
        for eos in EOS:
            key = f"local/{variant}/{eos}"

            def go():
                r = ST.result(ctx, "local", variant, eos, True)
                I = r.at()
                for lab, t, keep, rule in (
                    ("delta_rho", pick(0, "delta_rho")(I, r.value), R, r1),
                    ("sea level", pick(0, variant)(I, r.value), surface, r2),
                ):
                    missing(ctx, f"{key}/{lab}", rule, ST.F, view(t), keep, r.pc)

            ctx.attempt(key, r1, ST.F, go)
    r3 = "missing values stay missing, positive ones stay, others take the nearest positive value above, 1e-8 at the surface"
    either(ctx, "adjust", r3, D + "adjust_negative_n2", args(arr("n2"), zcoord=S("zc")), P + "adjust", P + "adjust_leading")
    either(ctx, "adjust/default", r3, D + "adjust_negative_n2", args(arr("n2")), P + "adjust_default", P + "adjust_leading_default")
    r4 = "the wave speed is missing exactly where the buoyancy frequency is missing at the surface"
    key, func = "wave speed", D + "calc_wave_speed"

    def go():
        n2 = mk("sym", "n2", "da")
        r = ctx.run(func, args(arr("n2"), arr("dz"), zcoord=S("zc")))
        t = view(r.term())
        lead = mk("item", n2, ZERO)
        got = ops.isnull(t)
        if only(got, [lead]) is ops.isnull(lead):
            ctx.bad(key, r4, func, LEADING)
            return
        missing(ctx, key, r4, func, t, mk("isel", n2, ((zc, ZERO),), ()), r.pc)

    ctx.attempt(key, r4, func, go)
    ctx.opaque_eos(False)


def only(c, keep):
    """c with no missing values but those of the arrays in keep"""
    ks = {ops.isnull(k) for k in keep}
    for _ in range(6):
        left = [a for a in T.atoms_of(c) if a.op == "isnull" and a not in ks]
        if not left:
            break
        for a in left:
            c = T.restrict(c, a, False)
    return c


def missing(ctx, key, rule, func, t, keep, pc):
    got = only(ops.isnull(t), [keep])
    want = ops.isnull(keep)
    d = and_(pc, T.ite(got, not_(want), want))
    d = only(d, [keep])
    if d is FALSE:
        ctx.ok(key, rule, func, T.pretty(want, 4))
    elif unmodelled(got) is not None:
        ctx.unsure(key, rule, func, "contains operations without a model")
    else:
        ctx.bad(key, rule, func, f"missing where {T.pretty(got, 6)[:400]} ; expected {T.pretty(want, 6)[:300]}")


# -------------------------------------------------------------------- C21
def c21(ctx):
    ctx.opaque_eos()
    rn = "N2 = gravity * (alpha dT/dz - beta dS/dz)"
    T2 = [arr("thetao"), arr("so")]
    for eos in EOS:
        kw = dict(eos=st(eos), gravity=S("gravity"), patm=S("patm"), zcoord=S("zc"))
        ctx.against(f"n2/{eos}", rn, D + "calc_n2", P + "n2", args(*T2, **kw))
        ctx.against(f"n2/{eos}/interfaces", rn, D + "calc_n2", P + "n2_interfaces", args(*T2, **dict(kw, interfaces=arr("ifc"))))
        either(ctx, f"n2/{eos}/adjusted", rn, D + "calc_n2", args(*T2, **dict(kw, adjust_negative=TRUE)), P + "n2_adjusted",
               P + "n2_adjusted_leading", sbuild=args(*T2, **kw))
        ctx.against(f"stability/{eos}", "angle = arctan((1+R)/(1-R)) in degrees", D + "calc_stability_angle", P + "stability_angle",
                    args(*T2, arr("pres"), eos=st(eos), zcoord=S("zc")))
        ctx.against(f"inverse barometer/{eos}", "height = -p / (rho g)", "momlevel.dynamic.inverse_barometer", P + "inverse_barometer",
                    args(arr("tos"), arr("sos"), arr("pso"), gravity=S("gravity"), equation_of_state=st(eos)))
    ctx.against("n2/default", rn, D + "calc_n2", P + "n2_default", args(*T2))
    ctx.against("stability/default", "angle = arctan((1+R)/(1-R)) in degrees", D + "calc_stability_angle", P + "stability_angle_default", args(*T2, arr("pres")))
    ctx.against("inverse barometer/default", "height = -p / (rho g)", "momlevel.dynamic.inverse_barometer", P + "inverse_barometer_default",
                args(arr("tos"), arr("sos"), arr("pso")))
    ctx.against("rossby", "radius = wave speed / |f|", D + "calc_rossby_rd", P + "rossby_rd", args(arr("c"), arr("f")))
    rw = "wave speed = sum over the column of N dz / pi"
    either(ctx, "wave speed", rw, D + "calc_wave_speed", args(arr("n2"), arr("dz"), zcoord=S("zc")), P + "wave_speed", P + "wave_speed_leading")
    either(ctx, "wave speed/default", rw, D + "calc_wave_speed", args(arr("n2"), arr("dz")), P + "wave_speed_default", P + "wave_speed_leading_default")
    ctx.opaque_eos(False)


# -------------------------------------------------------------------- C22
FIELDS = dict(u="uo", v="vo", dx="dxCu", dy="dyCv", area="areacello_bu")
AXES = dict(xc="xh", yc="yh", xq="xq", yq="yq")
AXKEYS = dict(xc="xcenter", yc="ycenter", xq="xcorner", yq="ycorner")


def symname(n):
    return mk("sym", n, "str")


def c22(ctx):
    r1 = "f = 2 Omega sin(latitude)"
    ctx.against("coriolis", r1, D + "calc_coriolis", P + "coriolis", args(arr("lat")))
    r2 = "zeta = (d(v dy) along x - d(u dx) along y) / area"
    r3 = "PV = (zeta + f) N2 / g"
    # (the same rule holds for the grid itself: corner points to the right, or outside, on both axes)
    for sym in (False, True):
        for cname, fnames, anames in (("names", True, True), ("fields", True, False), ("axes", False, True), ("default", False, False)):
            fields = {k: symname("f_" + k) if fnames else st(v) for k, v in FIELDS.items()}
            axes = {k: symname("a_" + k) if anames else st(v) for k, v in AXES.items()}
            kw = dict(symmetric=TRUE if sym else FALSE) if sym or cname == "names" else {}
            if fnames:
                kw["varname_map"] = (lambda f: lambda I: I.new_dict({st(k): v for k, v in f.items()}))(fields)
            cd = (lambda a: lambda I: I.new_dict({st(AXKEYS[k]): v for k, v in a.items()}))(axes)
            if anames:
                kw["coord_dict"] = cd
            pos = st("outer" if sym else "right")
            key = f"{'symmetric' if sym else 'right'}/{cname}"
            x = ctx.against(f"relative vorticity/{key}", r2, D + "calc_rel_vort", P + "rel_vort", args(ds(), **kw),
                            sbuild=args(ds(), position=pos, **fields, **axes))
            if x:
                ctx.refuses(f"relative vorticity/{key}/rejects", "datasets that lack a needed field are rejected", D + "calc_rel_vort", x[0], x[1].pc)
            if fnames and not anames or (not fnames and anames and False):
                continue
            for units in ("m", "cm", None):
                for g in (True, False):
                    if not g and cname != "default":
                        continue
                    pk = {k: v for k, v in kw.items() if k != "varname_map"}
                    if units:
                        pk["units"] = st(units)
                    sk = dict(gravity=S("gravity") if g else lit(9.8), units=st(units or "m"))
                    if g:
                        pk["gravity"] = S("gravity")
                    base = [arr("zeta"), arr("f"), arr("n2")]
                    ctx.against(f"pv/{key}/{units}/{g}", r3, D + "calc_pv", P + "pv_interp", args(*base, **pk),
                                sbuild=args(*base, position=pos, **axes, **sk))
                    ctx.against(f"pv/{key}/{units}/{g}/not interpolated", r3, D + "calc_pv", P + "pv",
                                args(*base, **dict(pk, interp_n2=FALSE)), sbuild=args(*base, **sk))

    def units():
        u = mk("sym", "units", "str")
        r = ctx.run(D + "calc_pv", args(arr("zeta"), arr("f"), arr("n2"), units=u))
        ctx.refuses("pv/units", "only the units m and cm are accepted", D + "calc_pv", r, or_(T.eq(u, st("m")), T.eq(u, st("cm"))))

    ctx.attempt("pv/units", r3, D + "calc_pv", units)


# -------------------------------------------------------------------- C23
def c23(ctx):
    r1 = "mass = sum of density * volume over all dimensions except time"
    ctx.against("masso", r1, D + "calc_masso", P + "masso", args(arr("rho"), arr("vol"), tcoord=S("tc")))
    ctx.against("masso/default", r1, D + "calc_masso", P + "masso_default", args(arr("rho"), arr("vol")))
    r2 = "volume = sum of a 3-D volume over all dimensions"
    x = ctx.against("volo", r2, D + "calc_volo", P + "volo", args(arr("vol")))
    if x:
        ctx.refuses("volo/rejects", "volumes that are not 3-D are rejected", D + "calc_volo", x[0], x[1].pc)
    ctx.against("rhoga", "mean density = mass / volume", D + "calc_rhoga", P + "rhoga", args(arr("m"), arr("v")))
