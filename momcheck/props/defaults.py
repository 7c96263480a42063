"""C33: an omitted option means its documented default, a position its documented name"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import S, args, arr, ds, names
from ..values import TupleVal
from ..views import unmodelled

D, U, TR, TG, E = "momlevel.derived.", "momlevel.util.", "momlevel.trend.", "momlevel.tidegauge.", "momlevel.eos."
sym = lambda n, k: (lambda I: I.sym(n, k))
s = lambda n, k: mk("sym", n, k)
pair = lambda *v: (lambda I: TupleVal([st(x) for x in v]))


T3 = [("thetao", arr("thetao")), ("so", arr("so")), ("pres", arr("pres"))]
A3 = [("T", arr("thetao")), ("S", arr("so")), ("p", arr("pres"))]
X = ("arr", arr("x"))


def table():
    """label, routine, required arguments in order, documented defaults in order,
    a value other than the default for each option that has an order, settings to look at"""
    W = st("Wright")
    out = [
        ("adjust_negative_n2", D + "adjust_negative_n2", [("n2", arr("n2"))], dict(zcoord=st("z_l")), dict(zcoord=S("zc")), [{}]),
        ("calc_rel_vort", D + "calc_rel_vort", [("dset", ds())], dict(varname_map=NONE, coord_dict=NONE, symmetric=FALSE),
         dict(varname_map=sym("vm", "dict"), coord_dict=sym("cd", "dict"), symmetric=TRUE), [{}]),
        ("calc_dz", D + "calc_dz", [("levels", arr("levels")), ("interfaces", arr("interfaces")), ("depth", arr("depth"))],
         dict(top=num(0), bottom=NONE, fraction=FALSE), dict(top=s("top", "num"), bottom=s("bottom", "num"), fraction=TRUE), [{}, {"fraction": TRUE}]),
        ("calc_n2", D + "calc_n2", T3[:2], dict(eos=W, gravity=num(-9.8), patm=num(101325), zcoord=st("z_l"), interfaces=NONE, adjust_negative=FALSE),
         dict(eos=st("linear"), gravity=S("gravity"), patm=S("patm"), zcoord=S("zc"), interfaces=arr("ifc"), adjust_negative=TRUE), [{}, {"interfaces": arr("ifc")}]),
        ("calc_masso", D + "calc_masso", [("rho", arr("rho")), ("volcello", arr("vol"))], dict(tcoord=st("time")), dict(tcoord=S("tc")), [{}]),
        ("calc_pdens", D + "calc_pdens", T3[:2], dict(level=num(0), patm=num(101325), eos=W), dict(level=S("level"), patm=S("patm"), eos=st("linear")), [{}]),
        ("calc_pv", D + "calc_pv", [("zeta", arr("zeta")), ("coriolis", arr("f")), ("n2", arr("n2"))],
         dict(gravity=num(9.8), coord_dict=NONE, symmetric=FALSE, units=st("m"), interp_n2=TRUE),
         dict(gravity=S("gravity"), coord_dict=sym("cd", "dict"), symmetric=TRUE, units=st("cm"), interp_n2=FALSE), [{}]),
        ("calc_rossby_rd", D + "calc_rossby_rd", [("wave_speed", arr("c")), ("coriolis", arr("f"))], {}, {}, [{}]),
        ("calc_rhoga", D + "calc_rhoga", [("masso", arr("masso")), ("volo", arr("volo"))], {}, {}, [{}]),
        ("calc_spice", D + "calc_spice", T3[:2], {}, {}, [{}]),
        ("calc_stability_angle", D + "calc_stability_angle", T3, dict(eos=W, zcoord=st("z_l")), dict(eos=st("linear"), zcoord=S("zc")), [{}]),
        ("calc_wave_speed", D + "calc_wave_speed", [("n2", arr("n2")), ("dz", arr("dz"))], dict(zcoord=st("z_l")), dict(zcoord=S("zc")), [{}]),
        ("inverse_barometer", "momlevel.dynamic.inverse_barometer", [("tos", arr("tos")), ("sos", arr("sos")), ("pso", arr("pso"))],
         dict(gravity=num(9.8), equation_of_state=W), dict(gravity=S("gravity"), equation_of_state=st("linear")), [{}]),
        ("setup_reference_state", "momlevel.reference.setup_reference_state", [("dset", ds())],
         dict(patm=num(101325), eos=W, coord_names=NONE, time_index=num(0)), dict(patm=S("patm"), eos=st("linear"), coord_names=names, time_index=S("ti")), [{}]),
        ("broadcast_trend", TR + "broadcast_trend", [("slope", arr("slope")), ("dim_arr", arr("dim"))], dict(subtract_time_zero=FALSE), dict(subtract_time_zero=TRUE), [{}]),
        ("time_conversion_factor", TR + "time_conversion_factor", [("src", st("mon")), ("dst", st("yr"))], dict(days_per_month=num(30.417), days_per_year=num(365)),
         dict(days_per_month=s("dpm", "num"), days_per_year=s("dpy", "num")), [{}]),
        ("calc_linear_trend", TR + "calc_linear_trend", [X], dict(dim=st("time"), time_units=NONE), dict(dim=S("tc"), time_units=st("yr")), [{}]),
        ("linear_detrend", TR + "linear_detrend", [("xobj", arr("x"))], dict(dim=st("time"), order=num(1), mode=st("remove")),
         dict(dim=S("tc"), order=num(1), mode=st("correct")), [{}, {"mode": st("correct")}]),
        ("linear_detrend/dataset", TR + "linear_detrend", [("xobj", ds("x"))], dict(dim=st("time"), order=num(1), mode=st("remove")), {}, [{}]),
        ("seasonal_model", TR + "seasonal_model", [("da_timeseries", arr("x"))], dict(tcoord=st("time"), return_model=FALSE), dict(tcoord=S("tc"), return_model=TRUE), [{}]),
        ("seasonal_cycle_model", TR + "seasonal_cycle_model", [("ts", arr("ts", "nd"))], dict(daysinyear=num(365)), dict(daysinyear=arr("diy", "nd")), [{}]),
        ("deseason", TR + "deseason", [X], dict(tdim=st("time"), output_format=st("residuals")), dict(tdim=S("tc"), output_format=st("coeff")), [{}]),
        ("default_coords", U + "default_coords", [], dict(coord_names=NONE), dict(coord_names=sym("cn", "dict")), [{}]),
        ("eos_func_from_str", U + "eos_func_from_str", [("eos_str", W)], dict(func_name=st("density")), dict(func_name=st("alpha")), [{}]),
        ("geolocate_points", U + "geolocate_points", [("df_model", sym("dfm", "df")), ("df_locs", sym("dfl", "df"))],
         dict(threshold=NONE, model_coords=pair("geolat", "geolon"), rad_earth=num(6378), loc_coords=pair("lat", "lon"), apply_mask=TRUE, disable_warning=TRUE),
         dict(threshold=S("th"), model_coords=pair("a", "b"), rad_earth=S("radius"), loc_coords=pair("c", "d"), apply_mask=FALSE, disable_warning=FALSE),
         [{}, {"threshold": S("th")}]),
        ("get_xgcm_grid", U + "get_xgcm_grid", [("dset", ds())], dict(coord_dict=NONE, symmetric=FALSE), dict(coord_dict=sym("cd", "dict"), symmetric=TRUE), [{}]),
        ("standard_grid_cell_area", U + "standard_grid_cell_area", [("lat", arr("lat")), ("lon", arr("lon"))], dict(r_earth=num(6371000)), dict(r_earth=S("radius")), [{}]),
        ("tile_nominal_coords", U + "tile_nominal_coords", [("xcoord", arr("x")), ("ycoord", arr("y"))], dict(warn=TRUE), dict(warn=FALSE), [{}]),
        ("validate_areacello", U + "validate_areacello", [("areacello", arr("area"))], dict(reference=num(3.6111092e14), tolerance=num(0.02)),
         dict(reference=s("ra", "num"), tolerance=s("tol", "num")), [{}]),
        ("validate_dataset", U + "validate_dataset", [("dset", ds())], dict(reference=FALSE, strict=TRUE, additional_vars=NONE),
         dict(reference=TRUE, strict=FALSE, additional_vars=sym("addl", "list")), [{}]),
        ("validate_tidegauge_data", U + "validate_tidegauge_data", [("arr", arr("arr")), ("xcoord", arr("xc")), ("ycoord", arr("yc")), ("mask", arr("mask"))], {}, {}, [{}]),
        ("extract_tidegauge", TG + "extract_tidegauge", [X], dict(xcoord=st("geolon"), ycoord=st("geolat"), csv=st("us"), mask=NONE, threshold=NONE, disable_warning=TRUE),
         dict(xcoord=arr("xc"), ycoord=arr("yc"), csv=s("csv", "str"), mask=arr("mask"), threshold=S("th"), disable_warning=FALSE), [{}, {"threshold": S("th")}]),
        ("extract_point", TG + "extract_point", [X, ("row", sym("row", "dict"))], {}, {}, [{}]),
    ]
    for f in ("calc_alpha", "calc_beta", "calc_rho"):
        out.append((f, D + f, T3, dict(eos=W), dict(eos=st("linear")), [{}]))
    for k in ("da", "ds"):
        for f in ("annual_average", "monthly_average"):
            out.append((f"{f}/{k}", U + f, [("xobj", sym("x", k))], dict(tcoord=st("time")), dict(tcoord=S("tc")), [{}]))
        out.append((f"annual_cycle/{k}", U + "annual_cycle", [("xobj", sym("x", k))], dict(tcoord=st("time"), func=st("mean"), time_axis_year=NONE),
                    dict(tcoord=S("tc"), func=st("max"), time_axis_year=s("year", "int")), [{}]))
    out.append(("reset_encoding", U + "reset_encoding", [("xobj", arr("x"))], dict(attrs=NONE), dict(attrs=sym("at", "list")), [{}]))
    for e in ("wright", "linear"):
        for f in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
            out.append((f"{e}/{f}", f"{E}{e}.{f}", A3, {}, {}, [{}]))
    out.append(("steric", "momlevel.steric.steric", [("dset", ds())],
                dict(reference=NONE, coord_names=NONE, varname_map=NONE, rhozero=num(1035), patm=num(101325), equation_of_state=W, variant=st("steric"),
                     domain=st("local"), dtype=st("float32"), strict=TRUE, annual=FALSE, verbose=FALSE),
                dict(reference=ds("ref"), coord_names=names, varname_map=sym("vm", "dict"), rhozero=S("rhozero"), patm=S("patm"), equation_of_state=st("linear"),
                     variant=st("halosteric"), domain=st("global"), dtype=s("dtype", "str"), strict=FALSE, annual=FALSE, verbose=FALSE),
                [{}, {"domain": st("global")}, {"variant": st("halosteric")}, {"variant": st("thermosteric"), "domain": st("global")}, {"annual": TRUE}]))
    for w in ("thermosteric", "halosteric"):
        out.append((w, f"momlevel.steric.{w}", [("dset", ds())],
                    dict(reference=NONE, coord_names=NONE, varname_map=NONE, rhozero=num(1035), patm=num(101325), equation_of_state=W,
                         domain=st("local"), dtype=st("float32"), strict=TRUE, annual=FALSE, verbose=FALSE), {}, [{}, {"domain": st("global")}]))
    return out


def outcome(r):
    """What a call gives: the result, when it returns, what it warns of"""
    warn = or_(*[e.pc for e in r.of("warn")])
    return (r.term() if r.pc is not FALSE else NONE), r.pc, warn


def agree(ctx, key, rule, func, a, b):
    (t, p, w), (u, q, v) = outcome(a), outcome(b)
    for what, x, y in (("accepts", p, q), ("warns", w, v)):
        d = or_(and_(x, not_(y)), and_(y, not_(x)))
        if d is FALSE:
            continue
        if unmodelled(d) is not None:
            ctx.unsure(key, rule, func, f"{what}: {T.pretty(d, 4)[:200]}")
        else:
            ctx.bad(key, rule, func, f"{what} differently when {T.pretty(d, 4)[:300]}")
        return
    if p is FALSE:
        ctx.ok(key, rule, func, "rejected alike")
        return
    ctx.same(key, rule, func, t, u, and_(p, q))


def c33(ctx):
    ctx.opaque_eos()
    r1 = "leaving an option out is the same as giving its documented default"
    r2 = "an argument given by position is the one documented for that position"
    for label, func, req, opts, other, settings in table():
        if label.startswith(("wright/", "linear/")):
            ctx.opaque_eos(False)
        else:
            ctx.opaque_eos()
        for n, fixed in enumerate(settings):
            def base():
                return ctx.run(func, args(*[v for _, v in req], **fixed))

            def go():
                r0 = base()
                for o, d in opts.items():
                    if o in fixed:
                        continue
                    r = ctx.run(func, args(*[v for _, v in req], **fixed, **{o: d}))
                    agree(ctx, f"{label}/{n}/{o}", r1, func, r0, r)

            ctx.attempt(f"{label}/{n}", r1, func, go)

        def order():
            if label in ("thermosteric", "halosteric"):
                return
            both = list(req) + [(o, other[o]) for o in opts if o in other]
            a = ctx.run(func, args(*[v for _, v in both]))
            b = ctx.run(func, args(**dict(both)))
            agree(ctx, f"{label}/order", r2, func, a, b)

        ctx.attempt(f"{label}/order", r2, func, order)
    ctx.opaque_eos(False)
