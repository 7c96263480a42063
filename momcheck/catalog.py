"""The public routines with symbolic arguments that cover their options."""
from . import terms as T
from .terms import mk, st, num, TRUE, FALSE, NONE
from .contexts import S, names, args, arr, ds
from .checks import EOS

D, U, TR, TG = "momlevel.derived.", "momlevel.util.", "momlevel.trend.", "momlevel.tidegauge."
TD = "momlevel.test_data."


def sym(name, kind):
    return lambda I: I.sym(name, kind)


def flag(name):
    return mk("sym", name, "bool")


class Call:
    def __init__(self, label, func, pos, kw=None, lazy=(), kind="analysis"):
        self.label = label
        self.func = func
        self.pos = pos
        self.kw = kw or {}
        # the arguments that may be dask-backed fields ("*": every variable of the dataset)
        self.lazy = lazy
        self.kind = kind

    def build(self, **more):
        return args(*self.pos, **{**self.kw, **more})


def calls(unknown_flags=True):
    T3 = [arr("thetao"), arr("so"), arr("pres")]
    L3 = ("thetao", "so", "pres")
    out = []

    def add(label, func, pos, kw=None, lazy=(), kind="analysis"):
        out.append(Call(label, func, pos, kw, lazy, kind))

    for f in ("calc_rho", "calc_alpha", "calc_beta"):
        for e in EOS:
            add(f"{f}/{e}", D + f, T3, dict(eos=st(e)), L3)
    for e in EOS:
        add(f"calc_pdens/{e}", D + "calc_pdens", T3[:2], dict(level=S("level"), patm=S("patm"), eos=st(e)), L3)
        add(f"calc_stability_angle/{e}", D + "calc_stability_angle", T3, dict(eos=st(e), zcoord=S("zc")), L3)
        add(f"calc_n2/{e}", D + "calc_n2", T3[:2], dict(eos=st(e), gravity=S("gravity"), patm=S("patm"), zcoord=S("zc")), L3)
        add(f"inverse_barometer/{e}", "momlevel.dynamic.inverse_barometer", [arr("tos"), arr("sos"), arr("pso")],
            dict(gravity=S("gravity"), equation_of_state=st(e)), ("tos", "sos", "pso"))
    add("calc_n2/adjust", D + "calc_n2", T3[:2], dict(zcoord=S("zc"), adjust_negative=TRUE), L3)
    add("calc_n2/interfaces", D + "calc_n2", T3[:2], dict(zcoord=S("zc"), interfaces=arr("ifc"), adjust_negative=flag("adj")), L3)
    add("adjust_negative_n2", D + "adjust_negative_n2", [arr("n2")], dict(zcoord=S("zc")), ("n2",))
    add("calc_coriolis", D + "calc_coriolis", [arr("lat")], {}, ("lat",))
    add("calc_spice", D + "calc_spice", T3[:2])
    dz3 = [arr("levels"), arr("interfaces"), arr("depth")]
    add("calc_dz", D + "calc_dz", dz3, dict(top=mk("sym", "top", "num"), bottom=mk("sym", "bottom", "num"), fraction=flag("frac")))
    add("calc_dz/default", D + "calc_dz", dz3)
    add("calc_masso", D + "calc_masso", [arr("rho"), arr("vol")], dict(tcoord=S("tc")), ("rho", "vol"))
    add("calc_volo", D + "calc_volo", [arr("vol")], {}, ("vol",))
    add("calc_rhoga", D + "calc_rhoga", [arr("masso"), arr("volo")], {}, ("masso", "volo"))
    add("calc_wave_speed", D + "calc_wave_speed", [arr("n2"), arr("dz")], dict(zcoord=S("zc")), ("n2", "dz"))
    add("calc_rossby_rd", D + "calc_rossby_rd", [arr("c"), arr("f")], {}, ("c", "f"))
    pv = [arr("zeta"), arr("f"), arr("n2")]
    for u in ("m", "cm"):
        add(f"calc_pv/{u}", D + "calc_pv", pv, dict(gravity=S("gravity"), units=st(u), symmetric=flag("sym"), coord_dict=sym("cd", "dict")), ("zeta", "f", "n2"))
        add(f"calc_pv/{u}/plain", D + "calc_pv", pv, dict(units=st(u), interp_n2=FALSE), ("zeta", "f", "n2"))
    add("calc_rel_vort", D + "calc_rel_vort", [ds()], dict(symmetric=flag("sym"), coord_dict=sym("cd", "dict")), ("*",))
    add("calc_rel_vort/names", D + "calc_rel_vort", [ds()], dict(varname_map=sym("vm", "dict")), ("*",))
    add("setup_reference_state", "momlevel.reference.setup_reference_state", [ds()],
        dict(patm=S("patm"), coord_names=names, time_index=S("ti")), ("*",))
    for domain in ("local", "global"):
        for v in ("steric", "thermosteric", "halosteric"):
            for ref in (False, True):
                for annual in (FALSE, TRUE):
                    kw = dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"), domain=st(domain), variant=st(v),
                              strict=S("strict"), verbose=flag("verbose"), annual=annual)
                    if ref:
                        kw["reference"] = ds("ref")
                        if v == "steric":
                            kw["varname_map"] = sym("mapping", "dict")
                    add(f"steric/{domain}/{v}/{'given' if ref else 'derived'}{'/annual' if annual is TRUE else ''}",
                        "momlevel.steric.steric", [ds()], kw, ("*",))
        for w in ("thermosteric", "halosteric"):
            add(f"{w}/{domain}", f"momlevel.steric.{w}", [ds()], dict(domain=st(domain)), ("*",))
    for kind in ("da", "ds"):
        for f in ("annual_average", "monthly_average"):
            add(f"{f}/{kind}", U + f, [sym("x", kind)], dict(tcoord=S("tc")), ("x", "*"))
        for g in ("mean", "min", "max", "std"):
            for y in (None, mk("sym", "year", "int")):
                add(f"annual_cycle/{kind}/{g}{'/year' if y is not None else ''}", U + "annual_cycle", [sym("x", kind)],
                    dict(tcoord=S("tc"), func=st(g), **({"time_axis_year": y} if y is not None else {})), ("x", "*"))
        for m in ("remove", "correct"):
            add(f"linear_detrend/{kind}/{m}", TR + "linear_detrend", [sym("x", kind)], dict(dim=S("tc"), mode=st(m)), ("x", "*"))
        add(f"util.linear_detrend/{kind}", U + "linear_detrend", [sym("x", kind)], dict(dim=S("tc")), ("x", "*"))
        add(f"reset_encoding/{kind}", U + "reset_encoding", [sym("x", kind)], {}, kind="exempt")
    add("alphabetize_dataset", U + "alphabetize_dataset", [ds()])
    add("default_coords", U + "default_coords", [sym("cn", "dict")])
    add("eos_func_from_str", U + "eos_func_from_str", [st("Wright")])
    for a in (TRUE, FALSE):
        add(f"geolocate_points/{'mask' if a is TRUE else 'all'}", U + "geolocate_points", [sym("dfm", "df"), sym("dfl", "df")],
            dict(threshold=S("th"), rad_earth=S("radius"), apply_mask=a, disable_warning=flag("quiet")))
    add("geolocate_points/default", U + "geolocate_points", [sym("dfm", "df"), sym("dfl", "df")])
    add("get_pv_colormap", U + "get_pv_colormap", [])
    add("get_xgcm_grid", U + "get_xgcm_grid", [ds()], dict(symmetric=flag("sym"), coord_dict=sym("cd", "dict")))
    add("get_xgcm_grid/default", U + "get_xgcm_grid", [ds()])
    add("standard_grid_cell_area", U + "standard_grid_cell_area", [arr("lat"), arr("lon")], dict(r_earth=S("radius")))
    add("standard_grid_cell_area/nd", U + "standard_grid_cell_area", [arr("lat", "nd"), arr("lon", "nd")])
    add("tile_nominal_coords", U + "tile_nominal_coords", [arr("x"), arr("y")], dict(warn=flag("warn")))
    add("validate_areacello", U + "validate_areacello", [arr("area")])
    for r in (TRUE, FALSE):
        add(f"validate_dataset/{'reference' if r is TRUE else 'input'}", U + "validate_dataset", [ds()],
            dict(reference=r, strict=S("strict"), additional_vars=lambda I: I.sym("addl", "list")))
    add("validate_dataset/default", U + "validate_dataset", [ds()])
    add("validate_tidegauge_data", U + "validate_tidegauge_data", [arr("arr"), arr("xc"), arr("yc"), arr("mask")])
    add("broadcast_trend", TR + "broadcast_trend", [arr("slope"), arr("dim")], dict(subtract_time_zero=flag("zero")), ("slope",))
    add("time_conversion_factor", TR + "time_conversion_factor", [mk("sym", "src", "str"), mk("sym", "dst", "str")])
    add("calc_linear_trend", TR + "calc_linear_trend", [arr("x")], dict(dim=S("tc"), time_units=mk("sym", "tu", "str")), ("x",))
    add("calc_linear_trend/default", TR + "calc_linear_trend", [arr("x")], {}, ("x",))
    add("seasonal_model", TR + "seasonal_model", [arr("x")], dict(tcoord=S("tc"), return_model=flag("both")), ("x",))
    add("seasonal_cycle_model", TR + "seasonal_cycle_model", [arr("ts", "nd")], dict(daysinyear=arr("diy", "nd")))
    for o in ("residuals", "model", "coeff"):
        add(f"deseason/{o}", TR + "deseason", [arr("x")], dict(tdim=S("tc"), output_format=st(o)), ("x",))
    add("extract_tidegauge/names", TG + "extract_tidegauge", [arr("x")], dict(xcoord=mk("sym", "xname", "str"), ycoord=mk("sym", "yname", "str"),
        csv=mk("sym", "csv", "str"), threshold=S("th"), disable_warning=flag("quiet")), ())
    add("extract_tidegauge/arrays", TG + "extract_tidegauge", [arr("x")], dict(xcoord=arr("xc"), ycoord=arr("yc"), mask=arr("mask")), ())
    add("extract_point", TG + "extract_point", [arr("x"), sym("row", "dict")])
    # generators
    Y, N, C = mk("sym", "start", "int"), mk("sym", "nyears", "int"), mk("sym", "cal", "str")
    sd = mk("sym", "seed", "int")
    for f in ("generate_test_data", "generate_test_data_uv"):
        add(f, TD + f, [], dict(start_year=Y, nyears=N, calendar=C, seed=sd), kind="generator")
        add(f + "/default", TD + f, [], {}, kind="generator")
    add("generate_test_data_dz", TD + "generate_test_data_dz", [], dict(seed=sd), kind="generator")
    add("generate_test_data_time", TD + "generate_test_data_time", [], dict(start_year=Y, nyears=N, calendar=C, seed=sd), kind="generator")
    add("generate_test_data_time/daily", TD + "generate_test_data_time", [], dict(frequency=st("D")), kind="generator")
    add("generate_daily_timeaxis", TD + "time.generate_daily_timeaxis", [], dict(start_year=Y, nyears=N, calendar=C), kind="generator")
    add("generate_time_stub", TD + "time.generate_time_stub", [], dict(start_year=Y, nyears=N, calendar=C, frequency=mk("sym", "freq", "str")), kind="generator")
    for p in "huvc":
        add(f"xy_fields/{p}", TD + "tripolar.horizontal.xy_fields", [ds()], dict(point=st(p), seed=sd), kind="extends")
    add("zlevel_fields", TD + "tripolar.vertical.zlevel_fields", [ds()], dict(seed=sd), kind="extends")
    return out
