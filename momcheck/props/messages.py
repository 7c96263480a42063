"""C35: warnings and printed messages come when, and only when, there is a reason"""
from .. import terms as T
from .. import catalog
from ..terms import mk, st, num, TRUE, FALSE, NONE, ZERO, and_, or_, not_
from ..contexts import S, args, arr, ds
from ..views import unmodelled
from .validate import plain

U, TR, TG, V, SP = "momlevel.util.", "momlevel.trend.", "momlevel.tidegauge.", "specs.validate.", "specs.trend."
BOOKKEEPING = ("time_bnds", "average_T1", "average_T2", "average_DT")
# what these say is checked case by case
OTHERS = ("geolocate_points", "extract_tidegauge", "broadcast_trend", "validate_dataset")


def when(r, kind, pred=lambda e: True):
    return or_(FALSE, *[e.pc for e in r.of(kind) if pred(e)])


def c35(ctx):
    ctx.opaque_eos()
    r1 = "nothing is printed by a call that succeeds, unless it was asked to be verbose"
    r2 = "a call warns when, and only when, something was assumed, dropped or is to be replaced"
    r3 = "the reasons for rejecting a dataset are printed"

    def agree(key, rule, func, got, want, cond, what):
        gap = plain(and_(cond, or_(and_(got, not_(want)), and_(want, not_(got)))))
        if gap is FALSE:
            ctx.ok(key, rule, func)
        elif unmodelled(gap) is not None:
            ctx.unsure(key, rule, func, "conditions not decided")
        else:
            more = plain(and_(cond, got, not_(want))) is not FALSE
            ctx.bad(key, rule, func, f"{what[0] if more else what[1]} when {T.pretty(gap, 4)[:250]}")

    for e in ctx.A.import_effects:
        if e.kind == "globalwrite" and e.data == "the warning filters":
            ctx.bad("import/filters", r2, "momlevel", f"{e.loc[0]}:{e.loc[2]}: the warning filters are changed on import")

    def off(name):
        return ctx.run(V + "area_off", args(ds(name))).term()

    for c in catalog.calls():
        h = c.label.split("/")[0]

        def go():
            r = ctx.run(c.func, c.build())
            if r.pc is FALSE:
                return
            own = [e for e in r.of("globalwrite") if e.data == "the warning filters" and e.pc is not FALSE]
            if own:
                ctx.bad(f"{c.label}/filters", r2, c.func, f"line {own[0].loc[2]}: the warning filters are changed for good")
            want = FALSE
            if h == "steric" and "/steric/given" in c.label:
                want = None  # the variables of the input are renamed
            elif h == "steric":
                want = and_(not_(T.truth(S("strict"))), or_(off("ds"), off("ref") if "/given" in c.label else FALSE))
            elif h in ("linear_detrend", "util.linear_detrend") and "/ds" in c.label:
                x = mk("sym", "x", "ds")
                want = or_(*[T.member(st(n), mk("attr", x, "data_vars")) for n in BOOKKEEPING])
            elif h == "tile_nominal_coords":
                want = T.truth(mk("sym", "warn", "bool"))
            elif h in OTHERS:
                want = None
            if want is not None:
                old = lambda e: T.pretty(e.data[1], 3).endswith("DeprecationWarning")
                agree(f"{c.label}/warns", r2, c.func, when(r, "warn", lambda e: not old(e)), want, r.pc, ("warns", "does not warn"))
                agree(f"{c.label}/deprecated", r2, c.func, when(r, "warn", old), TRUE if h == "util.linear_detrend" else FALSE, r.pc,
                      ("says it is deprecated", "does not say that it is deprecated"))
            loud = T.truth(mk("sym", "verbose", "bool")) if h == "steric" else FALSE
            agree(f"{c.label}/prints", r1, c.func, when(r, "print"), loud, r.pc, ("prints", "is silent"))
            if h == "validate_dataset":
                agree(f"{c.label}/reasons", r3, c.func, when(r, "print"), not_(r.pc), TRUE, ("prints", "prints no reason"))

        ctx.attempt(c.label, r1, c.func, go)
    ctx.opaque_eos(False)
    # the time unit of a slope
    B = TR + "broadcast_trend"
    sl, d = arr("slope"), arr("dim")
    D = mk("sym", "dim", "da")
    dname = mk("item", mk("attr", D, "dims"), ZERO)
    cf = ctx.run(SP + "cf_axis", args(d, dname)).term()
    dt = ctx.run(SP + "np_axis", args(d, dname)).term()
    for lab, a in (("cftime", and_(cf, not_(dt))), ("datetime64", and_(dt, not_(cf))), ("other", and_(not_(cf), not_(dt)))):
        for u in ("m yr-1", "m", None, "m s-2", "mm day-1"):
            if u == "m s-2":
                continue

            def go():
                r = ctx.run(SP + ("unlabelled" if u is None else "labelled"), args(sl, d, *([st(u)] if u else [])), a)
                if r.pc is FALSE:
                    return
                want = TRUE if lab != "other" and u in (None, "m") else FALSE
                agree(f"broadcast_trend/{lab}/{u}", r2, B, when(r, "warn"), want, and_(r.pc, a), ("warns", "does not warn"))

            ctx.attempt(f"broadcast_trend/{lab}/{u}", r2, B, go)
    # tide gauges: locations that are dropped, coordinates that are made up
    G = TG + "extract_tidegauge"
    xn, yn = mk("sym", "xname", "str"), mk("sym", "yname", "str")

    def gauges():
        base = dict(xcoord=xn, ycoord=yn, csv=mk("sym", "csv", "str"), threshold=S("th"))
        runs = {k: ctx.run(G, args(arr("x"), **base, **kw)) for k, kw in (("default", {}), ("quiet", dict(disable_warning=TRUE)), ("loud", dict(disable_warning=FALSE)))}
        made = ctx.run(SP[:6] + "messages.made_up", args(arr("x"), xn, yn)).term()
        for k in ("default", "quiet"):
            r = runs[k]
            agree(f"extract_tidegauge/{k}", r2, G, when(r, "warn"), made, r.pc, ("warns", "does not warn"))
        r = runs["loud"]
        w = [e for e in r.of("warn") if and_(e.pc, r.pc, not_(made)) is not FALSE]
        if w:
            ctx.ok("extract_tidegauge/loud", r2, G, f"line {w[0].loc[2]}")
        elif unmodelled(or_(FALSE, *[e.pc for e in r.of("warn")])) is None:
            ctx.bad("extract_tidegauge/loud", r2, G, "no warning for locations that are dropped, when warnings are enabled")
        else:
            ctx.unsure("extract_tidegauge/loud", r2, G, "conditions not decided")

    ctx.attempt("extract_tidegauge", r2, G, gauges)
