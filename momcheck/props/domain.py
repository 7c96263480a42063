"""C31: arguments outside a routine's domain are rejected, all others accepted"""
from itertools import product

from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import args, arr, ds
from ..views import unmodelled

D, R, U, P = "momlevel.derived.", "momlevel.trend.", "momlevel.util.", "specs.domain."


def plain(c):
    """Comparisons in one direction (values are taken to be numbers)"""
    m = {}
    for a in T.subterms(c):
        if a.op == "le":
            m[a] = not_(T.lt(plain(a.args[1]), plain(a.args[0])))
    for a in T.subterms(c):
        if a.op in ("lt", "le"):
            u, v = a.args
            if u.op == "reduce" and u.args[0] == "min" and u.args[2].op == "alldims" and v.op == "num":
                m[a] = mk("anyof", mk(a.op, u.args[1], v))
            elif v.op == "reduce" and v.args[0] == "max" and v.args[2].op == "alldims" and u.op == "num":
                m[a] = mk("anyof", mk(a.op, u, v.args[1]))
            elif a.op == "le" and v.op == "reduce" and v.args[0] == "min" and v.args[2].op == "alldims" and u.op == "num":
                m[a] = not_(mk("anyof", T.lt(v.args[1], u)))
    return T.subst(c, m) if m else c


class Open(Exception):
    pass


def compute(t, v, x):
    """The value of a test on v, v taken to be x"""
    if t is v:
        return x
    if t.op in ("num", "str"):
        return t.args[0]
    f = {"lt": lambda p, q: p < q, "le": lambda p, q: p <= q, "eq": lambda p, q: p == q}.get(t.op)
    if f:
        try:
            return f(compute(t.args[0], v, x), compute(t.args[1], v, x))
        except TypeError:
            raise Open from None
    if t.op == "truth":
        return bool(compute(t.args[0], v, x))
    if t.op == "meth" and t.args[0] in TEXT and not t.args[3]:
        o = compute(t.args[1], v, x)
        if isinstance(o, str):
            try:
                return getattr(o, t.args[0])(*[compute(a, v, x) for a in t.args[2]])
            except (TypeError, ValueError):
                raise Open from None
    raise Open


TEXT = ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "title", "capitalize", "removeprefix", "removesuffix", "replace")


def subject(a):
    """The value that a test against constants looks at"""
    vs = [x for x in T.subterms(a) if x.op not in ("num", "str", "lt", "le", "eq", "truth", "meth", "tuple")]
    top = [x for x in vs if not any(x is not y and T.contains(y, lambda z: z is x) for y in vs)]
    return top[0] if len(top) == 1 else None


def constants(t, v):
    if t is v:
        return set()
    if t.op in ("num", "str"):
        return {t.args[0]}
    sub = [y for x in t.args for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T.Term)]
    return set().union(*[constants(y, v) for y in sub])


def possible(c):
    """Whether a condition can hold, tests of one value against constants
    taken together: True, False, or None if that is not known"""
    if c is FALSE:
        return False
    by = {}
    for a in T.atoms_of(c):
        if a.op in ("lt", "le", "eq", "truth"):
            v = subject(a)
            if v is not None:
                by.setdefault(v, []).append(a)
    groups, whole = [], True
    for v, l in by.items():
        ks = {k for a in l for k in constants(a, v)}
        text = [k for k in ks if isinstance(k, str)]
        if len(text) == len(ks):
            cand = sorted(ks) + ["\0other"]
            if any(a.op != "eq" or T.contains(a, lambda z: z.op == "meth") for a in l):
                whole = False
                cand += [f(k) for k in text for f in (str.upper, str.title, lambda q: q + "x", lambda q: "x" + q, lambda q: f" {q} ")] + [""]
        elif not text:
            ks = sorted(ks)
            cand = ks + [ks[0] - 1, ks[-1] + 1] + [(a + b) / 2 for a, b in zip(ks, ks[1:])]
            if v.op == "len":
                cand = range(0, int(max(ks)) + 2)
        else:
            return None
        try:
            rows = {tuple((a, bool(compute(a, v, x))) for a in l) for x in cand}
        except Open:
            whole = False
            continue
        groups.append(sorted(rows, key=str))
    n = 1
    for g in groups:
        n *= len(g)
    if n > 5000:
        return None
    open_ = False
    for combo in product(*groups):
        x = c
        for row in combo:
            for a, val in row:
                x = T.restrict(x, a, val)
        if x is FALSE:
            continue
        if unmodelled(x) is None and not any(a.op in ("isinstance", "raised", "hasattr", "callable", "exists") for a in T.atoms_of(x)):
            return True
        open_ = True
    return False if whole and not open_ else None


def decide(ctx, key, rule, F, pc, need):
    pc, need = plain(pc), plain(need)
    for k, gap, text in (("rejects", and_(pc, not_(need)), "accepts its arguments when"), ("accepts", and_(need, not_(pc)), "rejects its arguments when")):
        p = possible(gap)
        if p is False:
            ctx.ok(f"{key}/{k}", rule, F, "for all arguments")
        elif p is None:
            ctx.unsure(f"{key}/{k}", rule, F, f"conditions not decided: {T.pretty(gap, 4)[:200]}")
        else:
            ctx.bad(f"{key}/{k}", rule, F, f"{text} {T.pretty(gap, 6)[:300]}")


INTERNAL = ("NameError", "UnboundLocalError", "AttributeError", "TypeError", "IndexError", "KeyError", "ZeroDivisionError", "ImportError", "ModuleNotFoundError")

# routines that need more than one entry along an axis anyway
LONG = ("standard_grid_cell_area", "annual_average", "calc_linear_trend", "linear_detrend", "seasonal", "deseason")


def sound(ctx):
    """No routine comes to an internal error with arguments of the documented
    kinds, or rejects a field for the attributes it has or lacks"""
    from .defaults import table

    rule = "no internal error with arguments of the documented kinds"
    rule2 = "what attributes a field has decides nothing about its being accepted"
    ctx.opaque_eos()
    for label, F, req, opts, other, settings in table():
        if label.startswith(("wright/", "linear/")):
            continue
        every = [(f"{n}", dict(f)) for n, f in enumerate(settings)] + [(o, {o: v}) for o, v in other.items()] + ([("all", dict(other))] if len(other) > 1 else [])
        for how, kw in every:
            key = f"sound/{label}/{how}"

            def go():
                r = ctx.run(F, args(*[v for _, v in req], **kw))
                bad = None
                for e in r.raises:
                    what = e.data[0] if isinstance(e.data[0], str) else str(e.data[0])
                    if e.pc is FALSE or what not in INTERNAL or (what == "KeyError" and label == "broadcast_trend"):
                        continue
                    if unmodelled(e.pc) is not None or any(a.op in ("isinstance", "raised", "hasattr", "callable", "exists") for a in T.atoms_of(e.pc)):
                        continue
                    bad = e, what
                    break
                for e in r.of("position") if bad is None and not label.startswith(LONG) and "annual" not in kw else ():
                    t = e.data[0]
                    if t.op == "attr" and t.args[1] in ("values", "data"):
                        t = t.args[0]
                    if t.op == "item" and t.args[0].op == "sym" and t.args[1].op in ("str", "sym") and and_(e.pc, r.pc) is not FALSE and unmodelled(e.pc) is None:
                        ctx.bad(key, rule, F, f"IndexError at line {e.loc[2]} where {T.pretty(t, 3)[:80]} has no entry {e.data[1].args[0]}")
                        return
                if bad:
                    e, what = bad
                    ctx.bad(key, rule, F, f"{what} at line {e.loc[2]} ({T.pretty(e.data[1], 3)[:100] if len(e.data) > 1 and e.data[1] is not None else ''}) when {T.pretty(e.pc, 4)[:300]}")
                elif r.pc is FALSE:
                    ctx.unsure(key, rule, F, "rejected")
                else:
                    ctx.ok(key, rule, F, f"{len(r.raises)} rejections, none internal")
                if label == "broadcast_trend" or r.pc is FALSE:
                    return  # units of time are read there
                own = [a for a in T.atoms_of(r.pc) if T.contains(a, lambda z: z.op == "attr" and z.args[1] == "attrs")]
                if not own:
                    ctx.ok(f"{key}/attributes", rule2, F, "no condition on attributes")
                elif unmodelled(r.pc) is not None:
                    ctx.unsure(f"{key}/attributes", rule2, F, "conditions not decided")
                else:
                    ctx.bad(f"{key}/attributes", rule2, F, f"returns depending on {T.pretty(own[0], 4)[:200]}")

            ctx.attempt(key, rule, F, go)
    ctx.opaque_eos(False)


def c31(ctx):
    s = lambda n: mk("sym", n, "str")
    n = lambda x: mk("sym", x, "num")
    i = lambda x: mk("sym", x, "int")

    def case(key, rule, F, build, spec, sbuild, given=TRUE):
        def go():
            r = ctx.run(F, build)
            w = ctx.run(P + spec, sbuild)
            g = given(r) if callable(given) else given
            decide(ctx, key, rule, F, and_(g, r.pc), and_(g, w.pc))

        ctx.attempt(key, rule, F, go)

    rule = "the reference level lies in 0..7500 m"
    for eos in ("Wright", "linear"):
        case(f"pdens/{eos}", rule, D + "calc_pdens", args(arr("t"), arr("s"), level=n("level"), eos=st(eos)), "pdens", args(n("level")))
    case("volo", "volumes are 3-D", D + "calc_volo", args(arr("v")), "volo", args(arr("v")))
    rule = "depths, levels and interfaces are not negative"
    for o in ({}, dict(top=n("top"), bottom=n("bottom")), dict(fraction=TRUE)):
        case(f"dz/{'+'.join(o) or 'plain'}", rule, D + "calc_dz", args(arr("l"), arr("i"), arr("d"), **o), "dz", args(arr("l"), arr("i"), arr("d")))
    rule = "units are m or cm"
    for interp in (TRUE, FALSE):
        case(f"pv/{interp}", rule, D + "calc_pv", args(arr("z"), arr("c"), arr("n2"), units=s("units"), interp_n2=interp), "pv", args(s("units")))
    rule = "the dataset has every field needed"
    std = ("uo", "vo", "dxCu", "dyCv", "areacello_bu")
    lst = lambda ns: lambda I: I.new_list(list(ns))
    own = {k: s("name_" + k) for k in ("u", "v", "dx", "dy", "area")}
    for sym in (TRUE, FALSE):
        case(f"relative vorticity/{sym}", rule, D + "calc_rel_vort", args(ds(), symmetric=sym), "rel_vort", args(ds(), lst([st(x) for x in std])))
        case(f"relative vorticity/names/{sym}", rule, D + "calc_rel_vort", args(ds(), varname_map=lambda I: I.new_dict({st(k): v for k, v in own.items()}), symmetric=sym),
             "rel_vort", args(ds(), lst(own.values())))
    rule = "time units are known ones"
    case("factor", rule, R + "time_conversion_factor", args(s("src"), s("dst")), "factor", args(s("src"), s("dst")))
    case("factor/lengths", rule, R + "time_conversion_factor", args(s("src"), s("dst"), days_per_month=n("dm"), days_per_year=n("dy")), "factor", args(s("src"), s("dst")))
    rule = "the coordinate is 1-D"
    for z in (TRUE, FALSE):
        def unlabelled(r):
            return not_(mk("in", st("units"), mk("keys", mk("attr", mk("sym", "slope", "da"), "attrs"))))
        case(f"broadcast/{z}", rule, R + "broadcast_trend", args(arr("slope"), arr("dim"), subtract_time_zero=z), "broadcast", args(arr("dim")), unlabelled)
    rule = "the order is 1, the mode remove or correct"
    one = lambda r: T.eq(mk("len", mk("attr", mk("item", mk("sym", "x", "da"), st("time")), "dims")), num(1))
    for via in (R, U):
        case(f"detrend/{via.split('.')[1]}", rule, via + "linear_detrend", args(arr("x"), order=i("order"), mode=s("mode")), "detrend", args(i("order"), s("mode")), one)
    rule = "the table is one of the package's or an existing file"
    x, y = s("x"), s("y")
    a = mk("sym", "a", "da")

    def shaped(r):
        g = TRUE
        for t in T.atoms_of(r.pc):
            if not T.contains(t, lambda z: z is s("csv")):
                g = and_(g, t if T.restrict(r.pc, t, True) is not FALSE else not_(t))
        return g

    case("tide gauges/table", rule, "momlevel.tidegauge.extract_tidegauge", args(arr("a"), x, y, csv=s("csv")), "tide_table", args(s("csv")), shaped)
    rule = "named coordinates exist"
    for m in ("none", "array"):
        case(f"tide gauges/names/{m}", rule, U + "validate_tidegauge_data", args(arr("a"), x, y, NONE if m == "none" else arr("mask")), "tide_names", args(arr("a"), x, y))
        case(f"tide gauges/arrays/{m}", rule, U + "validate_tidegauge_data", args(arr("a"), arr("x"), y, NONE if m == "none" else arr("mask")), "tide_names", args(arr("a"), y, y))
        case(f"tide gauges/arrays2/{m}", rule, U + "validate_tidegauge_data", args(arr("a"), x, arr("y"), NONE if m == "none" else arr("mask")), "tide_names", args(arr("a"), x, x))
    F = "momlevel.tidegauge.extract_tidegauge"
    for k, b in (("names", args(arr("a"), x, y)), ("masked", args(arr("a"), x, y, mask=arr("mask"))), ("file", args(arr("a"), x, y, csv=s("csv")))):

        def through():
            r = ctx.run(F, b)
            w = ctx.run(P + "tide_names", args(arr("a"), x, y))
            ctx.refuses(f"tide gauges/extract/{k}", rule, F, r, w.pc)

        ctx.attempt(f"tide gauges/extract/{k}", rule, F, through)
    rule = "the coordinates of the model points lie on the same axes"
    X, Y = mk("sym", "x", "da"), mk("sym", "y", "da")
    for k, b in (("plain", {}), ("masked", dict(mask=arr("mask")))):

        def axes():
            r = ctx.run(F, args(arr("a"), arr("x"), arr("y"), **b))
            w = ctx.run(P + "tide_axes", args(arr("x"), arr("y")))
            flat = T.eq(mk("len", mk("attr", X, "dims")), num(1))
            for how, y_n in (("1-D", TRUE), ("other", FALSE)):
                p = T.subst(r.pc, {flat: y_n})
                own = {a for a in T.atoms_of(p) if all(T.contains(a, lambda z, v=v: z.op == "attr" and z.args == (v, "dims")) for v in (X, Y))}
                if own - set(T.atoms_of(w.pc)):
                    ctx.unsure(f"tide gauges/axes/{k}/{how}", rule, F, "compared in another way")
                    continue
                ctx.refuses(f"tide gauges/axes/{k}/{how}", rule, F, r, T.subst(w.pc, {flat: y_n}), p)

        ctx.attempt(f"tide gauges/axes/{k}", rule, F, axes)
    rule = "the field has the dimension named"
    for o in ("residuals", "model", "coeff"):

        def named():
            r = ctx.run(R + "deseason", args(arr("x"), s("tc"), st(o)))
            ctx.refuses(f"deseason/dimension/{o}", rule, R + "deseason", r, T.member(s("tc"), mk("attr", mk("sym", "x", "da"), "dims")))

        ctx.attempt(f"deseason/dimension/{o}", rule, R + "deseason", named)
    sound(ctx)
    rule = "the statistic is known"
    for kl in ("da", "ds"):
        case(f"cycle/{kl}", rule, U + "annual_cycle", args(arr("x", kl), func=s("func")), "cycle", args(s("func")))

    # objects of other types
    wrong = {"number": num(3), "text": s("text"), "nothing": NONE, "list": lambda I: I.new_list([num(1)])}
    da, dset = arr("o"), ds("o")
    cases = [
        ("broadcast/slope", R + "broadcast_trend", lambda v: args(v, arr("dim")), {**wrong, "dataset": dset}),
        ("broadcast/dim", R + "broadcast_trend", lambda v: args(arr("slope"), v), {**wrong, "dataset": dset}),
        ("trend", R + "calc_linear_trend", lambda v: args(v), {**wrong, "dataset": dset}),
        ("detrend", R + "linear_detrend", lambda v: args(v), wrong),
        ("deseason", R + "deseason", lambda v: args(v), {**wrong, "dataset": dset}),
        ("tile/x", U + "tile_nominal_coords", lambda v: args(v, arr("y")), {**wrong, "dataset": dset}),
        ("tile/y", U + "tile_nominal_coords", lambda v: args(arr("x"), v), {**wrong, "dataset": dset}),
        ("names", U + "default_coords", lambda v: args(v), {k: v for k, v in wrong.items() if k != "nothing"}),
        ("names/steric", "momlevel.steric.steric", lambda v: args(ds(), coord_names=v), {k: v for k, v in wrong.items() if k != "nothing"}),
        ("steric/reference", "momlevel.steric.steric", lambda v: args(ds(), reference=v), {**{k: v for k, v in wrong.items() if k != "nothing"}, "array": da}),
        ("tide gauges/array", U + "validate_tidegauge_data", lambda v: args(v, x, y, NONE), {**wrong, "dataset": dset}),
        ("tide gauges/x", U + "validate_tidegauge_data", lambda v: args(arr("a"), v, y, NONE), {**{k: v for k, v in wrong.items() if k != "text"}, "dataset": dset}),
        ("tide gauges/y", U + "validate_tidegauge_data", lambda v: args(arr("a"), x, v, NONE), {**{k: v for k, v in wrong.items() if k != "text"}, "dataset": dset}),
        ("tide gauges/mask", U + "validate_tidegauge_data", lambda v: args(arr("a"), x, y, v), {**{k: v for k, v in wrong.items() if k != "nothing"}, "dataset": dset}),
        ("equation of state", D + "calc_rho", lambda v: args(arr("t"), arr("s"), arr("p"), eos=v), {k: v for k, v in wrong.items() if k != "text"}),
    ]
    rule = "objects of other types are rejected"
    for key, F, b, kinds in cases:
        for kl, v in kinds.items():
            k = f"type/{key}/{kl}"

            def go():
                r = ctx.run(F, b(v))
                if r.pc is FALSE:
                    ctx.ok(k, rule, F)
                elif r.notes or unmodelled(r.pc) is not None or any(e.kind == "unknown" for e in r.effects):
                    ctx.unsure(k, rule, F, str(r.notes[:1]))
                elif key.startswith(("tide gauges", "names", "steric")) or r.pc is TRUE:
                    ctx.bad(k, rule, F, f"returns {'' if r.pc is TRUE else 'when ' + T.pretty(r.pc, 4)[:150]}")
                else:
                    ctx.unsure(k, rule, F, T.pretty(r.pc, 3)[:100])

            ctx.attempt(k, rule, F, go)
