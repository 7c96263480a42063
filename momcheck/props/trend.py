"""C16, C17, C18: trends, detrending, seasonal fit"""
import re

from .. import terms as T
from .. import ops
from ..terms import mk, st, num, TRUE, FALSE, NONE, ZERO, and_, or_, not_
from ..values import Obj, TupleVal
from ..checks import pick
from ..contexts import S, args, arr, ds
from ..views import View, unmodelled, compare

TR, P = "momlevel.trend.", "specs.trend."
UNITS = ("ns", "s", "min", "hr", "day", "mon", "yr")


def strsym(n):
    return mk("sym", n, "str")


def axis_facts(t, x, dim):
    """x[dim] is one-dimensional, along dim"""
    c = mk("item", x, dim)
    return T.subst(t, {mk("attr", c, "dims"): mk("tuple", dim)})


# -------------------------------------------------------------------- C16
def c16(ctx):
    F = TR + "time_conversion_factor"
    r1 = "factor = length of the source unit / length of the destination unit"
    dpm, dpy = mk("sym", "dpm", "num"), mk("sym", "dpy", "num")
    for a in UNITS:
        for b in UNITS:
            ctx.against(f"factor/{a}/{b}", r1, F, P + "factor", args(st(a), st(b), days_per_month=dpm, days_per_year=dpy))
            ctx.against(f"factor/{a}/{b}/default", r1, F, P + "factor_default", args(st(a), st(b)))

    def reject():
        s, d = strsym("src"), strsym("dst")
        r = ctx.run(F, args(s, d))
        known = lambda u: or_(*[T.eq(u, st(n)) for n in UNITS])
        ctx.refuses("factor/unknown", "unknown units are rejected", F, r, and_(known(s), known(d)))
        ctx.accepts("factor/known", "known units are accepted", F, r, and_(known(s), known(d)))

    ctx.attempt("factor/unknown", "unknown units are rejected", F, reject)

    # the trend in a unit
    G = TR + "calc_linear_trend"
    r2 = "slope = per-nanosecond slope times the nanoseconds of the unit, labelled with the unit"
    x = arr("x")
    X, tc = mk("sym", "x", "da"), S("tc")
    cf = ctx.run(P + "cf_axis", args(x, tc)).term()
    dt = ctx.run(P + "np_axis", args(x, tc)).term()
    kinds = {"cftime axis": and_(cf, not_(dt)), "datetime64 axis": and_(dt, not_(cf)), "other axis": and_(not_(cf), not_(dt))}
    name = mk("attr", X, "name")

    def part(suffix):
        return lambda I, v: I.to_term(I.getitem(v, T.fmt([name, st(suffix)])))

    for kl, assume in kinds.items():
        for u in UNITS + (None,):
            def go():
                key = f"trend/{kl}/{u}"
                r = ctx.run(G, args(x, dim=tc, **({"time_units": st(u)} if u else {})), assume)
                I = r.at()
                ctx.accepts(key + "/accepts", r2, G, r, assume)
                got, icpt = part("_slope")(I, r.value), part("_intercept")(I, r.value)
                if kl == "other axis":
                    s = ctx.run(P + "per_step", args(x, tc), assume)
                else:
                    s = ctx.run(P + "per_unit", args(x, tc, st(u or "ns")), assume)
                ctx.same(key, r2, G, got, s.term(), and_(assume, r.pc), what="slope")
                s = ctx.run(P + "intercept", args(x, tc), assume)
                ctx.same(key + "/intercept", "the intercept is not rescaled", G, icpt, s.term(), and_(assume, r.pc), what="intercept")

            ctx.attempt(f"trend/{kl}/{u}", r2, G, go)
        if kl == "other axis":
            continue
        for u in UNITS:
            for units in ("m", "kg m-3", None):
                key = f"round trip/{kl}/{u}/{units}"

                def back():
                    if units is None:
                        r = ctx.run(P + "there_and_back_unlabelled", args(x, tc, st(u)), assume)
                    elif "-" in units:
                        return
                    else:
                        r = ctx.run(P + "there_and_back", args(x, tc, st(u), st(units)), assume)
                    s = ctx.run(P + "back", args(x, tc), assume)
                    one = T.eq(mk("len", mk("attr", mk("item", X, tc), "dims")), num(1))
                    pc = r.pc
                    a, b = r.term(), s.term()
                    # the time axis of the array is its own axis
                    a, b, pc = (axis_facts(q, X, tc) for q in (a, b, pc))
                    rule = "broadcasting a trend in any unit gives slope times elapsed time"
                    gap = and_(assume, not_(exclude(pc, X, tc, assume)))
                    if pc is FALSE:
                        ctx.bad(key, rule, TR + "broadcast_trend", f"the trend per {u} cannot be broadcast")
                        return
                    ctx.same(key, rule, TR + "broadcast_trend", a, b, and_(assume, pc), what="trend line")

                ctx.attempt(key, "round trip", TR + "broadcast_trend", back)

        def label():
            for u in UNITS:
                r = ctx.run(P + "slope_label", args(x, tc, st(u), st("m")), assume)
                t = T.assume(r.term(), and_(assume, r.pc))
                key = f"label/{kl}/{u}"
                if t.op != "str":
                    if unmodelled(t) is None and t.op in ("fmt", "num", "none"):
                        ctx.bad(key, r2, G, f"units are {T.pretty(t, 4)}")
                    else:
                        ctx.unsure(key, r2, G, T.pretty(t, 3))
                elif t.args[0].split() == ["m", u + "-1"]:
                    ctx.ok(key, r2, G, t.args[0])
                else:
                    ctx.bad(key, r2, G, f"a trend of m per {u} is labelled '{t.args[0]}'")

        ctx.attempt(f"label/{kl}", r2, G, label)

    # broadcasting a given slope
    B = TR + "broadcast_trend"
    r3 = "line = slope times elapsed time in the unit of the slope"
    sl, d = arr("slope"), arr("dim")
    D = mk("sym", "dim", "da")
    dname = mk("item", mk("attr", D, "dims"), ZERO)
    cf = ctx.run(P + "cf_axis", args(d, dname)).term()
    dt = ctx.run(P + "np_axis", args(d, dname)).term()
    kinds = {"cftime axis": and_(cf, not_(dt)), "datetime64 axis": and_(dt, not_(cf)), "other axis": and_(not_(cf), not_(dt))}
    own = {mk("item", D, dname): D}
    one = T.eq(mk("len", mk("attr", D, "dims")), num(1))
    for kl, a in kinds.items():
        for u in UNITS:
            for z in ("", "_from_zero"):
                key = f"broadcast/{kl}/{u}{z}"

                def go():
                    cond = and_(a, one)
                    r = ctx.run(P + "labelled" + z, args(sl, d, st(f"m {u}-1")), a)
                    ctx.accepts(key + "/accepts", r3, B, r, cond)
                    s = ctx.run(P + "line" + z, args(sl, d), a)
                    want = s.term()
                    if kl != "other axis":
                        f = ctx.run(P + "factor_default", args(st("ns"), st(u)), TRUE).term()
                        want = T.mul(f, View()(want))
                    got = View()(T.subst(r.term(), own))
                    ctx.same(key, r3, B, got, T.subst(want, own), and_(cond, r.pc), what="trend line")

                ctx.attempt(key, r3, B, go)
        if kl == "other axis":
            continue
        r5 = "a label that gives no single known time unit is rejected, one without any is per nanosecond, with a warning"
        for bad in ("m week-1", "m s-1 yr-1", "m year-1"):
            def go():
                key = f"broadcast/{kl}/'{bad}'"
                r = ctx.run(P + "labelled", args(sl, d, st(bad)), a)
                left = and_(r.pc, and_(a, one))
                if left is FALSE:
                    ctx.ok(key, r5, B)
                elif unmodelled(left):
                    ctx.unsure(key, r5, B, T.pretty(left, 4)[:300])
                else:
                    ctx.bad(key, r5, B, f"accepts a slope in '{bad}'")

            ctx.attempt(f"broadcast/{kl}/'{bad}'", r5, B, go)
        for name, call in (("no time unit", ("labelled", sl, d, st("m"))), ("no units", ("unlabelled", sl, d))):
            def go():
                key = f"broadcast/{kl}/{name}"
                cond = and_(a, one)
                r = ctx.run(P + call[0], args(*call[1:]), a)
                ctx.accepts(key + "/accepts", r5, B, r, cond)
                s = ctx.run(P + "line", args(sl, d), a)
                ctx.same(key, r5, B, View()(T.subst(r.term(), own)), T.subst(s.term(), own), and_(cond, r.pc), what="trend line")
                quiet = and_(and_(r.pc, cond), not_(or_(FALSE, *[e.pc for e in r.of("warn")])))
                if quiet is FALSE:
                    ctx.ok(key + "/warns", r5, B)
                elif unmodelled(quiet):
                    ctx.unsure(key + "/warns", r5, B, T.pretty(quiet, 4)[:300])
                else:
                    ctx.bad(key + "/warns", r5, B, f"no warning for a slope with {name}")

            ctx.attempt(f"broadcast/{kl}/{name}", r5, B, go)


def exclude(pc, X, tc, assume):
    return pc


# -------------------------------------------------------------------- C17
def c17(ctx):
    F = TR + "linear_detrend"
    X, tc = mk("sym", "x", "da"), S("tc")
    rules = {"remove": "result = input - (slope * coordinate + intercept)", "correct": "result = input - slope * coordinate"}
    inside = mk("in", tc, mk("attr", X, "dims"))
    for via in (F, "momlevel.util.linear_detrend"):
        for mode, rule in list(rules.items()) + [(None, rules["remove"])]:
            key = f"{'' if via is F else 'util/'}{mode or 'default'}"
            kw = {"mode": st(mode)} if mode else {}

            def go():
                r = ctx.run(via, args(arr("x"), dim=tc, **kw))
                s = ctx.run(P + (mode or "remove"), args(arr("x"), tc))
                pc = axis_facts(r.pc, X, tc)
                if pc is FALSE:
                    ctx.bad(key, rule, via, "never returns")
                    return
                if and_(inside, not_(pc)) is not FALSE:
                    gap = and_(inside, not_(pc))
                    (ctx.unsure if unmodelled(gap) or any(q.op == "isinstance" for q in T.atoms_of(gap)) else ctx.bad)(
                        key + "/accepts", rule, via, f"raises when {T.pretty(gap, 5)[:300]}")
                else:
                    ctx.ok(key + "/accepts", rule, via)
                a, b = axis_facts(r.term(), X, tc), axis_facts(s.term(), X, tc)
                ctx.same(key, rule, via, a, b, pc)
                I = r.at()
                ctx.same(key + "/name", "the name is kept", via, I.to_term(I.getattr_(r.value, "name")), mk("attr", X, "name"), pc, what="name")
                attrs(ctx, key, via, r, X, pc)

            ctx.attempt(key, rule, via, go)
            # variable by variable
            V = mk("sym", "x", "ds")

            def each():
                r = ctx.run(via, args(ds("x"), dim=tc, **kw))
                s = ctx.run(P + "each_" + (mode or "remove"), args(ds("x"), tc))
                if r.pc is FALSE:
                    ctx.bad(key + "/dataset", rule, via, "never returns")
                    return
                f = lambda t: every_axis(t, tc)
                ctx.same(key + "/dataset", rule + ", for each variable that has the dimension; others unchanged", via, f(r.term()), f(s.term()), f(r.pc))

            ctx.attempt(key + "/dataset", rule, via, each)

    # whatever the units of the field
    for mode, rule in rules.items():
        for u in ("m", "m s-1", "mm yr-1", "W m-2"):
            key = f"{mode}/units {u}"

            def labelled():
                r = ctx.run(P + "detrended", args(arr("x"), tc, st(mode), st(u)))
                s = ctx.run(P + mode, args(arr("x"), tc))
                pc = axis_facts(r.pc, X, tc)
                if pc is FALSE:
                    ctx.bad(key, rule, F, "never returns")
                    return
                gap = and_(inside, not_(pc))
                if gap is not FALSE:
                    (ctx.unsure if unmodelled(gap) else ctx.bad)(key + "/accepts", rule, F, f"raises for a field in {u} when {T.pretty(gap, 5)[:300]}")
                ctx.same(key, rule, F, axis_facts(r.term(), X, tc), axis_facts(s.term(), X, tc), pc)

            ctx.attempt(key, rule, F, labelled)

    def rejects():
        m, o = strsym("mode"), mk("sym", "order", "num")
        r = ctx.run(F, args(arr("x"), dim=tc, mode=m, order=o))
        cond = and_(or_(T.eq(m, st("remove")), T.eq(m, st("correct"))), T.eq(o, num(1)))
        ctx.refuses("rejects", "other modes and orders are rejected", F, r, cond)
        r = ctx.run(F, args(ds("x"), dim=tc, mode=st("other")))
        V = mk("sym", "x", "ds")
        for lab, v in (("list", lambda I: I.new_list([num(1)]) if hasattr(I, "new_list") else T.const((1,))), ("number", num(3)), ("numpy array", arr("x", "nd"))):
            r = ctx.run(F, args(v, dim=tc))
            if r.pc is FALSE:
                ctx.ok(f"rejects/{lab}", "other input types are rejected", F)
            elif unmodelled(r.pc) is not None:
                ctx.unsure(f"rejects/{lab}", "other input types are rejected", F, T.pretty(r.pc, 4))
            else:
                ctx.bad(f"rejects/{lab}", "other input types are rejected", F, f"a {lab} is accepted when {T.pretty(r.pc, 4)[:200]}")

    ctx.attempt("rejects", "other modes, orders and types are rejected", F, rejects)


def every_axis(t, dim):
    """axis_facts for all arrays"""
    m = {}
    for x in T.subterms(t):
        if x.op == "attr" and x.args[1] == "dims" and x.args[0].op == "item" and x.args[0].args[1] is dim:
            m[x] = mk("tuple", dim)
    return T.subst(t, m)


def attrs(ctx, key, func, r, X, pc):
    rule = "the attributes are kept"
    I = r.at()
    t = I.to_term(I.getattr_(r.value, "attrs"))
    want = mk("attr", X, "attrs")
    for c, v in cases(t):
        c = and_(c, pc)
        if c is FALSE:
            continue
        base = v
        if v.op == "dict":
            base = v.args[0]
            over = [k for k, _ in v.args[1] if not (k.op == "str" and k.args[0] == "detrend_comment")]
            lost = v.args[3] if len(v.args) > 3 else ()
            if over or lost:
                ctx.bad(key + "/attrs", rule, func, f"changes attributes {T.pretty(v, 4)[:200]}")
                return
        if base is want:
            continue
        if base is None or base is NONE or unmodelled(v) is None:
            ctx.bad(key + "/attrs", rule, func, f"attributes are {T.pretty(v, 4)[:200]}")
        else:
            ctx.unsure(key + "/attrs", rule, func, T.pretty(v, 4)[:200])
        return
    ctx.ok(key + "/attrs", rule, func)


def cases(t, c=TRUE):
    if t.op == "ite":
        yield from cases(t.args[1], and_(c, t.args[0]))
        yield from cases(t.args[2], and_(c, not_(t.args[0])))
    else:
        yield c, t


# -------------------------------------------------------------------- C18
TS = mk("sym", "ts", "nd")
N = mk("sym", "n", "int")
LABELS = ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]
FORMATS = {"coeff": 0, "residuals": 1, "model": 2}


class NotSeries(Exception):
    def __init__(self, msg, sure=False):
        super().__init__(msg)
        self.sure = sure


def one_length(t):
    """All one-dimensional arrays in the fit of a series have its length"""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is None:
            if x.op == "len":
                r = N
            elif x.op == "ones":
                r = num(1)
            else:
                r = T.rebuild(x, rec)
            memo[x] = r
        return r

    return rec(t)


def last_axis(A, tc):
    """Whether the last axis of the node is dimension tc: True, False or None"""
    if A.op in ("chunk", "named", "copy", "rename", "assign_coords"):
        return last_axis(A.args[0], tc)
    if A.op in ("movedims", "transpose"):
        d = A.args[1]
        d = d.args if isinstance(d, T.Term) else d
        if d and isinstance(d[-1], T.Term):
            if d[-1] is tc:
                return True
            if d[-1].op in ("str", "sym") or without(d[-1], tc):
                return False
    return None


def without(t, tc):
    """The names in an element of a sequence leave out tc"""
    return t.op == "each" and T.subst(t.args[2], {mk("bound", t.args[1]): tc}) is FALSE


def along_time(A, axis, X, tc):
    """The lanes of A along axis are the complete series of X along tc"""
    if View().value(A) is not X:
        raise NotSeries(f"the series are taken from {T.pretty(A, 4)[:200]}", unmodelled(A) is None)
    if axis.op == "num" and axis.args[0] == -1:
        l = last_axis(A, tc)
        if l is None:
            raise NotSeries(f"which dimension is last in {T.pretty(A, 4)[:200]}")
        if not l:
            raise NotSeries(f"the series are not along the time dimension but along the last of {T.pretty(A, 4)[:200]}", True)
        return
    if axis.op in ("axis_num", "index_of") and axis.args[1] is tc:
        return
    raise NotSeries(f"axis {T.pretty(axis, 3)} of {T.pretty(A, 4)[:200]}", axis.op == "num" and bool(last_axis(A, tc)))


def per_series(t, X, tc, coeff=False):
    """[(condition, what is computed from one series)]"""
    while t.op in ops.LAYOUT or t.op in ("outdims", "assign_coords", "chunk", "named", "rename", "mkarr", "resetcoords"):
        t = t.args[0]
    if t.op == "ite":
        return [(and_(c, t.args[0]), b) for c, b in per_series(t.args[1], X, tc, coeff)] + [
            (and_(c, not_(t.args[0])), b) for c, b in per_series(t.args[2], X, tc, coeff)]
    if t.op == "unlane":
        A, axis, body = t.args
        along_time(A, axis, X, tc)
        return [(TRUE, T.subst(body, {mk("lane", A, axis): TS}))]
    if t.op == "reshape" and t.args[0].op == "list" and len(t.args[0].args) == 1 and t.args[0].args[0].op == "each":
        S_, h, c, body = t.args[0].args[0].args
        if c is TRUE and S_.op == "reshape":
            along_time(S_.args[0], num(-1), X, tc)
            whole_rows(S_.args[0], S_.args[1], t.args[1], coeff)
            return [(TRUE, T.subst(body, {mk("bound", h): TS}))]
        if c is TRUE and S_.op == "movedims" and View().value(S_) is X:
            raise NotSeries("the series are taken along the first dimension only", True)
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each" and t.args[0].args[0].op == "reshape":
        raise NotSeries("the results are left in a list of points", True)
    raise NotSeries(f"no fit of each series in {T.pretty(t, 3)[:200]}", t.op == "reshape" and t.args[0] is mk("list"))


def whole_rows(A, shape, back, coeff):
    """The rows of the table are the series: (all points, length), and the
    results go back to the points"""
    sh = mk("attr", A, "shape")
    lead = mk("item", sh, mk("slice", NONE, num(-1), NONE))
    if shape.op == "tuple" and len(shape.args) == 2:
        p, q = shape.args
        for v, good, what in ((p, mk("prod", lead), "points"), (q, mk("item", sh, num(-1)), "steps")):
            parts = {x.op for x in T.subterms(v)} if v is not good and v is not num(-1) else set()
            if parts and (v.op == "num" or any(x is sh for x in T.subterms(v))) and v.op in ("num", "prod", "item") or v is mk("len", A):
                raise NotSeries(f"the number of {what} is taken to be {T.pretty(v, 2)[-150:]}", True)
    if back.op == "concatseq" and any(x is sh for x in T.subterms(back)):
        if back.args[0].op == "item" and back.args[0] is not lead:
            raise NotSeries(f"the results go back to {T.pretty(back, 2)[-150:]}", True)
        if back.args[1].op == "tuple" and back.args[1].args not in ((num(-1),), (num(6) if coeff else mk("item", sh, num(-1)),)):
            raise NotSeries(f"the results go back to {T.pretty(back.args[1], 2)[-150:]} per point", True)


def single_chunk(A, X, tc, pc):
    """The array handed to a blockwise operation has one chunk along tc"""
    out = []
    for c, v in spread(A):
        if and_(c, pc) is FALSE:
            continue
        ok, cut = False, False
        while v.op in ("movedims", "transpose", "chunk", "named", "rename", "copy"):
            if v.op == "chunk":
                for k, n in v.args[1]:
                    if k is tc:
                        whole = n.op == "num" and n.args[0] == -1 or n.op == "len" or n.op == "item" and n.args[1] is tc
                        ok, cut = whole or ok, not whole
            v = v.args[0]
        if cut:
            out.append((c, False))
        elif not ok:
            # not rechunked: only where it is known to be in one piece
            g = and_(c, pc)
            atoms = [a for a in T.atoms_of(g) if any(y.op == "attr" and y.args[1] in ("chunks", "chunksizes") for y in T.subterms(a))]
            def known(a):
                # len(x.chunks[time]) == 1
                return a.op == "eq" and num(1) in a.args and any(y.op == "len" for y in a.args) and and_(g, not_(a)) is FALSE
            atoms = [a for a in atoms if tc in T.subterms(a) or not all(x.op in ("eq", "num", "len", "item", "attr", "sym", "is", "none", "lt", "le") for x in T.subterms(a))]
            if any(known(a) for a in atoms):
                continue
            # known to be in another number of pieces, more than one
            many = any(a.op == "eq" and any(y.op == "num" and y.args[0] > 1 for y in a.args) and any(y.op == "len" for y in a.args)
                       and and_(g, not_(a)) is FALSE for a in atoms)
            out.append((c, None if atoms and not many else False))
    return out


def spread(t, c=TRUE):
    """Cases of a node below its layout operations"""
    if t.op == "ite":
        yield from spread(t.args[1], and_(c, t.args[0]))
        yield from spread(t.args[2], and_(c, not_(t.args[0])))
    elif t.op in ("movedims", "transpose", "chunk", "named", "rename", "copy"):
        for c2, v in spread(t.args[0], c):
            yield c2, mk(t.op, v, *t.args[1:])
    else:
        yield c, t


def c18(ctx):
    F, G, H = TR + "seasonal_model", TR + "seasonal_cycle_model", TR + "deseason"
    rule = "least squares fit of constant, trend, annual and semi-annual sine and cosine over the whole record"
    X, tc = mk("sym", "x", "da"), S("tc")
    tup = lambda i: (lambda I, v: I.to_term(I.resolve(v).items[i]))
    # seasonal_model
    for dim in (tc, None):
        kw = {"tcoord": dim} if dim is not None else {}
        lab = "names" if dim is not None else "default"
        for both in (True, False):
            def go():
                key = f"seasonal_model/{lab}/{'model' if both else 'residuals'}"
                k2 = dict(kw, return_model=TRUE) if both else kw
                r = ctx.run(F, args(arr("x"), **k2))
                s = ctx.run(P + "seasonal", args(arr("x"), dim if dim is not None else st("time")))
                if r.pc is FALSE:
                    ctx.bad(key, rule, F, "never returns")
                    return
                I = r.at()
                v = I.resolve(r.value)
                if both and isinstance(v, Obj) and v.kind == "da" or not both and isinstance(v, TupleVal):
                    ctx.bad(key, rule, F, f"returns {'one field' if both else 'several fields'} where {'model and residuals are' if both else 'only the residuals are'} asked for")
                    return
                got = [tup(0)(I, r.value), tup(1)(I, r.value)] if both else [None, I.to_term(r.value)]
                I = s.at()
                want = [tup(0)(I, s.value), tup(1)(I, s.value)]
                for i, what in ((0, "model"), (1, "residuals")):
                    if got[i] is not None:
                        ctx.same(f"{key}/{what}", rule, F, one_length(View()(got[i])), one_length(View()(want[i])), r.pc, what=what)

            ctx.attempt(f"seasonal_model/{lab}", rule, F, go)

    # one series
    def cycle():
        for lab, build, sb, spec in (
            ("given", args(arr("ts", "nd"), daysinyear=arr("diy", "nd")), args(arr("ts", "nd"), arr("diy", "nd")), "cycle"),
            ("default", args(arr("ts", "nd")), args(arr("ts", "nd")), "cycle_default"),
        ):
            r, s = ctx.run(G, build), ctx.run(P + spec, sb)
            axes = [x for x in T.subterms(mk("tuple", r.term(), r.pc)) if x.op == "item" and x.args[0] is mk("attr", TS, "shape") and x.args[1].op == "num" and x.args[1].args[0] not in (0, -1)]
            if axes:
                ctx.bad(f"cycle/{lab}", rule, G, f"a series has one dimension only; the code uses {T.pretty(axes[0], 3)}")
                continue
            for i, what in ((0, "coefficients"), (1, "residuals"), (2, "model")):
                I = r.at()
                a = one_length(View()(tup(i)(I, r.value)))
                I = s.at()
                b = one_length(View()(tup(i)(I, s.value)))
                ctx.same(f"cycle/{lab}/{what}", rule, G, a, b, one_length(r.pc), what=what)

    ctx.attempt("cycle", rule, G, cycle)
    # the fit of each series of an array
    def want(fmt, dim):
        y = ctx.run(P + "year_lengths", args(lambda I: I.getitem(I.sym("x", "da"), dim))).term()
        s = ctx.run(P + "cycle", args(arr("ts", "nd"), lambda I: I.new_arr("nd", y)))
        I = s.at()
        return one_length(View()(tup(FORMATS[fmt])(I, s.value)))

    for fmt in (None, "residuals", "model", "coeff"):
        for dim in (tc, st("time")):
            key = f"deseason/{fmt or 'default'}/{'names' if dim is tc else 'default'}"

            def go():
                kw = {"output_format": st(fmt)} if fmt else {}
                if dim is tc:
                    kw["tdim"] = tc
                r = ctx.run(H, args(arr("x"), **kw))
                if r.pc is FALSE:
                    ctx.bad(key, rule, H, "never returns")
                    return
                try:
                    cs = per_series(r.term(), X, dim, fmt == "coeff")
                except NotSeries as e:
                    (ctx.bad if e.sure else ctx.unsure)(key, rule, H, str(e))
                    return
                w = want(fmt or "residuals", dim)
                pc = one_length(View()(r.pc))
                for i, (c, body) in enumerate(cs):
                    c = and_(one_length(View()(c)), pc)
                    if c is not FALSE:
                        ctx.same(f"{key}/{i}", rule, H, one_length(View()(body)), w, c, what=fmt or "residuals")
                # the product of no sizes is a floating point number
                lone = next((x for x in T.subterms(r.term()) if x.op == "reshape" and x.args[1].op == "tuple" and any(
                    y.op == "prod" and y.args[0].op == "item" and y.args[0].args[0].op == "attr" and y.args[0].args[0].args[1] == "shape"
                    and y.args[0].args[1] is mk("slice", NONE, num(-1), NONE) for y in x.args[1].args)), None)
                if lone is not None:
                    ctx.bad(key + "/single", "a single series is accepted", H, f"the number of series of an array over time only is 1.0, which is no size: {T.pretty(lone.args[1], 4)[:150]}")
                else:
                    ctx.ok(key + "/single", "a single series is accepted", H)
                gap = and_(mk("in", dim, mk("attr", X, "dims")), not_(pc))
                every = "every array with the time dimension is accepted, in chunks or not"
                if gap is FALSE:
                    ctx.ok(key + "/accepts", every, H)
                elif unmodelled(gap) is None and all(a.op in ("in", "is") or a.op == "eq" and N in a.args for a in T.atoms_of(gap)):
                    ctx.bad(key + "/accepts", every, H, f"rejected when {T.pretty(gap, 5)[:200]}")
                else:
                    ctx.unsure(key + "/accepts", every, H, T.pretty(gap, 4)[:200])
                ctx.refuses(key + "/time", "an array without the time dimension is rejected", H, r, mk("in", dim, mk("attr", X, "dims")))
                whole = "the array is in one chunk along time wherever it is processed by chunks"
                for e in r.of("mapblocks"):
                    for c, v in single_chunk(e.data[1], X, dim, e.pc):
                        if v is None:
                            ctx.unsure(key + "/chunks", whole, H, f"when {T.pretty(c, 4)[:200]}")
                        else:
                            ctx.bad(key + "/chunks", whole, H, f"line {e.loc[2]}: {e.data[0]} on {T.pretty(e.data[1], 5)[:300]} when {T.pretty(and_(c, e.pc), 4)[:200]}")
                        break
                    else:
                        ctx.ok(key + "/chunks", whole, H)
                if fmt == "coeff":
                    labels(ctx, key, H, r, X, dim)
                dims(ctx, key, H, r, dim, fmt == "coeff")

            ctx.attempt(key, rule, H, go)

    def formats():
        f = strsym("fmt")
        r = ctx.run(H, args(arr("x"), tdim=tc, output_format=f))
        ctx.refuses("deseason/format", "unknown output formats are rejected", H, r, or_(*[T.eq(f, st(n)) for n in FORMATS]))

    ctx.attempt("deseason/format", rule, H, formats)


def dims(ctx, key, func, r, tc, coeff):
    """The named dimensions of the result are those the numbers lie along, and
    the sizes declared for the pieces are the sizes of what is computed"""
    rule = "the results lie along the dimensions of the series, and the terms of a fit along the dimension coeff"
    for x in T.subterms(r.term()):
        if x.op != "outdims" or x.args[1].op != "tuple":
            continue
        moved = {y.args[1] for y in T.subterms(x.args[0]) if y.op == "movedims" and isinstance(y.args[1], T.Term) and y.args[1].op == "tuple" and y.args[1].args}
        if len(moved) != 1:
            continue
        d = moved.pop()
        want = mk("tuple", *d.args[:-1], st("coeff")) if coeff else d
        got = x.args[1]
        if got is want:
            ctx.ok(key + "/dims", rule, func, T.pretty(want, 5)[:200])
        elif len(got.args) == len(want.args) and got.args[:-1] == want.args[:-1] and got.args[-1].op == "str":
            ctx.bad(key + "/dims", rule, func, f"the last dimension is {got.args[-1].args[0]}")
        elif any(y.op in ("each", "item") and part_of(y, d) for y in got.args) or not any(y.op == "each" for y in got.args):
            ctx.bad(key + "/dims", rule, func, f"the dimensions are {T.pretty(got, 6)[:300]} where the numbers lie along {T.pretty(want, 6)[:200]}")
        else:
            ctx.unsure(key + "/dims", rule, func, f"{T.pretty(got, 5)[:200]} {T.pretty(want, 5)[:200]}")
    for e in r.of("mapblocks"):
        meta = dict(e.data[2])
        if "chunks" not in meta:
            if coeff and not {"drop_axis", "new_axis", "**"} & set(meta):
                ctx.bad(key + "/sizes", rule, func, f"line {e.loc[2]}: no sizes are declared for the pieces, which do not have those of the series")
            elif coeff:
                ctx.unsure(key + "/sizes", rule, func, "no chunks declared")
            continue
        ch = meta["chunks"]
        for c, v in [q for c, v in cases(ch) for q in ungated(c, v)]:
            if and_(c, e.pc) is FALSE:
                continue
            seq = v.args if v.op in ("list", "tuple") else None
            whole = v.op == "attr" and v.args[1] == "chunks" and v.args[0] is e.data[1]
            six = seq is not None and len(seq) == 2 and seq[1] in (num(6), mk("tuple", num(6)))
            lead = seq[0].args[0] if seq and seq[0].op == "each" else None
            if six and lead is not None and lead.op == "item" and lead.args[0].op == "attr" and lead.args[1] is not mk("slice", NONE, num(-1), NONE):
                six = False
            if whole and not coeff or six and coeff:
                ctx.ok(key + "/sizes", rule, func, T.pretty(v, 3)[:200])
            elif lead is not None and len(seq) == 1 and lead.op == "item" and lead.args[0] is mk("attr", e.data[1], "chunks") and lead.args[1] is mk("slice", NONE, num(-1), NONE) and seq[0].args[3].op in ("bound", "bv"):
                ctx.bad(key + "/sizes", rule, func, f"line {e.loc[2]}: no size is declared for the last dimension of the pieces when {T.pretty(c, 3)[:200]}")
            elif whole and coeff or six or seq is not None and len(seq) == 2 and seq[1].op == "tuple" and all(y.op == "num" for y in seq[1].args):
                ctx.bad(key + "/sizes", rule, func, f"line {e.loc[2]}: the pieces are declared to have the sizes {T.pretty(v, 3)[:200]} when {T.pretty(c, 3)[:200]}")
            else:
                ctx.unsure(key + "/sizes", rule, func, T.pretty(v, 4)[:200])


def ungated(c, v):
    """A list with entries that are there under a condition, case by case"""
    g = next((a for a in v.args if isinstance(a, T.Term) and a.op == "gelem"), None) if v.op in ("list", "tuple") else None
    if g is None or unmodelled(g.args[0]) is not None:
        return [(c, v)]
    out = []
    for k, e in ((g.args[0], (g.args[1],)), (not_(g.args[0]), ())):
        if and_(c, k) is not FALSE:
            out += ungated(and_(c, k), mk(v.op, *[b for a in v.args for b in (e if a is g else (a,))]))
    return out


def part_of(y, d):
    """A piece of the sequence d picked by number"""
    if y.op == "each":
        y = y.args[0]
    return y.op == "item" and y.args[0].op in ("list", "tuple") and y.args[0].args == d.args


def labels(ctx, key, func, r, X, dim):
    rule = "each coefficient carries the label of its own term"
    t = r.term()
    found = []
    for x in T.subterms(t):
        if x.op == "assign_coords":
            for k, v in x.args[1]:
                if k is st("coeff"):
                    found.append(v)
        if x.op == "mkarr" and x.args[1].op == "dict":
            for k, v in x.args[1].args[1]:
                if k is st("coeff"):
                    found.append(v)
    if not found:
        ctx.bad(key + "/labels", rule, func, "the coefficients carry no labels")
        return
    for v in found:
        if v.op in ("list", "tuple") and all(a.op == "str" for a in v.args):
            got = [a.args[0] for a in v.args]
            if got == LABELS:
                ctx.ok(key + "/labels", rule, func, ", ".join(got))
            else:
                ctx.bad(key + "/labels", rule, func, f"labels are {got}; the terms are {LABELS}")
        else:
            ctx.unsure(key + "/labels", rule, func, T.pretty(v, 3)[:200])
    for x in T.subterms(t):
        if x.op == "outdims":
            d = x.args[1]
            if d.op == "tuple" and d.args and d.args[-1].op in ("str", "sym"):
                if d.args[-1] is st("coeff"):
                    ctx.ok(key + "/dimension", rule, func, "the terms lie along the dimension coeff")
                else:
                    ctx.bad(key + "/dimension", rule, func, f"the dimension of the terms is {T.pretty(d, 3)}")
