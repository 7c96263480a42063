"""C34: time comes first, and no coordinate is left over from the calculation"""
from .. import terms as T
from ..terms import Term, mk, st, TRUE, FALSE, NONE, and_, not_
from ..contexts import S, args, arr, ds, names
from ..checks import pick
from ..values import TupleVal
from ..views import unmodelled

U, TR = "momlevel.util.", "momlevel.trend."
THROUGH = ("named", "rename", "copy", "chunk", "assign_coords", "astype", "resetcoords", "load", "compute", "store", "dropvars", "onaxis", "unary", "mkarr")


def scalar(t):
    if t.op in ("num", "pi"):
        return True
    if t.op == "sym":
        return len(t.args) > 1 and t.args[1] in ("num", "int", "bool")
    if t.op in ("inv", "neg", "abs"):
        return scalar(t.args[0])
    if t.op == "poly":
        return all(scalar(x) for _, m in t.args[0] for x, _ in m)
    return t.op == "reduce" and isinstance(t.args[2], Term) and t.args[2].op == "alldims"


def dims_of(t):
    d = t.args[1]
    return list(d.args) if isinstance(d, Term) else list(d)


def as_given(d):
    """All dimensions of an input, in its order"""
    if d.op == "each" and d.args[2] is TRUE and d.args[3] is mk("bound", d.args[1]):
        d = d.args[0]
    if d.op == "attr" and d.args[1] == "dims":
        x = d.args[0]
        return x.op == "sym" or x.op == "item" and x.args[0].op == "sym"
    return False


def leads(t, tc):
    """[(condition, True / False / None, why)]: whether the first dimension is tc in every layout of the inputs"""
    if t.op == "ite":
        return [(and_(c0, c), v, w) for c0, b in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])) for c, v, w in leads(b, tc)]
    if t.op in ("transpose", "movedims", "outdims"):
        d = dims_of(t)
        if not d:
            return [(TRUE, False, "the dimensions are reversed")]
        if d[0] is tc:
            return [(TRUE, True, "")]
        if d[0] is Ellipsis or isinstance(d[0], Term) and d[0].op in ("str", "ellipsis", "sym"):
            return [(TRUE, False, f"the dimensions are put in the order {', '.join(T.pretty(x, 2) if isinstance(x, Term) else '...' for x in d)[:150]}")]
        if isinstance(d[0], Term) and d[0].op == "starred":
            d[0] = d[0].args[0]
        if isinstance(d[0], Term) and as_given(d[0]):
            return [(TRUE, False, "the order of the dimensions is that of an input")]
        if isinstance(d[0], Term) and d[0].op == "each" and T.subst(d[0].args[2], {mk("bound", d[0].args[1]): tc}) is FALSE:
            return [(TRUE, False, "the other dimensions come first")]
        if isinstance(d[0], Term) and d[0].op == "each" and tc in d[1:]:
            return [(TRUE, False, "other dimensions come first")]
        return [(TRUE, None, T.pretty(t, 2)[:200])]
    if t.op in THROUGH:
        return leads(t.args[0], tc)
    if t.op == "item" and t.args[1].op == "str" and (t.args[0].op in THROUGH or t.args[0].op in ("transpose", "concat", "ite")):
        return leads(t.args[0], tc)
    if t.op == "where":
        for k in (1, 2):
            if t.args[3 - k].op in ("nan", "num"):
                return leads(t.args[k], tc)
        return [(TRUE, None, T.pretty(t, 2)[:200])]
    if t.op == "concat":
        # a new dimension comes first
        if t.args[1] is tc and t.args[0].op == "list" and all(lacks(x.args[3] if x.op == "each" else x, tc) for x in t.args[0].args):
            return [(TRUE, True, "")]
        return [(TRUE, None if unmodelled(t) else False, f"the pieces keep the order of their dimensions: {T.pretty(t, 2)[:200]}")]
    if t.op == "poly":
        if len(t.args[0]) == 1:
            many = [(x, e) for x, e in t.args[0][0][1] if not scalar(x)]
            if len(many) == 1 and many[0][1] == 1:
                return leads(many[0][0], tc)
        return [(TRUE, None if unmodelled(t) else False, "the order of the dimensions is that of the operands")]
    if t.op == "reduce":
        return [(TRUE, None if unmodelled(t) else False, "the order of the dimensions is that left by a reduction")]
    return [(TRUE, None, T.pretty(t, 2)[:200])]


def lacks(t, tc):
    """The node has no dimension tc any more"""
    while t.op in THROUGH:
        t = t.args[0]
    return t.op in ("wmean", "weighted_mean") and tc in T.subterms(t) or t.op == "reduce" and isinstance(t.args[2], Term) and tc in T.subterms(t.args[2])


def c34(ctx):
    r1 = "the result has the time dimension first, however the dimensions of the inputs are ordered"
    r2 = "no coordinate of the calculation stays behind in the result"
    tc = S("tc")

    def judge(key, func, r, t, dim):
        bad = open_ = None
        for c, v, w in leads(t, dim):
            c = and_(c, r.pc)
            if c is FALSE:
                continue
            if v is False:
                bad = bad or f"{w}{'' if c is TRUE else ' when ' + T.pretty(c, 3)[:150]}"
            elif v is None:
                open_ = open_ or w
        if bad:
            ctx.bad(key, r1, func, bad)
        elif open_:
            ctx.unsure(key, r1, func, open_)
        else:
            ctx.ok(key, r1, func)

    F = "momlevel.steric.steric"
    for v in ("steric", "thermosteric", "halosteric"):
        for given in (False, True):
            for lab, dim in (("names", tc), ("default", st("time"))):
                for annual in (False, True):
                    key = f"{v}/{'given' if given else 'derived'}/{lab}{'/annual' if annual else ''}"

                    def go():
                        kw = dict(variant=st(v), domain=st("local"))
                        if dim is tc:
                            kw["coord_names"] = names
                        if given:
                            kw["reference"] = ds("ref")
                        if annual:
                            kw["annual"] = TRUE
                        r = ctx.run(F, args(ds(), **kw))
                        if r.pc is FALSE:
                            return
                        for n in (v, "delta_rho"):
                            I = r.at()
                            judge(f"{key}/{n}", F, r, I.to_term(I.getitem(I.resolve(r.value).items[0], st(n))), dim)

                    ctx.attempt(key, r1, F, go)
    for f in ("annual_average", "monthly_average"):
        for k in ("da", "ds"):
            for lab, dim in (("names", tc), ("default", st("time"))):
                def go():
                    r = ctx.run(U + f, args(lambda I: I.sym("x", k), **({"tcoord": tc} if dim is tc else {})))
                    judge(f"{f}/{k}/{lab}", U + f, r, r.term(), dim)

                ctx.attempt(f"{f}/{k}/{lab}", r1, U + f, go)
    for fmt in ("residuals", "model", "coeff"):
        for lab, dim in (("names", tc), ("default", st("time"))):
            def go():
                r = ctx.run(TR + "deseason", args(arr("x"), output_format=st(fmt), **({"tdim": tc} if dim is tc else {})))
                judge(f"deseason/{fmt}/{lab}", TR + "deseason", r, r.term(), st("coeff") if fmt == "coeff" else dim)

            ctx.attempt(f"deseason/{fmt}/{lab}", r1, TR + "deseason", go)
    # coordinates left by picking one term of a fit
    F = TR + "calc_linear_trend"
    X = mk("sym", "x", "da")

    def degree():
        for lab, kw in (("units", dict(dim=tc, time_units=st("yr"))), ("names", dict(dim=tc)), ("default", {})):
            r = ctx.run(F, args(arr("x"), **kw))
            for part in ("slope", "intercept"):
                key = f"calc_linear_trend/{lab}/{part}"
                I = r.at()
                t = I.to_term(I.getitem(r.value, T.fmt([mk("attr", X, "name"), st("_" + part)])))
                left = False
                for x in T.subterms(t):
                    if x.op == "sel" and any(k is st("degree") for k, _ in x.args[1]):
                        if not kept(t, x):
                            continue
                        left = True
                if left:
                    ctx.bad(key, r2, F, f"the coordinate degree stays in {T.pretty(t, 4)[:200]}")
                else:
                    ctx.ok(key, r2, F)

    ctx.attempt("calc_linear_trend", r2, F, degree)
    # dimensions of size one
    from .defaults import table

    r5 = "a dimension of size one stays a dimension"
    ctx.opaque_eos()
    for label, F, req, opts, other, settings in table():
        if label.startswith(("wright/", "linear/")):
            continue
        every = [(f"{n}", dict(f)) for n, f in enumerate(settings)] + [(o, {o: v}) for o, v in other.items()]
        for how, kw in every:

            def go():
                r = ctx.run(F, args(*[v for _, v in req], **kw))
                if r.pc is FALSE:
                    return
                gone = [x for x in T.subterms(r.term()) if x.op == "squeeze" and not x.args[1] and not x.args[2]]
                if gone:
                    ctx.bad(f"single/{label}/{how}", r5, F, f"every dimension of size one of {T.pretty(gone[0].args[0], 4)[:200]} is dropped")
                else:
                    ctx.ok(f"single/{label}/{how}", r5, F)

            ctx.attempt(f"single/{label}/{how}", r5, F, go)
    ctx.opaque_eos(False)
    # the time axis of a fitted model
    r4 = "a field over time has the time axis of the series it was made from"
    F = TR + "seasonal_model"

    def axis():
        for lab, dim in (("names", tc), ("default", st("time"))):
            r = ctx.run(F, args(arr("x"), return_model=TRUE, **({"tcoord": tc} if dim is tc else {})))
            I = r.at()
            v = I.resolve(r.value)
            for i, part in enumerate(("model", "residuals")):
                got = on_axis(I.to_term(v.items[i]), dim, X)
                key = f"seasonal_model/{lab}/{part}/axis"
                if got is True:
                    ctx.ok(key, r4, F)
                elif got is False:
                    ctx.bad(key, r4, F, f"no part of {T.pretty(I.to_term(v.items[i]), 3)[:200]} has the coordinate {T.pretty(dim, 1)}")
                else:
                    ctx.unsure(key, r4, F, T.pretty(I.to_term(v.items[i]), 3)[:200])

    ctx.attempt("seasonal_model", r4, F, axis)
    # columns of the table of locations
    F = U + "geolocate_points"
    r3 = "the table of locations gains the columns of the mapping, loses the coordinates and has no column of the calculation"
    gained = {st(c) for c in ("distance", "mod_index", "model_coords", "dim_vals", "real_coords")}
    pair = lambda a, b: lambda I: TupleVal([a, b])
    L = mk("sym", "locs", "df")
    for lab, y, x in (("default", st("lat"), st("lon")), ("names", mk("sym", "ly", "str"), mk("sym", "lx", "str"))):
        for th in (False, True):
            for masked in (TRUE, FALSE):
                key = f"geolocate_points/{lab}/{'threshold' if th else 'all'}/{'masked' if masked is TRUE else 'unmasked'}"

                def go():
                    kw = dict(apply_mask=masked)
                    if lab == "names":
                        kw.update(loc_coords=pair(y, x))
                    if th:
                        kw["threshold"] = S("th")
                    r = ctx.run(F, args(lambda I: I.sym("model", "df"), lambda I: I.sym("locs", "df"), **kw))
                    for c, t in T.paths(r.term()):
                        if and_(c, r.pc) is FALSE:
                            continue
                        got = columns(t, L)
                        if got is None:
                            ctx.unsure(key, r3, F, T.pretty(t, 3)[:200])
                            continue
                        plus, minus = got
                        if plus == gained and minus - {st("yrad"), st("xrad")} == {y, x}:
                            ctx.ok(key, r3, F)
                        elif any(at_most(z) is None for z in minus) is False and not {y, x} <= set().union(*[at_most(z) for z in minus], ()):
                            ctx.bad(key, r3, F, "columns kept: " + ", ".join(T.pretty(z, 2) for z in (y, x) if not any(z in at_most(m) for m in minus)))
                        elif unmodelled(mk("tuple", *plus, *minus)) is not None or any(z.op not in ("str", "sym") for z in plus | minus):
                            ctx.unsure(key, r3, F, "columns not decided")
                        else:
                            ctx.bad(key, r3, F, "columns " + ", ".join(
                                [f"left behind: {T.pretty(z, 2)}" for z in sorted(plus - gained, key=lambda z: z.id)] + [f"missing: {T.pretty(z, 2)}" for z in sorted(gained - plus, key=lambda z: z.id)]
                                + [f"kept: {T.pretty(z, 2)}" for z in (y, x) if z not in minus] + [f"dropped: {T.pretty(z, 2)}" for z in sorted(minus - {y, x, st("yrad"), st("xrad")}, key=lambda z: z.id)])[:300])

                ctx.attempt(key, r3, F, go)


def on_axis(t, dim, x):
    """Whether t has the coordinate dim of the array x: True, False or None"""
    if t is x:
        return True
    if t.op == "xrdot":
        if t.args[1].op != "set" or any(a.op not in ("str", "sym") for a in t.args[1].args):
            return None
        return False if dim in t.args[1].args else some([on_axis(a, dim, x) for a in t.args[0]])
    if t.op in ("expand_dims", "named", "rename", "copy", "transpose", "astype") or t.op == "resetcoords" and isinstance(t.args[1], Term) and t.args[1].op == "alldims":
        return on_axis(t.args[0], dim, x)
    if t.op == "mkarr" and t.args[1] is NONE:
        return False
    if t.op == "mkarr" and t.args[1].op == "dict" and t.args[2].op == "tuple":
        if dim not in t.args[2].args:
            return False if all(a.op in ("str", "sym") for a in t.args[2].args) else None
        base, items, each = t.args[1].args[:3]
        v = dict(items).get(dim)
        if v is None:
            return False if base is NONE and not each else None
        while v.op == "attr" and v.args[1] in ("values", "data"):
            v = v.args[0]
        return True if v.op == "item" and v.args[1] is dim and x in T.subterms(v) else None
    p = T.to_poly(t) if t.op in ("poly", "add", "mul", "sum", "prod") else None
    if p:
        return some([on_axis(a, dim, x) for m in p for a, _ in m])
    return None


def some(vs):
    return True if any(v is True for v in vs) else None if any(v is None for v in vs) else False


def at_most(z):
    """The names an entry of a set of columns can stand for"""
    if z.op in ("str", "sym"):
        return {z}
    if z.op == "each" and z.args[2] is TRUE and z.args[3].op in ("bound", "bv"):
        z = z.args[0]
        if z.op == "inter":
            known = [a for a in z.args if a.op in ("set", "list", "tuple") and all(b.op in ("str", "sym") for b in a.args)]
            return set(known[0].args) if known else None
        if z.op in ("set", "list", "tuple") and all(b.op in ("str", "sym") for b in z.args):
            return set(z.args)
    return None


def columns(t, base):
    """The columns a table has beyond those of base, and those it lacks"""
    if t is base:
        return set(), set()
    if t.op in ("filter", "iloc", "copy", "reset_index", "sortrows") and isinstance(t.args[0], Term):
        return columns(t.args[0], base)
    if t.op == "frame":
        r = columns(t.args[0], base)
        if r is None:
            return None
        ks = {k for k, _ in t.args[1]}
        return r[0] | ks, r[1] - ks
    if t.op == "dropcols" and t.args[1].op == "set":
        r = columns(t.args[0], base)
        if r is None:
            return None
        ks = set(t.args[1].args)
        return r[0] - ks, r[1] | ks
    return None


def kept(t, x):
    """A path from t down to the selection x drops nothing on its way"""
    if t is x:
        return True
    if t.op == "dropvars" and any(y is st("degree") for y in T.subterms(t.args[1])):
        return False
    if t.op in ("resetcoords", "values", "mkarr"):
        return False
    return any(x in T.subterms(a) and kept(a, x) for a in T.children(t))
