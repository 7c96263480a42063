"""C20, C27: mapping of locations, cell areas"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..values import TupleVal
from ..contexts import S, args, arr, ds
from ..checks import part
from ..views import View, unmodelled, compare

U, TG, P = "momlevel.util.", "momlevel.tidegauge.", "specs.geo."
COLUMNS = ("distance", "model_coords", "dim_vals", "real_coords", "name")


def name(n):
    return mk("sym", n, "str")


def table(n):
    return lambda I: I.sym(n, "df")


def pair(a, b):
    return lambda I: TupleVal([a, b])


def spread(t, memo=None):
    """Arithmetic on several columns at once is arithmetic on each, and a
    choice of columns is a column of each choice"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = top_level(T.rebuild(t, lambda x: spread(x, memo)))
    return r


def top_level(r):
    if r.op == "ite":
        return T.ite(r.args[0], top_level(r.args[1]), top_level(r.args[2]))
    if r.op == "le":
        return not_(T.lt(r.args[1], r.args[0]))  # distances are never missing
    if r.op == "tensor" and r.args[0] == ("*", 2):
        r = mk("columns", *r.args[1])
    if r.op == "poly" and len(r.args[0]) == 1:
        c, m = r.args[0][0]
        cols = [a for a, e in m if a.op == "columns" and e == 1]
        rest = [(a, e) for a, e in m if a.op != "columns"]
        if len(cols) == 1 and all(a.op in ("pi", "sym") for a, e in rest):
            k = num(c)
            for a, e in rest:
                k = T.mul(k, T.power(a, num(e)))
            r = mk("columns", *[T.mul(k, x) for x in cols[0].args])
    if r.op in LIFTED and any(isinstance(a, T.Term) and a.op == "ite" for a in r.args):
        ts = [a for a in r.args if isinstance(a, T.Term)]

        def put(*xs):
            it = iter(xs)
            return mk(r.op, *[next(it) if isinstance(a, T.Term) else a for a in r.args])

        return T.lift(put, *ts)
    return r


LIFTED = ("columns", "nearest", "balltree", "item")


class FrameView(View):
    def top(self, t):
        return spread(super().top(t))


def clean(t):
    """The caller's column names are not those the routine uses for its own columns"""
    m = {a: FALSE for a in T.subterms(t) if a.op == "eq" and {x.op for x in a.args} == {"str", "sym"}}
    return T.subst(t, m) if m else t


def c20(ctx):
    F = U + "geolocate_points"
    my, mx, ly, lx = name("my"), name("mx"), name("ly"), name("lx")
    distinct = and_(not_(T.eq(my, mx)), not_(T.eq(ly, lx)))
    rule = "nearest point of the mask by great-circle distance, kept iff within the threshold"
    named = dict(model_coords=pair(my, mx), loc_coords=pair(ly, lx))
    cases = {
        "names": (named, pair(my, mx), pair(ly, lx), distinct),
        "default": ({}, pair(st("geolat"), st("geolon")), pair(st("lat"), st("lon")), TRUE),
    }
    th, rad = S("th"), S("radius")
    for cl, (kw, mc, lc, assume) in cases.items():
        for tl, tkw, t in (("no threshold", {}, NONE), ("threshold", dict(threshold=th), th)):
            for ml, mkw, m in (("mask", {}, TRUE), ("masked", dict(apply_mask=TRUE), TRUE), ("unmasked", dict(apply_mask=FALSE), FALSE)):
                for rl, rkw, rr in (("radius", dict(rad_earth=rad), rad), ("default radius", {}, num(6378))):
                    for wl, wkw in (("", {}), ("/warnings", dict(disable_warning=FALSE))):
                        key = "/".join((cl, tl, ml, rl)) + wl

                        def go():
                            r = ctx.run(F, args(table("model"), table("locs"), **kw, **tkw, **mkw, **rkw, **wkw), assume)
                            ctx.accepts(key + "/accepts", rule, F, r, assume)
                            if r.pc is FALSE:
                                return
                            for c in COLUMNS:
                                I = r.at()
                                got = I.to_term(I.getitem(r.value, st(c)))
                                s = ctx.run(P + ("names" if c == "name" else c), args(table("model"), table("locs"), mc, lc, rr, t, m), assume).term()
                                v = FrameView()
                                ctx.same(f"{key}/{c}", rule, F, v(clean(got)), v(clean(s)), and_(assume, clean(r.pc)), view=lambda x: x, what=c)
                            warned(ctx, key, F, r, wl and t is not NONE, args(table("model"), table("locs"), mc, lc, rr, t, m), assume)

                        ctx.attempt(key, rule, F, go)
    extraction(ctx)


def warned(ctx, key, F, r, on, build, assume):
    rule = "one warning for each dropped location, when enabled"
    ws = [e for e in r.of("warn") if and_(e.pc, assume) is not FALSE]
    if not on:
        if not ws:
            ctx.ok(key + "/warnings", rule, F)
        elif all(unmodelled(e.pc) is None for e in ws):
            ctx.bad(key + "/warnings", rule, F, f"warns (line {ws[0].loc[2]}) when {T.pretty(ws[0].pc, 4)[:200]}")
        return
    want = FrameView()(ctx.run(P + "dropped", build, assume).term())
    if not ws:
        ctx.bad(key + "/warnings", rule, F, "no warning for dropped locations")
        return
    for e in ws:
        sets = {x for q in (e.pc, *[d for d in e.data if isinstance(d, T.Term)]) for x in T.subterms(q) if x.op == "filter"}
        sets = {FrameView()(x.args[1]) for x in sets if FrameView()(x.args[1]) is not None}
        sets = {c for c in sets if any(y.op == "nearest" for y in T.subterms(c))}
        if not sets:
            ctx.unsure(key + "/warnings", rule, F, "warning under other conditions")
            continue
        for c in sets:
            ctx.same(key + "/warnings", rule, F, clean(c), clean(want), assume, view=lambda x: x, what="dropped locations")


# ------------------------------------------------------------- extraction
class PointView(FrameView):
    """Column of the table made from named arrays: the array, cell by cell"""

    def value(self, t):
        if t.op == "item" and t.args[0].op == "pdconcat" and t.args[0].args[1] is T.ONE:
            for f in t.args[0].args[0]:
                if f.op == "to_dataframe" and f.args[1] is t.args[1]:
                    return mk("cells", self.value(f.args[0]))
        if t.op in ("list", "tuple") and len(t.args) == 1 and t.args[0].op == "each":
            s, h, c, v = t.args[0].args
            if c is TRUE and v is mk("bound", h) and s.op == "attr" and s.args[1] == "dims":
                return self.value(s)  # the elements in order
        if t.op in ("iterrows", "itertuples"):
            return self.value(mk("rows", self.I.df_index(t.args[0])))
        if t.op == "item" and t.args[0].op == "row" and t.args[1].op == "str":
            return self.at(self.value(self.I.df_col(t.args[0].args[0], t.args[1])), self.value(t.args[0].args[1]))
        return super().value(t)

    def at(self, col, i):
        if col.op == "repeat" and col.args[0].op in ("list", "tuple") and len(col.args[0].args) == 1:
            return col.args[0].args[0]
        if col.op in ("list", "tuple") and len(col.args) == 1 and col.args[0].op == "each":
            _, h, c, v = col.args[0].args
            if c is TRUE and mk("bound", h) not in T.subterms(v):
                return v  # the same value in every row
        return mk("at", col, i)

    def __init__(self, I):
        super().__init__()
        self.I = I


def fits(a, xc, yc):
    """What the documentation requires: coordinates that exist, on the same
    dimensions, and a table that exists"""
    if a.op == "pathexists":
        return True
    if a.op == "in":
        return a.args[1].op == "attr" and a.args[1].args[1] == "coords"
    if a.op == "eq":
        subs = [T.subterms(x) for x in a.args]
        return all(any(y.op == "attr" and y.args[1] == "dims" for y in s) for s in subs)
    return False


def extraction(ctx):
    F = TG + "extract_tidegauge"
    rule = "under the name of each kept location, the array at the dimension values of its nearest point"
    th, q = S("th"), mk("sym", "quiet", "bool")
    xn, yn = name("xn"), name("yn")
    X = mk("sym", "x", "da")
    coords = {
        "default": ({}, lambda I: I.getitem(I.sym("x", "da"), st("geolon")), lambda I: I.getitem(I.sym("x", "da"), st("geolat"))),
        "by name": (dict(xcoord=xn, ycoord=yn), lambda I: I.getitem(I.sym("x", "da"), xn), lambda I: I.getitem(I.sym("x", "da"), yn)),
        "arrays": (dict(xcoord=arr("xc"), ycoord=arr("yc")), arr("xc"), arr("yc")),
    }
    path = lambda n: ctx.run(P + "table", args(st(n))).term()
    files = {
        "us": (dict(csv=st("us")), path("us_tide_gauges.csv")), "no table": ({}, path("us_tide_gauges.csv")),
        "global": (dict(csv=st("global")), path("global_tide_gauges.csv")),
        "own table": (dict(csv=name("file")), name("file")),
    }
    f = name("file")
    assume0 = and_(not_(T.eq(f, st("us"))), not_(T.eq(f, st("global"))))
    for cl, (ckw, xc, yc) in coords.items():
        for rank in (1, 2):
            for ml, mkw in (("no mask", {}), ("mask", dict(mask=arr("mask")))):
                for fl, (fkw, p) in files.items():
                    if fl != "us" and (cl != "default" or rank != 2):
                        continue
                    for ol, okw, t, qq in (("default", {}, NONE, TRUE), ("options", dict(threshold=th, disable_warning=q), th, q)):
                        key = f"extract/{cl}/{rank}-D/{ml}/{fl}/{ol}"

                        def go():
                            xt, yt = (ctx.run(P + "given_coord", args(c)).term() for c in (xc, yc))
                            d = lambda c: mk("attr", c, "dims")
                            assume = and_(assume0, *[T.eq(mk("len", d(c)), num(k)) if k == rank else not_(T.eq(mk("len", d(c)), num(k))) for c in (xt, yt) for k in (0, 1, 2, 3)])
                            r = ctx.run(F, args(arr("x"), **ckw, **mkw, **fkw, **okw), assume)
                            if r.pc is FALSE:
                                ctx.bad(key, rule, F, "never returns")
                                return
                            fit = and_(*[a for a in T.atoms_of(r.pc) if fits(a, xt, yt)])
                            if fit is not FALSE and and_(fit, assume) is not FALSE:
                                ctx.accepts(key + "/accepts", rule, F, r, and_(fit, assume))
                            pos = [arr("x"), xc, yc] + ([arr("mask")] if mkw else []) + [p, t, qq]
                            s = ctx.run(P + ("masked" if mkw else "all_points") + ("_1d" if rank == 1 else ""), args(*pos), assume)
                            v = PointView(r.at())
                            a, b = v(clean(r.term())), v(clean(s.term()))
                            ctx.same(key, rule, F, a, b, and_(assume, r.pc), view=lambda x: x, what="series")

                        ctx.attempt(key, rule, F, go)


# ------------------------------------------------------------ cells, axes
class GridView(View):
    """Each vector along the dimension it varies along; sines and cosines of
    sums expanded"""

    def __init__(self, dims=(st("axis 1"), st("axis 0"))):
        super().__init__()
        self.dims = dims  # last first

    def top(self, t):
        t = self.axes(t)
        if t.op == "mkarr" and t.args[2].op in ("tuple", "list") and len(t.args[2].args) == 2:
            return mk("gridded", one_abs(GridView(t.args[2].args[::-1]).value(t.args[0])), t.args[2].args, t.args[1])
        return one_abs(self.value(t))

    def axes(self, t):
        """Other ways to put a vector on an axis"""
        if t.op == "ones":
            return T.ONE
        if t.op == "reshape":
            k = [x.args[0] if x.op == "num" else None for x in t.args[1].args] if t.args[1].op == "tuple" else None
            if k == [-1, 1]:
                return self.column(self.axes(t.args[0]))
            if k == [1, -1]:
                return self.axes(t.args[0])
        if t.op == "broadcast":
            return mk("call", "xarray.broadcast", (t,), ())  # order of the axes not known
        return T.rebuild(t, self.axes)

    def column(self, t):
        if t.op == "poly":
            return T.rebuild(t, self.column)
        if t.op in ("num", "pi") or t.op == "item" and t.args[1].op == "num":
            return t
        if t.op in ("sin", "cos"):
            return mk(t.op, self.column(t.args[0]))
        return mk("onaxis", t, 1)

    def value(self, t):
        r = self.memo.get(t)
        if r is None:
            if t.op == "onaxis" and t.args[1] < len(self.dims):
                r = self.along(t.args[0], self.dims[t.args[1]])
            elif t.op == "grid2":
                r = self.along(t.args[0], self.dims[0 if t.args[1] == "inner" else 1])
            elif t.op == "item" and t.args[1].op == "num":
                r = t
            else:
                r = T.rebuild(t, self.value)
                if r.op in ("sin", "cos"):
                    r = expanded(r.op, r.args[0])
            self.memo[t] = r
        return r

    def along(self, t, d):
        if t.op == "poly":
            return T.rebuild(t, lambda x: self.along(x, d))
        if t.op in ("num", "pi") or t.op == "item" and t.args[1].op == "num":
            return t
        if t.op in ("sin", "cos"):
            return expanded(t.op, self.along(t.args[0], d))
        return mk("along", t, d)


def one_abs(t):
    """The magnitudes in a product as one magnitude of the product; the cosine
    of a latitude is not negative"""
    if t.op == "ite":
        return T.rebuild(t, one_abs)
    out = T.ZERO
    for m, c in T.to_poly(t).items():
        term, inner = num(c), T.ONE
        for a, e in m:
            if a.op == "abs":
                inner = T.mul(inner, T.power(a.args[0], num(e)))
            else:
                term = T.mul(term, T.power(a, num(e)))
        if inner is not T.ONE:
            p = T.to_poly(inner)
            for a, e in T._content(p):
                if a.op == "pi" or a.op == "cos" and any(x.op == "along" for x in T.subterms(a)):
                    term = T.mul(term, T.power(a, num(e)))
                    p = T._pmul(p, {((a, -e),): T.Fraction(1)})
            k, p = T._monic(p)
            term = T.mul(term, T.mul(num(abs(k)), mk("abs", T.from_poly(p))))
        out = T.add(out, term)
    return out


def expanded(op, a):
    p = T.to_poly(a)
    if len(p) < 2:
        return T.lift(lambda x: mk(op, x), a) if not p else signed(op, p)
    m = min(p, key=T._mkey)
    x, y = T.from_poly({m: p[m]}), T.from_poly({k: v for k, v in p.items() if k != m})
    sx, cx, sy, cy = (expanded(o, q) for q in (x, y) for o in ("sin", "cos"))
    if op == "sin":
        return T.add(T.mul(sx, cy), T.mul(cx, sy))
    return T.sub(T.mul(cx, cy), T.mul(sx, sy))


def signed(op, p):
    (m, c), = p.items()
    r = mk(op, T.from_poly({m: abs(c)}))
    return T.neg(r) if c < 0 and op == "sin" else r


def c27(ctx):
    F = U + "standard_grid_cell_area"
    rule = "R^2 times width in radians times difference of the sines of the edge latitudes, along the caller's dimensions"
    rad = S("radius")
    for la, lb in (("da", "da"), ("nd", "nd"), ("da", "nd"), ("nd", "da")):
        for rl, rkw, r in (("radius", dict(r_earth=rad), rad), ("default radius", {}, num(6371000))):
            key = f"area/{la}-{lb}/{rl}"
            ctx.against(key, rule, F, P + ("area" if la == lb == "da" else "area_values"), args(arr("lat", la), arr("lon", lb), **rkw),
                        view=GridView(), sbuild=args(arr("lat", la), arr("lon", lb), r))
    F = U + "tile_nominal_coords"
    rule = "each coordinate varies along its own axis only"
    for k, kw in (("default", {}), ("silent", dict(warn=FALSE)), ("warn", dict(warn=TRUE))):
        ctx.against(f"tile/{k}", rule, F, P + "tiled", args(arr("xc"), arr("yc"), **kw), sel={"x": part(0), "y": part(1)},
                    view=GridView(), sbuild=args(arr("xc"), arr("yc")))
