"""C29: the synthetic datasets are consistent model datasets

The time coordinate is read as an abstract calendar axis: the first date, the
step, and where it ends.  What cannot be read that way decides nothing.
"""
from fractions import Fraction

from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, or_
from ..contexts import args

D = "momlevel.test_data."
AREA = Fraction(361110920000000)
SY, NY, CAL, SEED = mk("sym", "start_year", "num"), mk("sym", "nyears", "num"), mk("sym", "calendar", "str"), mk("sym", "seed", "num")


EARLY = set()  # dates written without leading zeros in the year


class Unclear(Exception):
    pass


class Wrong(Exception):
    pass


def strip(t):
    while t.op == "mkarr" or t.op in ("assign_coords", "rename") and t.args:
        t = t.args[0]
    return t


# ------------------------------------------------------------------- dates
def date(t):
    """(year, month, day, calendar or None)"""
    if t.op == "cftime":
        pos, kw = list(t.args[0]), dict(t.args[1])
        for k in ("year", "month", "day")[len(pos):]:
            pos.append(kw.get(k))
        if any(p is None for p in pos) or any(p is not T.ZERO for p in pos[3:]):
            raise Unclear(t)
        if any(k not in ("year", "month", "day", "calendar", "has_year_zero") for k in kw):
            raise Unclear(t)
        return (*pos[:3], kw.get("calendar"))
    parts = t.args if t.op == "fmt" else ()
    if t.op == "meth" and t.args[0] == "zfill" and t.args[1].op == "fmt":
        parts = t.args[1].args
        # the whole date padded: only right when it is long enough already
        raise Unclear(t)
    if len(parts) == 2 and parts[1].op == "str":
        import re

        m = re.fullmatch(r"-(\d\d?)(?:-(\d\d?))?(?:[T ]00:00(?::00)?)?", parts[1].args[0])
        if not m:
            raise Unclear(t)
        y = parts[0]
        if y.op == "meth" and y.args[0] == "zfill" and y.args[2] == (num(4),) and y.args[1].op == "fmt" and len(y.args[1].args) == 1:
            y = y.args[1].args[0]
        elif y.op == "sym":
            EARLY.add(t)
        else:
            raise Unclear(t)
        return (y, num(int(m[1])), num(int(m[2] or 1)), None)
    raise Unclear(t)


def days(t):
    """Length of a timedelta in days"""
    if t.op == "timedelta":
        pos, kw = t.args[0], dict(t.args[1])
        unit = dict(weeks=Fraction(7), days=Fraction(1), hours=Fraction(1, 24), minutes=Fraction(1, 1440), seconds=Fraction(1, 86400))
        if len(pos) > 1 or any(k not in unit for k in kw):
            raise Unclear(t)
        r = pos[0] if pos else T.ZERO
        for k, v in kw.items():
            r = T.add(r, T.mul(num(unit[k]), v))
        return r
    raise Unclear(t)


class Axis:
    """Dates first, first + step, ...: `count` of them, up to `until` (included or not)"""

    def __init__(self, first, step, count=None, until=None, included=True, cal=None):
        self.first, self.step, self.count, self.until, self.included, self.cal = first, step, count, until, included, cal


def offset(t):
    """date + days of a sum"""
    base, shift = None, T.ZERO
    for m, c in T.to_poly(t).items():
        if len(m) != 1 or m[0][1] != 1:
            raise Unclear(t)
        a = m[0][0]
        if a.op == "timedelta":
            shift = T.add(shift, T.mul(num(c), days(a)))
        elif a.op == "cftime" and c == 1 and base is None:
            base = a
        else:
            raise Unclear(t)
    if base is None:
        raise Unclear(t)
    return base, shift


def limit(c, v):
    """(D, included) with c being v < D or v <= D"""
    neg = False
    if c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE:
        neg, c = True, c.args[0]
    if c.op not in ("lt", "le"):
        raise Unclear(c)
    a, b = c.args
    strict = c.op == "lt"
    if neg:
        a, b, strict = b, a, not strict
    top = T.add(T.sub(b, a), v)
    if top.op != "cftime":
        raise Unclear(c)
    return top, not strict


def axis(t):
    t = strip(t)
    if t.op == "cftime_range":
        start, end, periods, freq, cal, rest = t.args
        if rest or freq.op != "str" or freq.args[0] not in ("MS", "D"):
            raise Unclear(t)
        if start is NONE or (end is NONE) == (periods is NONE):
            raise Unclear(t)
        f = date(start)
        c = f[3] if cal is NONE or cal is None else cal
        if end is not NONE:
            return Axis(f[:3], freq.args[0], until=date(end)[:3], cal=c)
        return Axis(f[:3], freq.args[0], count=periods, cal=c)
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each":
        src, h, cond, val = t.args[0].args
        x = mk("bound", h)
        if src.op == "range0":
            base, shift = offset(val)
            if shift is not x:
                raise Unclear(t)
            f = date(base)
            a = Axis(f[:3], "D", count=src.args[0], cal=f[3])
        elif val is x:
            a = axis(src)
        else:
            raise Unclear(t)
        if cond is not TRUE:
            if a.until is not None:
                raise Unclear(t)
            top, inc = limit(cond, val)
            d = date(top)
            if d[3] is not None and a.cal is not None and d[3] is not a.cal:
                raise Wrong("compares dates of different calendars")
            a.until, a.included = d[:3], inc
        return a
    if t.op == "item" and t.args[1].op in ("lt", "le", "ite"):
        # the dates of a range that satisfy a condition
        src = strip(t.args[0])
        if src.op == "cftime_range":
            x = mk("bound", 0)
            return axis(mk("list", mk("each", src, 0, T.subst(t.args[1], {src: x}), x)))
    raise Unclear(t)


def linear(t):
    """a, b with t = a*nyears + b"""
    p = T.to_poly(t)
    b = p.pop((), Fraction(0))
    a = p.pop(((NY, 1),), Fraction(0))
    if p:
        raise Unclear(t)
    return a, b


def whole_years(a, sy, ny, freq, last):
    """The axis runs from 1 January of the first year to 1 January after the last year (`last`: included)"""
    if a.step != freq:
        raise Wrong(f"steps by {a.step!r} instead of {freq!r}")
    if a.first != (sy, num(1), num(1)):
        raise Wrong(f"starts at {show(a.first)}")
    if a.cal is not CAL:
        raise Wrong(f"uses the calendar {a.cal}")
    end = (T.add(sy, ny), num(1), num(1))
    if a.until is not None:
        if a.until != end:
            raise Wrong(f"ends at {show(a.until)}")
        if a.included != last:
            raise Wrong("includes 1 January after the last year" if a.included else "leaves out the last bound, 1 January after the last year")
        if a.count is None:
            return
        k, b = linear(a.count)
        need = (12, 1 if last else 0) if freq == "MS" else (366, 1 if last else 0)
        if k < need[0] or k + b < sum(need):
            raise Wrong(f"lists {T.pretty(a.count)} dates, too few for every calendar")
        return
    if freq == "MS":
        if T.sub(a.count, T.mul(num(12), ny)) is not num(1 if last else 0):
            raise Wrong(f"has {T.pretty(a.count)} dates")
        return
    k, b = linear(a.count)
    raise Wrong(f"has {T.pretty(a.count)} dates whatever the length of the calendar's years")


def show(d):
    return "-".join(T.pretty(x) for x in d)


# ------------------------------------------------------- values by position
def elements(t):
    """(n, value at position bound(0)): the values along the leading dimension"""
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) == 2:
        s, k = t.args[1].args
        if s.op != "slice" or any(z is not NONE for z in s.args) or k.op != "num":
            raise Unclear(t)
        n, v = elements(t.args[0])
        if v.op not in ("tuple", "list") or not -len(v.args) <= k.args[0] < len(v.args):
            raise Unclear(t)
        return n, v.args[int(k.args[0])]
    if strip(t) is not t:
        return elements(strip(t))
    if t.op in ("shift", "roll") and any(v.op == "num" and v.args[0] != 0 for _, v in t.args[1]):
        n, v = elements(t.args[0])
        if T.contains(v, lambda x: x is mk("bound", 0)):
            raise Wrong(f"values are moved along {T.pretty(t.args[1][0][0])}")
    if t.op == "poly":
        n, r = None, T.ZERO
        for m, c in T.to_poly(t).items():
            if len(m) != 1 or m[0][1] != 1:
                raise Unclear(t)
            k, v = elements(m[0][0])
            if n is not None and k is not n:
                raise Unclear(t)
            n, r = k, T.add(r, T.mul(num(c), v))
        return n, r
    if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each":
        src, h, cond, val = t.args[0].args
        if src.op != "range0" or cond is not TRUE:
            raise Unclear(t)
        return src.args[0], T.subst(val, {mk("bound", h): mk("bound", 0)})
    if t.op == "list" and t.args and not any(x.op in ("each", "star") for x in t.args):
        vals = {relative(x, i) for i, x in enumerate(t.args)}
        if len(vals) != 1:
            raise Unclear(t)
        return num(len(t.args)), vals.pop()
    raise Unclear(t)


def relative(x, i):
    """The i-th value, with the positions counted from the i-th one"""
    m = {}
    for y in T.subterms(x):
        if y.op == "item" and y.args[0].op == "cftime_range" and y.args[1].op == "num":
            m[y] = mk("item", y.args[0], T.add(mk("bound", 0), num(y.args[1].args[0] - i)))
    x = T.subst(x, m)
    return mk("tuple", *x.args) if x.op == "list" else x


def steps(v, X):
    """A sum of elements of the axis X, as {offset: factor}"""
    out = {}
    for m, c in T.to_poly(v).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "item" or m[0][0].args[0] is not X:
            raise Unclear(v)
        k = T.sub(m[0][0].args[1], mk("bound", 0))
        if k.op != "num":
            raise Unclear(v)
        out[k.args[0]] = c
    return out


HALF = Fraction(1, 2)
SHAPES = {
    "time": ({0: HALF, 1: HALF}, "the time is the middle of its bounds"),
    "average_T1": ({0: 1}, "average_T1 is the lower bound"),
    "average_T2": ({1: 1}, "average_T2 is the upper bound"),
    "average_DT": ({0: -1, 1: 1}, "average_DT is the time between the bounds"),
}


def stub(ctx, key, F, build, sy, ny, freq):
    rule = "time coordinate"

    def step(k, rule, f):
        try:
            f()
        except Unclear as e:
            ctx.unsure(f"{key}/{k}", rule, F, "not recognised: " + (T.pretty(e.args[0], 3)[:120] if e.args and isinstance(e.args[0], T.Term) else ""))
        except Wrong as e:
            ctx.bad(f"{key}/{k}", rule, F, str(e))
        else:
            ctx.ok(f"{key}/{k}", rule, F)

    def go():
        r = ctx.run(F, build)
        if r.pc is not TRUE:
            ctx.unsure(key, rule, F, f"returns when {T.pretty(r.pc, 3)}")
        I = r.at()
        get = lambda k: I.to_term(I.getitem(r.value, st(k)))
        box = {}

        def cover():
            t = get("time_bnds")
            if t.op == "item" and t.args[0].op == "dataset" and t.args[0].args[0] is NONE and not t.args[0].args[2] and all(k.op == "str" and k is not st("time_bnds") for k, _ in t.args[0].args[1]):
                raise Wrong("has no time bounds")
            n, v = elements(t)
            if v.op not in ("tuple", "list") or len(v.args) != 2:
                raise Unclear(v)
            lo = v.args[0]
            if lo.op != "item":
                raise Unclear(lo)
            X = lo.args[0]
            a = axis(X)
            box.update(X=X, n=n)
            size = a.count if a.until is None else mk("len", X)
            gap = T.sub(size, n)
            if gap.op != "num":
                linear(gap)
            if gap is not num(1):
                raise Wrong(f"{T.pretty(n, 3)[:80]} intervals between {T.pretty(size, 3)[:80]} bounds")
            whole_years(a, sy, ny, freq, True)
            if steps(lo, X) != {0: 1} or steps(v.args[1], X) != {1: 1}:
                raise Wrong("an interval does not run from one bound to the next one")

        EARLY.clear()
        step("bounds", "the intervals are contiguous and cover exactly the requested years of the requested calendar", cover)
        if key in ("stub/MS", "stub/D"):

            def early():
                if "X" not in box:
                    raise Unclear()
                if EARLY:
                    raise Wrong("writes the first date without leading zeros in the year, which is refused for years before 1000")

            step("early years", "start years before 1000 are accepted", early)
        for k, (want, rl) in SHAPES.items():

            def shape():
                if "X" not in box:
                    raise Unclear()
                n, v = elements(get(k))
                if n is not box["n"]:
                    raise Unclear(n)
                got = steps(v, box["X"])
                if got != want:
                    raise Wrong(f"{k} is {' + '.join(f'{c}*bound[i{int(j):+d}]' for j, c in sorted(got.items()))}")

            step(k, rl, shape)

    ctx.attempt(key, rule, F, go)


# ----------------------------------------------------------- constant arrays
def consts(t):
    """Nested lists of numbers"""
    t = strip(t)
    if t.op == "num":
        return t.args[0]
    if t.op in ("list", "tuple"):
        return [consts(x) for x in t.args]
    if t.op == "item" and t.args[1].op == "slice":
        v = consts(t.args[0])
        b = [None if z is NONE else z.args[0] if z.op == "num" else Unclear for z in t.args[1].args]
        if Unclear in b or not isinstance(v, list):
            raise Unclear(t)
        return v[slice(*[None if z is None else int(z) for z in b])]
    if t.op == "poly":
        out = None
        for m, c in T.to_poly(t).items():
            if not m:
                v = c
            elif len(m) == 1 and m[0][1] == 1:
                v = consts(m[0][0])
                v = [c * x for x in v] if isinstance(v, list) else c * v
            else:
                raise Unclear(t)
            if out is None:
                out = v
            elif isinstance(out, list) and isinstance(v, list):
                if len(out) != len(v):
                    raise Unclear(t)
                out = [x + y for x, y in zip(out, v)]
            else:
                out = [x + v for x in out] if isinstance(out, list) else [out + y for y in v] if isinstance(v, list) else out + v
        return out
    raise Unclear(t)


def ranges(t):
    """(lowest, highest, kind) of each draw in an array"""
    t = strip(t)
    if t.op == "store":
        if t.args[-1].op != "nan":
            raise Unclear(t)
        return ranges(t.args[0])
    if t.op == "tensor":
        return [r for x in t.args[1] for r in ranges(x)]
    if t.op in ("list", "tuple"):
        return [r for x in t.args for r in ranges(x)]
    if t.op == "num":
        return [(t.args[0], t.args[0])]
    if t.op == "draw":
        _, _, kind, pos, kw = t.args
        if kind == "normal":
            return [(None, None)]
        if kind != "uniform":
            raise Unclear(t)
        kw = dict(kw)
        lo = pos[0] if pos else kw.get("low", num(0))
        hi = pos[1] if len(pos) > 1 else kw.get("high", num(1))
        if lo.op != "num" or hi.op != "num":
            raise Unclear(t)
        return [(lo.args[0], hi.args[0])]
    raise Unclear(t)


def total(t):
    """The sum over all cells of an array that is divided by its own sum"""
    p = list(T.to_poly(t).items())
    if len(p) != 1:
        raise Unclear(t)
    m, c = p[0]
    up = [a for a, e in m if e == 1]
    down = [a for a, e in m if e == -1]
    if len(m) != 2 or len(up) != 1 or len(down) != 1 or down[0].op != "reduce" or down[0].args[0] != "sum":
        raise Unclear(t)
    if down[0].args[1] is not up[0]:
        raise Unclear(t)
    if down[0].args[2].op != "alldims":
        raise Wrong("divides by a sum over some dimensions only")
    return c


POINTS = {
    "h": ("xh", "yh", "geolon", "geolat", "areacello"), "u": ("xq", "yh", "geolon_u", "geolat_u", "areacello_cu"),
    "v": ("xh", "yq", "geolon_v", "geolat_v", "areacello_cv"), "c": ("xq", "yq", "geolon_c", "geolat_c", "areacello_bu"),
}


def increasing(v):
    return all(a < b for a, b in zip(v, v[1:]))


def horizontal(get, names):
    x, y, lon, lat, _ = names

    def f():
        a, b = consts(get(lon)), consts(get(lat))
        dims = []
        for k in (lon, lat):
            t = get(k)
            if t.op != "mkarr" or len(t.args) < 3 or t.args[2] is NONE:
                raise Unclear(t)
            d = t.args[2]
            if d.op != "tuple" or any(z.op != "str" for z in d.args):
                raise Unclear(t)
            dims.append(tuple(z.args[0] for z in d.args))
        if sorted(dims[0]) != sorted((x, y)) or sorted(dims[1]) != sorted((x, y)):
            raise Wrong(f"{lon} and {lat} are on {dims[0]} and {dims[1]}")
        for k, v, d, along, hi, lo in ((lon, a, dims[0], x, 360, 0), (lat, b, dims[1], y, 90, -90)):
            rows = v if d[1] == along else [list(z) for z in zip(*v)]
            if any(r != rows[0] for r in rows) or not increasing(rows[0]):
                raise Wrong(f"{k} does not increase along {along} only")
            if min(rows[0]) < lo or max(rows[0]) > hi:
                raise Wrong(f"{k} leaves {lo}..{hi}")

    return f


def vertical(get):
    def f():
        zi, zl = consts(get("z_i")), consts(get("z_l"))
        if not increasing(zi) or zi[0] != 0:
            raise Wrong("the interfaces do not increase from the surface")
        if len(zl) != len(zi) - 1 or not all(a < z < b for a, z, b in zip(zi, zl, zi[1:])):
            raise Wrong("a level is not between its interfaces")

    return f


def bottom(get):
    def f():
        zi = consts(get("z_i"))
        for lo, hi in ranges(get("deptho")):
            if lo is None or lo < 0 or hi > max(zi) or lo > hi:
                raise Wrong(f"the sea floor depth is drawn from {'an unbounded distribution' if lo is None else f'{float(lo)}..{float(hi)}'}, interfaces 0..{float(max(zi))}")

    return f


def area(get, name):
    def f():
        t = total(get(name))
        if t != AREA:
            raise Wrong(f"the areas add up to {float(t):g}")

    return f


def fields(ctx, key, F, build, facts):
    rule = "grid"

    def go():
        r = ctx.run(F, build)
        I = r.at()
        get = lambda k: I.to_term(I.getitem(r.value, st(k)))
        for k, rl, f in facts(get):
            try:
                f()
            except Unclear as e:
                ctx.unsure(f"{key}/{k}", rl, F, "not recognised")
            except Wrong as e:
                ctx.bad(f"{key}/{k}", rl, F, str(e))
            else:
                ctx.ok(f"{key}/{k}", rl, F)

    ctx.attempt(key, rule, F, go)


H = "longitude and latitude increase along their own dimension only"
V = "every level lies between its interfaces, which increase from the surface"
B = "the sea floor lies between the surface and the deepest interface"
A = "the cell areas add up to the area of the ocean"


def c29(ctx):
    both = dict(start_year=SY, calendar=CAL)
    F = D + "time.generate_time_stub"
    for fr in ("MS", "D"):
        stub(ctx, f"stub/{fr}", F, args(nyears=NY, frequency=st(fr), **both), SY, NY, fr)
        stub(ctx, f"time/{fr}", D + "generate_test_data_time", args(nyears=NY, frequency=st(fr), seed=SEED, **both), SY, NY, fr)
    stub(ctx, "stub/default", F, args(nyears=NY, **both), SY, NY, "MS")
    stub(ctx, "time/default", D + "generate_test_data_time", args(nyears=NY, **both), SY, NY, "MS")
    for g in ("generate_test_data", "generate_test_data_uv"):
        for ny in (1, 2, 20):
            stub(ctx, f"{g}/{ny}", D + g, args(nyears=num(ny), seed=SEED, **both), SY, num(ny), "MS")
    fr = mk("sym", "frequency", "str")

    def refuse():
        r = ctx.run(F, args(nyears=NY, frequency=fr, **both))
        ctx.refuses("stub/frequency", "frequencies other than months and days are rejected", F, r, or_(T.eq(fr, st("MS")), T.eq(fr, st("D"))))

    ctx.attempt("stub/frequency", "frequencies other than months and days are rejected", F, refuse)

    F = D + "time.generate_daily_timeaxis"
    rule = "the daily axis lists each day of the requested years once"

    def daily():
        r = ctx.run(F, args(nyears=NY, **both))
        try:
            a = axis(r.term())
            whole_years(a, SY, NY, "D", False)
        except Unclear:
            ctx.unsure("daily", rule, F, "not recognised")
        except Wrong as e:
            ctx.bad("daily", rule, F, str(e))
        else:
            ctx.ok("daily", rule, F)

    ctx.attempt("daily", rule, F, daily)

    for p, n in POINTS.items():
        fields(ctx, f"horizontal/{p}", D + "tripolar.horizontal.xy_fields", args(point=st(p), seed=SEED),
               lambda get: [("position", H, horizontal(get, n)), ("area", A, area(get, n[4]))])
    fields(ctx, "vertical", D + "tripolar.vertical.zlevel_fields", args(seed=SEED),
           lambda get: [("levels", V, vertical(get)), ("bottom", B, bottom(get))])
    fields(ctx, "dz", D + "generate_test_data_dz", args(seed=SEED), lambda get: [("levels", V, vertical(get)), ("bottom", B, bottom(get))])
    for g in ("generate_test_data", "generate_test_data_uv"):
        for ny in (0, 20):
            fields(ctx, f"{g}/{ny} years", D + g, args(nyears=num(ny), seed=SEED, **both), lambda get: [
                ("position", H, horizontal(get, POINTS["h"])), ("area", A, area(get, "areacello")),
                ("levels", V, vertical(get)), ("bottom", B, bottom(get))]
                + ([("area at corners", A, area(get, "areacello_bu"))] if g.endswith("uv") else []))
