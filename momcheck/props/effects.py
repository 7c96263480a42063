"""C12, C13, C25: what the routines do besides computing their result"""
from .. import terms as T
from .. import catalog, ops
from ..terms import Term, mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..checks import EOS
from ..contexts import args, arr
from ..views import unmodelled
from ..values import Obj, TupleVal, Choice, FuncVal


def where(e):
    f, fn, line = e.loc
    return f"{fn} line {line}"


def reachable(e, assume=TRUE):
    return and_(e.pc, assume) is not FALSE


# -------------------------------------------------------------------- C12
def c12(ctx):
    ctx.opaque_eos()
    rule = "no argument, nor anything reachable from it, is written to on any path"
    for c in catalog.calls():
        if c.kind in ("exempt", "extends"):
            continue

        def go():
            r = ctx.run(c.func, c.build())
            bad = [e for e in r.of("mutate") if reachable(e)]
            for e in r.of("ufunc"):
                # xarray shares the coordinates of the operands and, when it drops attributes, empties theirs
                if reachable(e) and len(e.data[4]) > 1 and e.data[3] in (NONE, FALSE, st("drop")):
                    f = sorted({q.args[0] for a in e.data[4] for q in T.subterms(a) if q.op == "sym" and len(q.args) > 1 and q.args[1] in ("da", "ds")})
                    if f:
                        ctx.bad(c.label + "/coords", rule, c.func, f"{where(e)}: apply_ufunc without keep_attrs empties the attributes of the coordinates of {', '.join(f)}")
                        break
            if not bad:
                ctx.ok(c.label, rule, c.func, f"{len(r.effects)} effects, none on an argument")
            for e in bad[:3]:
                cond = "" if e.pc is TRUE else f" when {T.pretty(e.pc, 3)[:200]}"
                ctx.bad(c.label, rule, c.func, f"{where(e)} writes to the argument {', '.join(e.data[0])} ({e.data[1]}){cond}")

        ctx.attempt(c.label, rule, c.func, go)
    ctx.opaque_eos(False)


# -------------------------------------------------------------------- C13
COORD_KEYS = {"time", "z_l", "z_i", "xh", "yh", "xq", "yq", "lat", "lon", "geolat", "geolon"}
GRID_FIELDS = {"areacello", "deptho"}
SHAPE = {"dims", "shape", "ndim", "size", "sizes", "coords", "chunks", "chunksizes", "attrs", "encoding", "dtype", "name", "indexes",
         "variables", "data_vars", "columns", "calendar", "nbytes", "xindexes"}


def fields_in(t, lazy):
    """The lazy fields whose values a node depends on"""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("len", "in", "dims", "str", "isinstance", "is") or x.op == "attr" and x.args[1] in SHAPE:
            continue
        if x.op in ("anyof", "reduce", "isnull") and False:
            continue
        if x.op == "item" and not (x.args[1].op in ("num", "slice", "tuple", "ellipsis", "poly")):
            b, k = x.args[0], x.args[1]
            base = b
            while base.op in ops.LAYOUT or base.op in ("rename", "chunk", "isel", "sel", "ite", "where", "copy"):
                base = base.args[0] if base.op != "ite" else base.args[1]
            isds = base.op in ("dataset",) or base.op == "sym" and base.args[1] == "ds"
            if not isds and T.is_array(base):
                continue  # a coordinate of an array
            if isds:
                if k.op == "sym" or k.op == "str" and (k.args[0] in COORD_KEYS or k.args[0] in GRID_FIELDS):
                    continue
                if base.op == "sym":
                    if "*" in lazy:
                        out.add(x)
                    continue
        if x.op == "sym":
            if len(x.args) > 1 and x.args[1] in ("da", "nd", "ds") and (x.args[0] in lazy or x.args[1] == "ds" and "*" in lazy):
                out.add(x)
            continue
        if x.op == "each":
            stack.extend(c for c in T.children(x) if not (c.op == "attr" and c.args[1] in SHAPE))
            continue
        stack.extend(T.children(x))
    return out


def lazy_assumption(c):
    """The fields passed are dask-backed: they have chunks"""
    out = TRUE
    for n in c.lazy:
        if n != "*":
            out = and_(out, not_(T.is_(NONE, mk("attr", mk("sym", n, "da"), "chunks"))))
    return out


L3 = ("thetao", "so", "pres")


def c13(ctx):
    rule = "no operation that loads a lazy field, or decides by its values, is reachable"
    r2 = "functions are applied to lazy fields with dask support"
    for c in catalog.calls():
        if not c.lazy and c.label != "calc_spice":
            continue
        body = c.label.split("/")[0] in ("calc_rho", "calc_alpha", "calc_beta")

        def go():
            ctx.opaque_eos(not body)
            r = ctx.run(c.func, c.build())
            assume = lazy_assumption(c)
            bad = []
            for e in r.of("force"):
                if not reachable(e, assume):
                    continue
                f = fields_in(T.assume(e.data[1], and_(e.pc, assume)), c.lazy)
                if f:
                    bad.append((e, f))
            for e in r.of("ufunc"):
                if not reachable(e, assume):
                    continue
                f = fields_in(e.data[2], c.lazy or L3)
                if f and e.data[1] not in (st("allowed"), st("parallelized")) and e.data[1].op in ("str", "none"):
                    ctx.bad(c.label + "/ufunc", r2, c.func, f"{where(e)}: apply_ufunc without dask support on {T.pretty(sorted(f, key=lambda q: q.id)[0], 3)}")
                elif f:
                    ctx.ok(c.label + "/ufunc", r2, c.func)
            if not c.lazy:
                # loads its input, but has to accept it
                return
            if not bad:
                ctx.ok(c.label, rule, c.func, f"{len(r.of('force'))} loads, none of a lazy field")
            for e, f in bad[:2]:
                ctx.bad(c.label, rule, c.func, f"{where(e)}: {e.data[0]} loads {T.pretty(sorted(f, key=lambda q: q.id)[0], 3)}")

        ctx.attempt(c.label, rule, c.func, go)
    ctx.opaque_eos(False)
    # a field in memory, which is made lazy on the way, gives a result in memory
    r3 = "a result made from a field in memory is in memory"
    H = "momlevel.trend.deseason"
    X = mk("sym", "x", "da")
    eager = mk("is", NONE, mk("attr", X, "chunks")) if NONE.id < mk("attr", X, "chunks").id else mk("is", mk("attr", X, "chunks"), NONE)
    for fmt in ("residuals", "model", "coeff"):
        def go():
            r = ctx.run(H, args(arr("x"), output_format=st(fmt)))
            if eager not in T.atoms_of(r.pc) and not any(eager in T.subterms(e.pc) for e in r.of("force")) and eager not in T.subterms(r.term()):
                return
            case = and_(r.pc, eager)
            t = T.assume(r.term(), case)
            loaded = or_(FALSE, *[e.pc for e in r.of("force") if e.data[0] in ("load", "compute") and X in T.subterms(e.data[1])])
            if not any(x.op == "chunk" for x in T.subterms(t)) or and_(case, not_(loaded)) is FALSE:
                ctx.ok(f"deseason/{fmt}/memory", r3, H)
            elif unmodelled(and_(case, not_(loaded))) is not None:
                ctx.unsure(f"deseason/{fmt}/memory", r3, H, "conditions not decided")
            else:
                ctx.bad(f"deseason/{fmt}/memory", r3, H, "the field is made lazy and the result is not loaded")

        ctx.attempt(f"deseason/{fmt}/memory", r3, H, go)


# -------------------------------------------------------------------- C25
SEEDED = {
    "generate_test_data": ("thetao", "so", "volcello"),
    "generate_test_data_uv": ("uo", "vo", "Coriolis", "areacello_bu"),
    "generate_test_data_dz": ("deptho",),
    "generate_test_data_time": ("var_a", "var_b"),
    "xy_fields/h": ("areacello",), "xy_fields/u": ("areacello_cu",), "xy_fields/v": ("areacello_cv",), "xy_fields/c": ("areacello_bu",),
    "zlevel_fields": ("deptho",),
}


def mutable(I, v):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return mutable(I, v.a) or mutable(I, v.b)
    if isinstance(v, TupleVal):
        return any(mutable(I, x) for x in v.items)
    return isinstance(v, Obj)


# what belongs to the libraries, not to the package
SETTINGS = ("the warning filters", "xarray options", "settings of the libraries", "numpy's global random state")


def c25(ctx):
    from ..checks import pick

    ctx.opaque_eos()
    r1 = "no unseeded or global random numbers, clock, environment or other outside input"
    r2 = "no object that outlives the call is written to"
    r3 = "only the tide-gauge table is read"
    r4 = "the random fields are drawn from the given seed"
    seed = mk("sym", "seed", "int")
    for e in ctx.A.import_effects:
        if e.kind == "nondet":
            ctx.bad("import", r1, "momlevel", f"{where(e)}: {e.data}")
        if e.kind == "globalwrite" and e.data in SETTINGS:
            ctx.bad("import/settings", r2, "momlevel", f"{where(e)}: {e.data}")
    cached = {e.data for e in ctx.A.import_effects if e.kind == "cache"}
    for c in catalog.calls():
        def go():
            r = ctx.run(c.func, c.build())
            n = [e for e in r.of("nondet") if reachable(e)]
            g = [e for e in r.of("globalwrite", "globalmut") if reachable(e)]
            f = [e for e in r.of("read") if reachable(e)] if not c.label.startswith("extract_tidegauge") else []
            for bad, rule in ((n, r1), (g, r2), (f, r3)):
                if bad:
                    e = bad[0]
                    ctx.bad(f"{c.label}/{e.kind}", rule, c.func, f"{where(e)}: {e.data if not isinstance(e.data, Term) else T.pretty(e.data, 3)}"[:300])
            if not (n or g or f):
                ctx.ok(c.label, r1, c.func, f"{len(r.effects)} effects")
            t = None
            if r.pc is not FALSE:
                t = r.term()
                left = [x for x in T.subterms(t) if x.op == "nondet"]
                if left:
                    ctx.bad(f"{c.label}/value", r1, c.func, f"the result depends on {T.pretty(left[0], 2)}")
            for v in SEEDED.get(c.label, ()):
                I = r.at()
                try:
                    x = pick(v)(I, r.value)
                except KeyError:
                    ctx.bad(f"{c.label}/{v}", r4, c.func, f"the result has no {v}")
                    continue
                rngs = [y for y in T.subterms(x) if y.op == "rng"]
                fixed = [y for y in rngs if seed not in T.subterms(y)]
                if fixed:
                    ctx.bad(f"{c.label}/{v}", r4, c.func, f"{v} is drawn from {T.pretty(fixed[0], 3)}, whatever the seed")
                elif rngs:
                    ctx.ok(f"{c.label}/{v}", r4, c.func)
                elif unmodelled(x) is None and not any(y.op == "nondet" for y in T.subterms(x)):
                    ctx.bad(f"{c.label}/{v}", r4, c.func, f"{v} does not depend on the seed")
                else:
                    ctx.unsure(f"{c.label}/{v}", r4, c.func, "no random generator found")

        ctx.attempt(c.label, r1, c.func, go)
    # memoised functions may only return values that nobody can change
    for q in sorted(map(str, cached)):
        def go():
            for c in catalog.calls():
                if c.func == q:
                    r = ctx.run(c.func, c.build())
                    I = r.at()
                    if r.pc is not FALSE and mutable(I, r.value):
                        ctx.bad(f"cache/{q}", r2, q, f"{q} keeps and returns a modifiable object between calls")
                        return
            ctx.ok(f"cache/{q}", r2, q)

        ctx.attempt(f"cache/{q}", r2, q, go)
    ctx.opaque_eos(False)
