"""xarray, xgcm and pandas functions, as the analysis models them."""
from . import terms as T
from . import ops
from .ops import ALL
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num, truth, eq, lt, le, subst, subterms,
)
from .values import PathDead, Obj, TupleVal, FuncVal, LibRef, Accessor, Choice, Tensor, Partial, one
from .lib_core import EMPTY
from .lib_builtin import F, fn


class XrMixin:
    def coords_term(self, v):
        """Canonical node of a coords argument"""
        v = self.resolve(v)
        if v is None or v is NONE:
            return NONE
        return self.to_term(v)

    def make_array(self, data, coords, dims, name, attrs):
        data = self.resolve(data) if data is not None else NAN
        if isinstance(data, Choice):
            return self.fork_val(
                data.cond,
                lambda: self.make_array(data.a, coords, dims, name, attrs),
                lambda: self.make_array(data.b, coords, dims, name, attrs),
            )
        at = None
        nm = NONE
        bor = EMPTY
        if isinstance(data, Obj) and data.kind in ("da", "nd", "series"):
            r = self.rec(data)
            t = r["term"]
            bor = r["borigin"]
            if data.kind == "da":
                at = self.copy_dict(r["attrs"])
                nm = r["name"]
        else:
            if isinstance(data, (TupleVal,)) or isinstance(data, Obj) and data.kind == "list":
                data = self.np_array(data)
            t = self.to_term(data)
        c, d = self.coords_term(coords), (NONE if dims is None else self.to_term(dims))
        if d.op == "str":
            d = mk("tuple", d)
        if d.op == "list":
            d = mk("tuple", *d.args)
        if d.op == "dict":
            # a mapping given as dims: its keys in order
            if isinstance(dims, Obj) and dims.kind == "dict":
                d = mk("tuple", *self.rec(dims)["items"].keys())
        if c is not NONE or d is not NONE:
            t = T.lift(lambda x: mk("mkarr", x, c, d), t)
        o = self.new_arr("da", t, at, nm if name is None else name, EMPTY, bor)
        if attrs is not None and attrs is not NONE:
            a = self.new_dict({})
            self.dict_update(a, attrs)
            self.upd(o, attrs=a)
        return o

    def cond_arr(self, v):
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind == "list" or isinstance(v, TupleVal):
            return self.np_array(v)
        return v

    def bool_reduce(self, v, conj, dims):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork_val(v.cond, lambda: self.bool_reduce(v.a, conj, dims), lambda: self.bool_reduce(v.b, conj, dims))
        c = truth(self.to_term(v))
        if dims:
            t = mk("truth", ops.reduce("all" if conj else "any", c, dims[0]))
        else:
            t = not_(ops.anyof(not_(c))) if conj else ops.anyof(c)
        return self.wrap(self.kinds(v), t) if isinstance(v, Obj) and v.kind in ("da", "nd") else t

    def astype(self, v, dt):
        name = dt.args[0] if dt.op in ("str", "lib") else None
        if name in ("float", "float64", "double", "f8", "builtins.float", "numpy.float64", "numpy.double", "object"):
            return v
        if isinstance(v, Tensor):
            if all(e.op == "num" for e in v.entries.values()) and name in ("int", "builtins.int", "numpy.int64", "int64") and all(e.args[0].denominator == 1 for e in v.entries.values()):
                return v
            return self.tensor_map(lambda x: mk("astype", x, dt), [v])
        if isinstance(v, Obj) and v.kind in ("da", "nd", "series"):
            return self.arr_like(v, T.lift(lambda x: mk("astype", x, dt), self.to_term(v)), keep=True)
        return self.ew(lambda x: mk("astype", x, dt), [v])

    def map_val(self, v, f):
        """f on the (single) array v, whatever alternatives it has"""
        return self.spread(f, v)

    def is_dim(self, k):
        return k in self.dim_names

    def as_kind(self, proto, term):
        """Array, dataset, ... like proto with the given node"""
        if isinstance(proto, Obj) and proto.kind == "ds":
            return self.new_ds(base=term)
        return self.new_arr("da", term)


def _kwonly(kw, *names):
    return {k: v for k, v in kw.items() if k not in names}


@fn("xarray.DataArray")
def _dataarray(I, a, kw):
    names = ["data", "coords", "dims", "name", "attrs"]
    v = dict(zip(names, a))
    v.update({k: x for k, x in kw.items() if k in names})
    for k in ("coords", "dims", "name", "attrs"):
        if v.get(k) is NONE:
            v.pop(k)
    return I.make_array(v.get("data"), v.get("coords"), v.get("dims"), v.get("name"), v.get("attrs"))


@fn("xarray.Dataset")
def _dataset(I, a, kw):
    dv = I.arg(a, kw, 0, "data_vars")
    co = I.arg(a, kw, 1, "coords")
    at = I.arg(a, kw, 2, "attrs")
    d = I.new_ds()
    if at is not None and at is not NONE:
        x = I.new_dict({})
        I.dict_update(x, at)
        I.upd(d, attrs=x)
    for src in (dv, co):
        src = I.resolve(src) if src is not None else None
        if src is None or src is NONE:
            continue
        if isinstance(src, Obj) and src.kind == "ds":
            r = I.rec(src)
            return I.copy_ds(src)
        if isinstance(src, Obj) and src.kind == "dict":
            r = I.rec(src)
            if r["base"] is not None:
                I.upd(d, base=mk("dataset_of", I.dict_term(src)))
                continue
            for k, (g, v) in r["items"].items():
                if isinstance(v, TupleVal) and len(v.items) >= 2:
                    v = I.make_array(v.items[1], None, v.items[0], None, v.items[2] if len(v.items) > 2 else None)
                I.branch(g, lambda k=k, v=v: I.ds_set(d, k, v), lambda: None)
            I.upd(d, each=I.rec(d)["each"] + r["each"])
            continue
        I.upd(d, base=mk("dataset_of", I.to_term(src)))
    return d


@fn("xarray.where")
def _xwhere(I, a, kw):
    c, x, y = (list(a) + [kw.get("x"), kw.get("y")])[:3] if len(a) >= 3 else (I.arg(a, kw, 0, "cond"), I.arg(a, kw, 1, "x"), I.arg(a, kw, 2, "y"))
    r = I.ew(lambda p, q, s: T.where(T.elem_truth(p), q, s), [c, x, y], keep=False)
    ka = kw.get("keep_attrs")
    if ka is None or ka is NONE:
        ka = I.keep_option
    if ka is not None and ka is not FALSE and isinstance(I.resolve(x), Obj) and isinstance(r, Obj) and r.kind == "da" and I.resolve(x).kind == "da":
        I.upd(r, attrs=I.copy_dict(I.rec(I.resolve(x))["attrs"]))
    return r


@fn("xarray.broadcast")
def _broadcast(I, a, kw):
    out = []
    ts = [I.to_term(x) for x in a]
    for x, t in zip(a, ts):
        x = I.resolve(x)
        others = tuple(sorted((y for y in ts if y is not t), key=lambda q: q.id))
        if isinstance(x, Obj) and x.kind == "da":
            out.append(I.arr_like(x, T.lift(lambda p: mk("broadcast", p, others), t), keep=True, view=True))
        else:
            out.append(x)
    return TupleVal(out)


@fn("xarray.align")
def _align(I, a, kw):
    return TupleVal(a)


@fn("xarray.zeros_like_")
def _zl(I, a, kw):
    return NotImplemented


@fn("xarray.concat")
def _concat(I, a, kw):
    objs = I.resolve(I.arg(a, kw, 0, "objs"))
    dim = I.targ(a, kw, 1, "dim")
    es = I.elems_of(objs)
    proto = None
    for e in es:
        proto = e[2] if e[0] == "one" else e[4]
        break
    proto = I.resolve(proto) if proto is not None else None
    lt_ = I.to_term(I.new_list_elems(es))
    rest = _kwonly(kw, "objs", "dim", "data_vars", "coords", "compat", "join", "combine_attrs")
    t = mk("concat", lt_, dim)
    if isinstance(proto, Obj) and proto.kind == "ds":
        return I.new_ds(base=t)
    r = I.new_arr("da", t)
    if isinstance(proto, Obj) and proto.kind == "da":
        I.upd(r, attrs=I.copy_dict(I.rec(proto)["attrs"]), name=I.rec(proto)["name"])
    return r


@fn("xarray.merge", "xarray.combine_by_coords")
def _merge(I, a, kw):
    ks = I.known_elems(a[0])
    if ks is not None:
        d = I.new_ds()
        for k in ks:
            k = I.resolve(k)
            if isinstance(k, Obj) and k.kind == "da":
                I.ds_set(d, I.to_term(I.rec(k)["name"]), k)
            elif isinstance(k, Obj) and k.kind == "ds" and I.rec(k)["base"] is None and not I.rec(k).get("each"):
                for n, (g, v) in I.rec(k)["items"].items():
                    I.ds_set(d, n, v)
            else:
                return I.new_ds(base=mk("call", "xarray.merge", tuple(I.to_term(x) for x in ks), ()))
        return d
    return I.new_ds(base=mk("call", "xarray.merge", (I.to_term(a[0]),), ()))


@fn("xarray.dot")
def _xdot(I, a, kw):
    dims = I.arg([], kw, None, "dims") or I.arg([], kw, None, "dim")
    d = NONE if dims is None else I.dims_arg(dims)
    return I.new_arr("da", mk("xrdot", tuple(sorted((I.to_term(x) for x in a), key=lambda t: t.id)), d))


def whole(t):
    """The function gives one number for each number of its argument"""
    while t.op in ("reshape", "unary"):
        t = t.args[0]
    return t.op == "unlane" and not T.subst(t.args[2], {mk("lane", *t.args[:2]): num(1)}).op == "reduce" or t.op == "movedims"


def repeated(I, dims):
    """Raises where a dimension is given twice"""
    ones = [d for d in dims if d.op != "each"]
    for i, d in enumerate(ones):
        c = TRUE if d in ones[:i] else FALSE
        for e in dims:
            if e.op == "each" and e.args[3] is mk("bound", e.args[1]):
                c = or_(c, and_(T.member(d, e.args[0]), T.subst(e.args[2], {e.args[3]: d})))
        I.raise_if(c, "ValueError", st("a dimension is given twice"), I.node)
        if I.st.dead:
            raise PathDead()


@fn("xarray.apply_ufunc")
def _apply(I, a, kw):
    f = a[0]
    args = a[1:]
    for i, x in enumerate(args):
        x = I.resolve(x)
        if isinstance(x, Choice):
            return I.fork_val(
                x.cond,
                lambda: _apply(I, a[: i + 1] + [x.a] + a[i + 2 :], kw),
                lambda: _apply(I, a[: i + 1] + [x.b] + a[i + 2 :], kw),
            )
    kw = dict(kw)
    icd = kw.pop("input_core_dims", None)
    ocd = kw.pop("output_core_dims", None)
    fkw = kw.pop("kwargs", None)
    dask = kw.pop("dask", st("forbidden"))
    keep = kw.pop("keep_attrs", None)
    if keep is None or keep is NONE:
        keep = I.keep_option
    cores = [None] * len(args)
    if icd is not None and icd is not NONE:
        ks = I.known_elems(icd)
        if ks is not None:
            cores = [I.to_term(x) for x in ks]
    vals = []
    for x, c in zip(args, cores):
        x = I.resolve(x)
        if isinstance(x, Obj) and x.kind in ("da", "series"):
            t = I.to_term(x)
            if c is not None and not (c.op in ("list", "tuple") and not c.args):
                if c.op in ("list", "tuple"):
                    repeated(I, c.args)
                    c = mk("tuple", *c.args)
                t = mk("movedims", t, c)
            vals.append(I.new_arr("nd", t, borigin=I.rec(x)["borigin"]))
        else:
            vals.append(x)
    k2 = {}
    if fkw is not None and fkw is not NONE:
        fkw = I.resolve(fkw)
        if isinstance(fkw, Obj) and fkw.kind == "dict":
            for k, (g, v) in I.rec(fkw)["items"].items():
                k2[k.args[0]] = v
        else:
            k2["**"] = I.to_term(fkw)
    I.log("ufunc", (I.to_term(f), I.to_term(dask), mk("tuple", *[I.to_term(v) for v in vals]),
                    NONE if keep is None else I.to_term(keep), [I.to_term(x) for x in args if isinstance(I.resolve(x), Obj) and I.resolve(x).kind in ("da", "ds")]))
    r = I.call(f, vals, k2)
    r = I.resolve(r)
    kind = I.kinds(*args)

    def wrapup(r):
        if isinstance(r, Choice):
            return Choice(r.cond, wrapup(r.a), wrapup(r.b))
        if isinstance(r, TupleVal):
            return TupleVal([wrapup(x) for x in r.items])
        t = I.to_term(r)
        if ocd is None and any(c is not None and c.op in ("list", "tuple") and c.args for c in cores) and whole(t):
            I.raise_if(TRUE, "ValueError", st("unexpected number of dimensions"), I.node)
            raise PathDead()
        if ocd is not None:
            od = I.known_elems(ocd)
            if od:
                o = I.to_term(od[0])
                t = mk("outdims", t, mk("tuple", *o.args) if o.op in ("list", "tuple") else o)
        if kind in ("da", "ds"):
            o = I.wrap(kind, t, *args)
            if keep is not None and keep is not FALSE and keep is not NONE and kind == "da":
                for x in args:
                    x = I.resolve(x)
                    if isinstance(x, Obj) and x.kind == "da":
                        I.upd(o, attrs=I.copy_dict(I.rec(x)["attrs"]))
                        break
            return o
        return r

    return wrapup(r)


@fn("xarray.cftime_range", "xarray.date_range")
def _cftime(I, a, kw):
    start = I.targ(a, kw, 0, "start")
    end = I.targ(a, kw, 1, "end")
    periods = I.targ(a, kw, 2, "periods")
    freq = I.targ(a, kw, 3, "freq", st("D"))
    cal = I.targ(a, kw, 8, "calendar", st("standard"))
    alias = {"AS": "YS", "AS-JAN": "YS", "YS-JAN": "YS", "A": "YE", "Y": "YE"}
    if freq.op == "str":
        freq = st(alias.get(freq.args[0], freq.args[0]))
    rest = I.kw_terms(_kwonly(kw, "start", "end", "periods", "freq", "calendar"))
    return mk("cftime_range", start, end, periods, freq, cal, rest)


@fn("xarray.core.missing.get_clean_interp_index")
def _gcii(I, a, kw):
    arr = I.arg(a, kw, 0, "arr")
    dim = I.arg(a, kw, 1, "dim")
    c = I.to_term(I.getitem(arr, dim))
    rest = I.kw_terms(_kwonly(kw, "arr", "dim"))
    rest = tuple((k, v) for k, v in rest if not (k == "strict" and v is TRUE) and not (k == "use_coordinate" and v is TRUE))
    return I.new_arr("nd", mk("interp_index", c, rest) if rest else mk("interp_index", c))


@fn("xarray.polyval")
def _polyval(I, a, kw):
    return NotImplemented


@fn("xarray.set_options")
def _setopt(I, a, kw):
    I.log("globalwrite", "xarray options")
    k = kw.get("keep_attrs")
    return mk("options", NONE if k is None else I.to_term(k))


@fn("numpy.errstate")
def _errstate(I, a, kw):
    return NONE


@fn("numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "pandas.set_option", "pandas.reset_option")
def _glob(I, a, kw):
    I.log("globalwrite", "settings of the libraries")
    return NONE


@fn("numpy.random.seed")
def _seed(I, a, kw):
    I.log("globalwrite", "numpy's global random state")
    return NONE


LEGACY_RANDOM = ["normal", "uniform", "rand", "randn", "randint", "random", "choice", "permutation", "shuffle", "standard_normal", "random_sample"]
for _n in LEGACY_RANDOM:
    def _legacy(I, a, kw, _n=_n):
        I.log("nondet", f"numpy.random.{_n} (global random state)")
        return I.new_arr("nd", mk("nondet", "numpy.random." + _n))

    F["numpy.random." + _n] = _legacy


# ------------------------------------------------------------------- xgcm
@fn("xgcm.Grid")
def _grid(I, a, kw):
    coords = I.targ([], kw, None, "coords")
    rest = {k: v for k, v in kw.items() if k not in ("coords", "ds")}
    rest.setdefault("boundary", NONE)
    per = rest.pop("periodic", None)
    if per is not None and I.to_term(per) is not TRUE:
        rest["periodic"] = per
    auto = rest.pop("autoparse_metadata", None)
    return I.new("lib", term=mk("grid", coords, I.kw_terms(rest)), cls="grid", origin=EMPTY)


@fn("sklearn.neighbors.BallTree")
def _balltree(I, a, kw):
    X = I.targ(a, kw, 0, "X")
    kw2 = {k: v for k, v in kw.items() if k not in ("X", "leaf_size")}
    return I.new("lib", term=mk("balltree", X, I.kw_terms(kw2)), cls="balltree", origin=EMPTY)


# ----------------------------------------------------------------- pandas
@fn("pandas.read_csv")
def _read_csv(I, a, kw):
    p = I.targ(a, kw, 0, "filepath_or_buffer")
    I.raise_if(T.lift(lambda q: T.not_(mk("pathexists", q)) if q.op == "sym" else T.FALSE, p), "FileNotFoundError", T.st("no such file"), I.node)
    I.log("read", p)
    return I.new_df(mk("read_csv", p, I.kw_terms(_kwonly(kw, "filepath_or_buffer"))))


@fn("pandas.concat")
def _pdconcat(I, a, kw):
    ks = I.known_elems(a[0])
    ax = I.targ(a, kw, 1, "axis", ZERO)
    if ax is st("columns"):
        ax = ONE
    if ks is not None:
        return I.new_df(mk("pdconcat", tuple(I.to_term(k) for k in ks), ax))
    return NotImplemented


@fn("pandas.DataFrame")
def _dataframe(I, a, kw):
    v = I.arg(a, kw, 0, "data")
    df = I.new_df(mk("emptyframe", I.kw_terms(_kwonly(kw, "data"))))
    if v is not None:
        v = I.resolve(v)
        if isinstance(v, Obj) and v.kind == "dict" and I.rec(v)["base"] is None and not I.rec(v)["each"]:
            I.upd(df, items={k: (g, I.to_term(x)) for k, (g, x) in I.rec(v)["items"].items()})
        else:
            return I.new_df(mk("dataframe", I.to_term(v), I.kw_terms(_kwonly(kw, "data"))))
    return df


@fn("importlib_resources.files", "importlib.resources.files")
def _files(I, a, kw):
    return mk("resource", I.to_term(a[0]))


@fn("importlib.metadata.metadata")
def _meta(I, a, kw):
    return mk("metadata", I.to_term(a[0]))


@fn("cftime.is_leap_year")
def _leap(I, a, kw):
    return mk("truth", mk("is_leap_year", *[I.to_term(x) for x in a]))


@fn("cftime.datetime", "datetime.timedelta", "datetime.datetime")
def _dt(I, a, kw):
    return NotImplemented


@fn("cftime.datetime")
def _cfdt(I, a, kw):
    return mk("cftime", tuple(I.to_term(x) for x in a), I.kw_terms(kw))


@fn("datetime.timedelta")
def _td(I, a, kw):
    return mk("timedelta", tuple(I.to_term(x) for x in a), I.kw_terms(kw))
