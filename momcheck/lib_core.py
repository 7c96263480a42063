"""Containers, attribute access, indexing and operators of the analysis."""
import json
import os

from . import terms as T
from . import ops
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num,
    truth, eq, lt, le, is_, member, subst, subterms, fmt,
)
from .values import (
    PathDead, Obj, TupleVal, FuncVal, BoundMethod, Partial, LibRef, ModuleVal,
    Accessor, Choice, Tensor, one,
)

with open(os.path.join(os.path.dirname(__file__), "api_names.json")) as fh:
    API = {k: set(v) for k, v in json.load(fh).items()}

XARRAY_ONLY = {"dims", "coords", "attrs", "encoding", "rename", "isel", "sel", "assign_coords", "assign_attrs", "drop_vars", "to_dataset", "isnull", "notnull", "reset_coords",
               "expand_dims", "broadcast_like", "indexes", "sizes", "polyfit", "weighted", "groupby", "resample", "interp", "variable"}
KIND_API = {"da": "DataArray", "ds": "Dataset", "nd": "ndarray", "df": "DataFrame", "series": "Series"}
EMPTY = frozenset()
ALL = mk("alldims")

CLASS_OF = {
    "da": "xarray.DataArray", "ds": "xarray.Dataset", "nd": "numpy.ndarray", "df": "pandas.DataFrame",
    "series": "pandas.Series", "list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set",
}
SYM_CLASS = {
    "str": {"builtins.str"}, "int": {"builtins.int"}, "num": {"builtins.float"}, "bool": {"builtins.bool", "builtins.int"},
    "float": {"builtins.float"},
}
LIB_ALIASES = {
    "xarray.core.dataarray.DataArray": "xarray.DataArray",
    "xarray.core.dataset.Dataset": "xarray.Dataset",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "xarray.coding.cftimeindex.CFTimeIndex": "xarray.CFTimeIndex",
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.true_divide": "numpy.divide",
    "numpy.deg2rad": "numpy.radians", "numpy.rad2deg": "numpy.degrees", "numpy.asanyarray": "numpy.asarray",
    "numpy.ma.filled": "numpy.ma.filled", "math.fabs": "numpy.abs",
}
STRS = {"str", "fmt"}


def scalar_term(t, types):
    """The node is a single number (not an array)."""
    if t.op in ("num", "pi", "len", "bound", "bv", "int"):
        return True
    if t.op == "sym":
        return types.get(t) in ("num", "int", "float", "bool", "str")
    if t.op == "inv":
        return scalar_term(t.args[0], types)
    if t.op == "poly":
        return all(scalar_term(a, types) for c, m in t.args[0] for a, e in m)
    if t.op in ("sqrt", "sin", "cos", "abs", "log"):
        return scalar_term(t.args[0], types)
    if t.op == "ite":
        return scalar_term(t.args[1], types) and scalar_term(t.args[2], types)
    return False


# two-dimensional fields and axes: selecting a time level leaves them alone
STATIC = {"areacello", "deptho", "wet", "dxCu", "dyCv", "areacello_bu", "geolat", "geolon", "geolat_c", "geolon_c", "z_l", "z_i", "xh", "yh", "xq", "yq"}


def ds_item(base, k):
    """Variable k of a dataset node; operations that act on each variable are done on it"""
    if base.op in ("isel", "sel") and len(base.args) == 3:
        if k.op == "str" and k.args[0] in STATIC or k.op == "sym":
            keys = {kk for kk, _ in base.args[1]}
            names = {kk.args[0] for kk in keys}
            if k not in keys and names <= {"tc", "time"}:
                return ds_item(base.args[0], k)
        return ops.linear_op(base.op, ds_item(base.args[0], k), *base.args[1:])
    if base.op in ("squeeze", "transpose", "chunk", "resetcoords") or base.op == "dropds" and not (base.args[1].op == "set" and k in base.args[1].args):
        return mk(base.op, ds_item(base.args[0], k), *base.args[1:])
    return mk("item", base, k)


DATE_FIELDS = {"calendar", "year", "month", "day", "hour", "minute", "second", "daysinmonth", "dayofyr", "has_year_zero", "is_leap_year"}


def fixed_range(t):
    """A vector made from date ranges of known length"""
    for x in T.subterms(t):
        if x.op == "cftime_range":
            n = ops.len_of(t)
            return n.op == "num" and 0 <= n.args[0] <= 120
    return False


def date_field(t, name):
    """A field of a date; all dates of an axis are of one calendar"""

    def f(x):
        if name == "calendar" and x.op == "item" and x.args[1].op == "num":
            return mk("dt", x.args[0], name)
        return mk("attr", x, name)

    return T.lift(f, t)


# names of coordinate variables; the others of a dataset are data
AXES = {"time", "average_T1", "z_l", "z_i", "xh", "yh", "xq", "yq", "lat", "lon", "geolat", "geolon", "bnds", "nv", "x", "y", "coeff"}


class CoreMixin:
    # ------------------------------------------------------- conversions
    def to_term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, TupleVal):
            return mk("tuple", *[self.to_term(x) for x in v.items])
        if isinstance(v, Obj):
            k = v.kind
            r = self.rec(v)
            if k in ("da", "nd", "series", "set", "lib", "gb", "wt"):
                return r["term"]
            if k == "df":
                return self.df_term(v)
            if k == "list":
                return mk("list", *[self.seg_term(e) for e in r["elems"]])
            if k == "dict":
                return self.dict_term(v)
            if k == "ds":
                return self.ds_term(v)
            if k == "exc":
                return mk("exc", r["type"], self.to_term(r["msg"]))
            return mk("obj", k)
        if isinstance(v, Choice):
            return ite(v.cond, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, FuncVal):
            return mk("func", f"{v.module.name}.{v.qualname}")
        if isinstance(v, LibRef):
            return mk("lib", v.name)
        if isinstance(v, ModuleVal):
            return mk("module", v.name)
        if isinstance(v, Partial):
            return mk("partial", self.to_term(v.func), tuple(self.to_term(a) for a in v.args), self.kw_terms(v.kwargs))
        if isinstance(v, BoundMethod):
            return mk("method", self.to_term(v.recv), v.name)
        if isinstance(v, Accessor):
            return mk("attr", self.to_term(v.recv), v.name)
        if isinstance(v, Tensor):
            return self.tensor_term(v)
        if v is None:
            return T.ABSENT
        raise TypeError(f"no node for {v!r}")

    def seg_term(self, e):
        from .interp import mk_each

        if e[0] == "one":
            t = self.to_term(e[2])
            return t if e[1] is TRUE else mk("gelem", e[1], t)
        return mk_each(e[1], e[2], e[3], self.to_term(e[4]))

    def dict_term(self, d):
        r = self.rec(d)
        its = []
        for k, (g, v) in r["items"].items():
            t = self.to_term(v)
            its.append((k, t if g is TRUE else mk("gelem", g, t)))
        its.sort(key=lambda x: x[0].id)
        each = self.each_terms(r["each"])
        if r["base"] is not None and not its and not each and not r.get("removed"):
            return r["base"]
        rem = tuple(sorted(r.get("removed", ()), key=lambda t: t.id))
        return mk("dict", r["base"] if r["base"] is not None else NONE, tuple(its), each, rem)

    def each_terms(self, each):
        from .interp import close, deindex

        out = []
        for S, bv, g, k, v in each:
            S2, (g2, k2, v2) = deindex(S, bv, g, k, self.to_term(v))
            h, g3, k3, v3 = close(bv, g2, k2, v2)
            out.append(mk("eachkv", S2, h, g3, k3, v3))
        return tuple(out)

    def ds_term(self, d):
        r = self.rec(d)
        its = []
        for k, (g, v) in r["items"].items():
            t = self.to_term(v)
            its.append((k, t if g is TRUE else mk("gelem", g, t)))
        its.sort(key=lambda x: x[0].id)
        each = self.each_terms(r["each"])
        if not its and not each and r["base"] is not None:
            return r["base"]
        if r["base"] is None and not its and len(each) == 1:
            # {v: X[v] for v in S if c} is X[[v for v in S if c]]
            S, h, g, k, v = each[0].args
            b = mk("bound", h)
            if k is b and v.op == "item" and v.args[1] is b and b not in subterms(v.args[0]):
                return mk("item", v.args[0], self.keyset(mk("list", mk("each", S, h, g, b))))
        return mk("dataset", r["base"] if r["base"] is not None else NONE, tuple(its), each)

    def keyset(self, t):
        """Selection of variables by a list of names: the order is irrelevant."""
        return t

    # --------------------------------------------------------- sequences
    def elems_of(self, v):
        """Elements of an iterable as segments."""
        from .interp import fresh_bv

        v = self.resolve(v)
        if isinstance(v, TupleVal):
            return [one(x) for x in v.items]
        if v is NONE:
            self.raise_if(TRUE, "TypeError", st("None is not iterable"), self.node)
            raise PathDead()
        if isinstance(v, Choice):
            if NONE in (v.a, v.b):
                self.raise_if(v.cond if v.a is NONE else not_(v.cond), "TypeError", st("None is not iterable"), self.node)
                return self.elems_of(v.b if v.a is NONE else v.a)
            a = self.elems_of(v.a)
            b = self.elems_of(v.b)
            out = []
            for e in a:
                out.append(("one", and_(e[1], v.cond), e[2]) if e[0] == "one" else ("each", e[1], e[2], and_(e[3], v.cond), e[4]))
            for e in b:
                n = not_(v.cond)
                out.append(("one", and_(e[1], n), e[2]) if e[0] == "one" else ("each", e[1], e[2], and_(e[3], n), e[4]))
            return out
        if isinstance(v, Tensor):
            if v.axes and isinstance(v.axes[0], int):
                return [one(self.tensor_index(v, 0, i)) for i in range(v.axes[0])]
            v = self.tensor_term(v)
        if isinstance(v, Obj):
            r = self.rec(v)
            if v.kind == "list":
                return list(r["elems"])
            if v.kind == "dict":
                out = [("one", g, k) for k, (g, _) in r["items"].items()]
                if r["base"] is not None:
                    bv = fresh_bv()
                    c = and_(TRUE, *[not_(eq(bv, k)) for k in r["items"]])
                    out.insert(0, ("each", mk("keys", r["base"]), bv, c, bv))
                for S, bv, g, k, val in r["each"]:
                    out.append(("each", S, bv, g, k))
                return out
            if v.kind == "gb":
                bv = fresh_bv()
                S = mk("groupkeys", r["term"])
                if r.get("asdict"):
                    return [("each", S, bv, TRUE, bv)]
                return [("each", S, bv, TRUE, TupleVal([bv, self.group_sel(v, bv)]))]
            if v.kind == "ds":
                known = self.data_names(v)
                if known is not None:
                    return known
                t = self.ds_names(v, "data_vars")
                return self.term_elems(t)
            if v.kind == "nd" or v.kind == "da":
                bv = fresh_bv()
                S = mk("rows", r["term"])
                el = self.new_arr(v.kind, mk("item", r["term"], bv), borigin=r["borigin"])
                if r["term"].op in ("call", "attr") or self.is_1d(r["term"]):
                    el = mk("item", r["term"], bv)
                return [("each", mk("range0", mk("len", r["term"])), bv, TRUE, el)]
            return self.term_elems(self.to_term(v))
        if isinstance(v, Accessor):
            if v.name == "data_vars":
                o = self.resolve(v.recv)
                known = self.data_names(o) if isinstance(o, Obj) and o.kind == "ds" else None
                if known is not None:
                    return known
            return self.term_elems(self.acc_term(v))
        return self.term_elems(self.to_term(v))

    def data_names(self, o):
        """The names of the data variables of a dataset that was built here; None: not known"""
        r = self.rec(o)
        if r["base"] is not None or r["each"] or r["symitems"] or not r["items"]:
            return None
        if not all(k.op == "str" for k in r["items"]) or any(k.args[0] in AXES for k in r["items"]):
            return None
        return [("one", g, k) for k, (g, _) in r["items"].items()]

    def is_1d(self, t):
        return t.op in ("dt",) or (t.op == "item" and t.args[1].op in ("str",)) and False

    def term_elems(self, t):
        from .interp import fresh_bv

        if t.op in ("tuple", "list", "set"):
            out = []
            for e in t.args:
                if e.op == "gelem":
                    out.append(("one", e.args[0], e.args[1]))
                elif e.op == "each":
                    bv = fresh_bv()
                    b = mk("bound", e.args[1])
                    out.append(("each", e.args[0], bv, subst(e.args[2], {b: bv}), subst(e.args[3], {b: bv})))
                else:
                    out.append(one(e))
            return out
        if t.op == "str":
            return [one(st(c)) for c in t.args[0]]
        if t.op == "range0" and t.args[0].op == "num" and 0 <= t.args[0].args[0] <= 120:
            return [one(num(i)) for i in range(int(t.args[0].args[0]))]
        if fixed_range(t):
            n = int(ops.len_of(t).args[0])
            return [one(ops.entry(t, i)) for i in range(n)]
        if t.op in ("setof", "aslist"):
            return self.term_elems(t.args[0]) if t.op == "aslist" else self._sym_elems(t)
        if t.op == "ite":
            return self.elems_of(Choice(t.args[0], t.args[1], t.args[2]))
        return self._sym_elems(t)

    def _sym_elems(self, t):
        from .interp import fresh_bv

        bv = fresh_bv()
        if t.op == "iterrows":
            el = self.new_arr("series", mk("row", t.args[0], bv))
            return [("each", t, bv, TRUE, TupleVal([mk("rowlabel", t.args[0], bv), el]))]
        if t.op == "itertuples":
            return [("each", t, bv, TRUE, mk("row", t.args[0], bv))]
        T.DOMAIN[bv] = t.args[0] if t.op in ("setof", "sorted") else t
        return [("each", t, bv, TRUE, bv)]

    def known_elems(self, v):
        es = self.elems_of(v)
        if all(e[0] == "one" and e[1] is TRUE for e in es):
            return [e[2] for e in es]
        return None

    # ---------------------------------------------------------------- sets
    def to_set(self, v):
        """Set normal form of an iterable."""
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind == "set":
            return self.rec(v)["term"]
        if isinstance(v, Accessor):
            return mk("setof", self.acc_term(v))
        if isinstance(v, Term):
            if v.op in ("setof", "setdiff", "union", "inter", "set"):
                return v
            if v.op in ("aslist", "sorted"):
                return self.to_set(v.args[0])
            if v.op not in ("tuple", "list", "str"):
                return mk("setof", v)
        if isinstance(v, Obj) and v.kind == "ds":
            return mk("setof", self.ds_names(v, "data_vars"))
        es = [self.seg_term(e) for e in self.elems_of(v)]
        if len(es) == 1 and es[0].op == "each":
            S, h, c, val = es[0].args
            if val is mk("bound", h) and c is TRUE:
                return self.to_set(S) if S.op in ("setof", "setdiff", "union", "inter", "set") else mk("setof", S)
        return mk("set", *sorted(set(es), key=lambda t: t.id))

    def set_union(self, *ts):
        flat = []
        for t in ts:
            flat.extend(t.args if t.op == "union" else [t])
        consts = [t for t in flat if t.op == "set"]
        rest = sorted({t for t in flat if t.op != "set"}, key=lambda t: t.id)
        els = sorted({e for t in consts for e in t.args}, key=lambda t: t.id)
        if els:
            rest.append(mk("set", *els))
        if not rest:
            return mk("set")
        if len(rest) == 1:
            return rest[0]
        return mk("union", *rest)

    def set_diff(self, a, b):
        if b.op == "set" and not b.args:
            return a
        if a.op == "set" and b.op == "set" and all(T.is_const(e) for e in a.args + b.args):
            return mk("set", *[e for e in a.args if e not in b.args])
        if a.op == "setdiff":
            return self.set_diff(a.args[0], self.set_union(a.args[1], b))
        if a.op == "setof" and a.args[0].op == "attr" and a.args[0].args[1] in ("variables", "data_vars"):
            # the variables that are not coordinates; no dimension is the name of one
            x, what = a.args[0].args
            parts = list(b.args if b.op == "union" else [b])
            coords, dims = (mk("setof", mk("attr", x, n)) for n in ("coords", "dims"))
            if what == "data_vars" or coords in parts:
                rest = [q for q in parts if q is not coords and q is not dims]
                a = mk("setof", mk("attr", x, "data_vars"))
                if not rest:
                    return a
                b = self.set_union(*rest)
        return mk("setdiff", a, b)

    def set_inter(self, a, b):
        if a.op == "set" and b.op == "set" and all(T.is_const(e) for e in a.args + b.args):
            return mk("set", *[e for e in a.args if e in b.args])
        return mk("inter", *sorted((a, b), key=lambda t: t.id))

    def set_pred(self, t, x):
        """x in t"""
        return member(x, t)

    # --------------------------------------------------------------- dicts
    def dict_update(self, d, v):
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind == "dict":
            r2 = self.rec(v)
            r = self.rec(d)
            items = dict(r["items"])
            base = r["base"]
            if r2["base"] is not None:
                if base is None and not items:
                    base = r2["base"]
                else:
                    base = mk("dictmerge", self.dict_term(d), r2["base"])
                    items = {}
            each = r["each"] + r2["each"]
            for k, (g, val) in r2["items"].items():
                if g is TRUE:
                    items[k] = (TRUE, val)
                else:
                    old = items.get(k)
                    items[k] = (or_(g, old[0]) if old else g, self.choose(g, val, old[1]) if old else val)
            removed = frozenset(x for x in (r.get("removed", EMPTY) | r2.get("removed", EMPTY)) if x not in items or items[x][0] is not TRUE)
            self.upd(d, base=base, items=items, each=each, removed=removed)
            return
        if isinstance(v, Obj) and v.kind == "series" or isinstance(v, Term):
            r = self.rec(d)
            t = self.to_term(v)
            if r["base"] is None and not r["items"]:
                self.upd(d, base=t)
            else:
                self.upd(d, base=mk("dictmerge", self.dict_term(d), t), items={}, each=())
            return
        for e in self.elems_of(v):
            if e[0] == "one" and isinstance(e[2], TupleVal):
                self.setitem(d, e[2].items[0], e[2].items[1])
            else:
                self.upd(d, base=mk("dictmerge", self.dict_term(d), self.to_term(v)), items={}, each=())

    def dict_has(self, d, k):
        r = self.rec(d)
        k = self.to_term(k)
        c = FALSE
        for kk, (g, _) in r["items"].items():
            c = or_(c, and_(g, eq(k, kk)))
        if r["base"] is not None and k not in r.get("removed", ()):
            c = or_(c, member(k, mk("keys", r["base"])))
        from .interp import mk_exists

        for S, bv, g, kk, v in r["each"]:
            if k in r.get("removed", ()):
                continue
            if kk is bv:
                c = or_(c, and_(member(k, S), subst(g, {bv: k})))
            else:
                c = or_(c, mk_exists(S, bv, and_(g, eq(kk, k))))
        return c

    def dict_get(self, d, k, default=None):
        """d[k] or d.get(k, default)"""
        r = self.rec(d)
        k = self.to_term(k)

        def rest():
            for S, bv, g, kk, v in reversed(r["each"]):
                if kk is bv and k not in r.get("removed", ()):
                    val = self.subst_val(v, {bv: k})
                    has = and_(member(k, S), subst(g, {bv: k}))
                    if default is None and r["base"] is None and len(r["each"]) == 1:
                        if self.find_handler("KeyError"):
                            self.raise_if(not_(has), "KeyError", k, self.node)
                        return val
                    if r["base"] is None and len(r["each"]) == 1:
                        return self.fork_val(has, lambda: val, lambda: default)
                    return val
            if r["base"] is not None and k not in r.get("removed", ()):
                has = member(k, mk("keys", r["base"]))
                val = self.base_item(d, r["base"], k)
                if default is not None:
                    return self.fork_val(has, lambda: val, lambda: default)
                if self.find_handler("KeyError") or r["base"].op == "attr" and r["base"].args[1] == "attrs":
                    self.raise_if(not_(has), "KeyError", k, self.node)
                return val
            if default is not None:
                return default
            self.raise_if(TRUE, "KeyError", k, self.node)
            raise PathDead()

        if k in r["items"]:
            g, v = r["items"][k]
            if g is TRUE:
                return v
            return self.fork_val(g, lambda: v, rest)
        cands = [(kk, gv) for kk, gv in r["items"].items() if eq(k, kk) is not FALSE]
        if not cands:
            return rest()

        def pick(i):
            if i == len(cands):
                return rest()
            kk, (g, v) = cands[i]
            return self.fork_val(and_(g, eq(k, kk)), lambda: v, lambda: pick(i + 1))

        return pick(0)

    def base_item(self, d, base, k):
        return mk("item", base, k)

    # ----------------------------------------------------------- datasets
    def ds_names(self, d, which):
        return mk("attr", self.ds_term(d), which)

    def ds_get(self, d, k):
        r = self.rec(d)
        k = self.to_term(k)
        if k in r["items"]:
            g, v = r["items"][k]
            return v
        if k in r["symitems"]:
            return r["symitems"][k]
        if self.find_handler("KeyError"):
            self.raise_if(not_(member(k, self.ds_names(d, "variables"))), "KeyError", k, self.node)
        og, bog = r["origin"], r.get("borigin", r["origin"])
        t = None
        for S, bv, g, kk, v in r["each"]:
            if kk is bv:
                t = subst(self.to_term(v), {bv: k})
        if t is None:
            t = ds_item(r["base"] if r["base"] is not None else self.ds_term(d), k)
        a = self.new_dict(base=mk("attr", t, "attrs"), origin=og)
        e = self.new_dict(base=mk("attr", t, "encoding"), origin=og)
        o = self.new_arr("da", t, a, k, og, bog, e)
        si = dict(self.rec(d)["symitems"])
        si[k] = o
        self.upd(d, symitems=si)
        return o

    def ds_set(self, d, k, v):
        k = self.to_term(k)
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind in ("da", "nd"):
            r = self.rec(v)
            o = self.new_arr("da", r["term"], self.copy_dict(r["attrs"]), k, EMPTY, r["borigin"], self.copy_dict(r["enc"]))
        else:
            o = self.new_arr("da", self.to_term(v), None, k)
        r = self.rec(d)
        its = dict(r["items"])
        its[k] = (TRUE, o)
        si = {kk: vv for kk, vv in r["symitems"].items() if kk is not k}
        self.upd(d, items=its, symitems=si)

    def copy_dict(self, d):
        r = self.rec(d)
        o = self.new_dict({})
        self.upd(o, base=r["base"], items=dict(r["items"]), each=r["each"], removed=r.get("removed", EMPTY))
        return o

    def copy_ds(self, d, deep=False, origin=EMPTY):
        r = self.rec(d)
        o = self.new_ds(base=r["base"], attrs=self.copy_dict(r["attrs"]), origin=origin)
        its = {}
        for k, (g, v) in r["items"].items():
            rv = self.rec(v)
            its[k] = (g, self.new_arr("da", rv["term"], self.copy_dict(rv["attrs"]), k, EMPTY, EMPTY if deep else rv["borigin"], self.copy_dict(rv["enc"])))
        bog = EMPTY if deep else r.get("borigin", r["origin"])
        self.upd(o, items=its, each=r["each"], borigin=bog, enc=self.copy_dict(r["enc"]))
        return o

    # --------------------------------------------------------- dataframes
    def df_term(self, d):
        r = self.rec(d)
        cols = r.get("items") or {}
        t = r["term"]
        if not cols:
            return t
        return mk("frame", t, tuple(sorted(((k, self.to_term(v)) for k, (g, v) in cols.items()), key=lambda x: x[0].id)))

    def df_col(self, t, k):
        """Column k of a table node."""
        if t.op == "frame":
            for kk, v in t.args[1]:
                if kk is k:
                    return v
            if all(eq(kk, k) is FALSE for kk, _ in t.args[1]):
                return self.df_col(t.args[0], k)
            # the names may coincide: the later column wins
            out = self.df_col(t.args[0], k)
            for kk, v in t.args[1]:
                out = ite(eq(kk, k), v, out)
            return out
        if t.op == "filter":
            return mk("filter", self.df_col(t.args[0], k), t.args[1])
        if t.op == "iloc":
            return mk("iloc", self.df_col(t.args[0], k), t.args[1])
        if t.op in ("uniquecols", "dropcols"):
            return self.df_col(t.args[0], k)
        if t.op == "ite":
            return ite(t.args[0], self.df_col(t.args[1], k), self.df_col(t.args[2], k))
        return mk("item", t, k)

    # ----------------------------------------------------------- mutation
    def mutated(self, o, what):
        r = self.rec(o)
        og = r.get("origin") or EMPTY
        if og:
            self.log("mutate", (tuple(sorted(og)), what))
        if o.id in self.static_ids:
            self.log("globalmut", what)

    static_ids = frozenset()

    def mutate_data(self, o, what):
        r = self.rec(o)
        og = r.get("borigin") or EMPTY
        if og:
            self.log("mutate", (tuple(sorted(og)), "data: " + what))
        if o.id in self.static_ids:
            self.log("globalmut", what)

    def escape(self, v):
        """v is passed to code that is not known."""

    # ----------------------------------------------------------- attributes
    def acc_term(self, a):
        t = self.to_term(a.recv)
        if a.name == "sizes":
            return mk("attr", t, "dims")
        return mk("attr", t, a.name)

    def arr_dims(self, t):
        return mk("attr", t, "dims")

    def not_none(self, *ts):
        """The operation is not defined for None"""
        for t in ts:
            def f(x):
                if x is NONE:
                    return TRUE
                if x.op == "attr" and x.args[1] == "chunks" and x.args[0].op == "sym" and x.args[0].args[1:] == ("da",):
                    return T.is_(x, NONE)
                return FALSE
            if isinstance(t, Term):
                c = f(t) if t.op != "ite" else T.lift(f, t)
                if c is not FALSE:
                    self.raise_if(c, "TypeError", st("None"), self.node)
                    if c is TRUE:
                        raise PathDead()

    def getattr_(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork_val(o.cond, lambda: self.getattr_(o.a, name), lambda: self.getattr_(o.b, name))
        if isinstance(o, ModuleVal):
            if name == "__dict__":
                m = self.import_module(o.name)
                vs = dict(self.rec(m.frame)["vars"])
                return self.new_dict({st(k): v for k, v in vs.items()})
            v = self.module_attr(o.name, name)
            if v is None:
                self.raise_if(TRUE, "AttributeError", st(name), self.node)
                raise PathDead()
            return v
        if isinstance(o, LibRef):
            return self.lib_attr(o.name, name)
        if isinstance(o, FuncVal):
            if name in ("__name__", "__qualname__"):
                return st(o.qualname.split(".")[-1])
            if name == "__doc__":
                return mk("doc", o.qualname)
            return self.unknown(f"function attribute {name}")
        if isinstance(o, Obj):
            return self.obj_attr(o, name)
        if isinstance(o, Accessor):
            if o.name in ("dt",):
                t = self.to_term(o.recv)
                if name == "calendar":
                    return mk("dt", t, name)
                return self.new_arr("da", mk("dt", t, name), name=st(name))
            return BoundMethod(o, name)
        if isinstance(o, Tensor):
            if name == "T":
                return self.tensor_transpose(o, tuple(reversed(range(len(o.axes)))))
            if name == "shape" and all(isinstance(a, int) for a in o.axes):
                return TupleVal([num(a) for a in o.axes])
            if name in ("ndim",):
                return num(len(o.axes))
            return BoundMethod(o, name)
        if isinstance(o, TupleVal):
            return BoundMethod(o, name)
        if isinstance(o, Term):
            if o.op == "none" or o.op == "num" and not hasattr(1.0, name) and name not in ("bit_length", "item", "values", "dtype", "shape", "ndim", "astype"):
                self.raise_if(TRUE, "AttributeError", st(name), self.node)
                raise PathDead()
            return self.term_attr(o, name)
        return BoundMethod(o, name)

    TERM_METHODS = {
        "lower", "upper", "split", "replace", "strip", "zfill", "capitalize", "format", "join",
        "startswith", "endswith", "title", "casefold", "lstrip", "rstrip", "rsplit", "find", "count",
        "index", "swapcase", "isdigit", "partition", "rpartition", "removesuffix", "removeprefix", "keys", "values_", "items", "get", "query",
        "strftime", "union", "difference", "intersection", "to_pydatetime", "total_seconds", "item", "tolist", "sum", "mean", "isoformat",
        "tobytes", "reshape", "flatten", "ravel", "copy", "map", "insert", "append", "astype", "max", "min", "round", "timetuple", "toordinal",
        "transform", "interp", "diff", "joinpath", "exists", "read_text", "duplicated", "any", "all", "isin", "get_loc", "searchsorted", "shift",
    }

    def term_attr(self, t, name):
        if name in self.TERM_METHODS or t.op in ("str", "fmt"):
            return BoundMethod(t, name)
        if name in ("values", "data") and t.op != "sym":
            return t
        if name == "args" and t.op == "exc":
            return TupleVal([t.args[1]])
        if name == "__name__":
            return mk("attr", t, name)
        if name in DATE_FIELDS:
            return date_field(t, name)
        return T.lift(lambda x: mk("attr", x, name), t)

    GRID = {
        "apply_as_grid_ufunc", "average", "cumint", "cumsum", "derivative", "diff", "diff_2d_vector", "get_metric", "integrate", "interp", "interp_2d_vector",
        "interp_like", "max", "min", "set_metrics", "transform", "axes", "boundary", "fill_value",
    }

    def obj_attr(self, o, name):
        k = o.kind
        r = self.rec(o)
        if k == "lib" and r.get("cls") == "grid" and name not in self.GRID and not name.startswith("_"):
            self.raise_if(TRUE, "AttributeError", st(name), self.node)
            raise PathDead()
        if k in ("da", "nd", "series", "df"):
            t = self.to_term(o)
            if k == "df":
                if name == "columns":
                    return mk("attr", t, "columns")
                if name == "index":
                    return self.df_index(t)
                if name == "values":
                    return self.new_arr("nd", t)
                if name in ("loc", "iloc", "at", "iat"):
                    return Accessor(o, name)
                if name in API["DataFrame"]:
                    return BoundMethod(o, name) if name not in ("shape", "size", "ndim", "T", "dtypes", "empty") else mk("attr", t, name)
                return self.getitem(o, st(name))
            if k == "series":
                if name in ("values", "array"):
                    return self.new_arr("nd", t)
                if name in ("loc", "iloc", "at", "iat", "str", "dt"):
                    return Accessor(o, name)
                if name == "index":
                    return mk("attr", t, "index")
                if name in API["Series"]:
                    return BoundMethod(o, name) if name not in ("shape", "size", "ndim", "name", "dtype", "empty") else mk("attr", t, name)
                return self.getitem(o, st(name))
            if name in ("values", "data"):
                if k == "da":
                    self.log("force" if name == "values" else "touch", (name, t))
                    return self.new_arr("nd", t, borigin=r["borigin"])
                return o
            if k == "da":
                if name == "attrs":
                    return r["attrs"]
                if name == "encoding":
                    return r["enc"]
                if name == "name":
                    return r["name"]
                if name in ("coords", "indexes", "sizes", "loc", "dt", "variable", "xindexes", "str"):
                    return Accessor(o, name) if name != "variable" else o
            if k == "nd" and name in XARRAY_ONLY:
                self.raise_if(TRUE, "AttributeError", st(name), self.node)
                raise PathDead()
            if name == "dims":
                return self.arr_dims(t)
            if name == "ndim":
                return mk("len", self.arr_dims(t))
            if name == "shape":
                return mk("attr", t, "shape")
            if name in ("size", "dtype", "chunks", "nbytes", "chunksizes", "numblocks", "chunksize", "npartitions"):
                return mk("attr", t, name)
            if name == "T":
                return self.arr_like(o, mk("transpose", t, (mk("str", "T"),)), keep=True)
            if name in ("real",):
                return o
            if k == "nd" and name in DATE_FIELDS:
                return date_field(t, name)
            if name in API["DataArray"] or name in API["ndarray"] or k == "nd":
                return BoundMethod(o, name)
            return self.getitem(o, st(name))
        if k == "ds":
            if name == "attrs":
                return r["attrs"]
            if name == "encoding":
                return r["enc"]
            if name in ("variables", "data_vars", "coords", "dims", "sizes", "indexes", "loc", "xindexes"):
                return Accessor(o, name)
            if name in ("chunks", "nbytes", "dtypes"):
                return mk("attr", self.ds_term(o), name)
            if name in API["Dataset"]:
                return BoundMethod(o, name)
            return self.ds_get(o, st(name))
        if k == "gb" and name == "groups":
            return self.new("gb", **{**self.rec(o), "asdict": True})
        if k == "lib":
            kind = self.lib_obj_attr(o, name)
            if kind is not None:
                return kind
            return BoundMethod(o, name)
        if k == "exc":
            if name == "args":
                return TupleVal([r["msg"]])
            return self.unknown(f"exception attribute {name}")
        return BoundMethod(o, name)

    def df_index(self, t):
        if t.op == "frame":
            return self.df_index(t.args[0])
        if t.op in ("uniquecols", "dropcols"):
            return self.df_index(t.args[0])
        if t.op in ("filter", "iloc"):
            return mk(t.op, self.df_index(t.args[0]), t.args[1])
        if t.op == "ite":
            return ite(t.args[0], self.df_index(t.args[1]), self.df_index(t.args[2]))
        return mk("attr", t, "index")

    def lib_obj_attr(self, o, name):
        return None

    def setattr_(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            self.branch(o.cond, lambda: self.setattr_(o.a, name, v), lambda: self.setattr_(o.b, name, v))
            return
        if isinstance(o, Obj) and o.kind in ("da", "ds", "nd", "series", "df"):
            if name in ("attrs", "encoding"):
                self.mutated(o, f"assignment of .{name}")
                v = self.resolve(v)
                d = self.new_dict({})
                self.dict_update(d, v)
                key = "attrs" if name == "attrs" else "enc"
                self.log("setmeta", (name, self.to_term(o), self.dict_term(d)))
                self.upd(o, **{key: d})
                return
            if name == "name":
                self.mutated(o, "assignment of .name")
                self.upd(o, name=v)
                return
            if name in ("values", "data", "shape", "dtype"):
                self.mutate_data(o, f"assignment of .{name}")
                self.upd(o, term=self.to_term(v))
                return
            if name in ("index", "columns") and o.kind in ("df", "series"):
                self.mutated(o, f"assignment of .{name}")
                self.upd(o, term=mk("with" + name, self.to_term(o), self.to_term(v)), items={})
                return
            if o.kind == "df":
                self.setitem(o, st(name), v)
                return
            self.mutated(o, f"assignment of .{name}")
            return
        if isinstance(o, (FuncVal, ModuleVal)):
            self.log("globalwrite", f"{o}.{name}")
            if isinstance(o, ModuleVal):
                m = self.import_module(o.name)
                if m is not None:
                    self.setvar(m.frame, name, v)
            return
        if isinstance(o, LibRef):
            self.log("globalwrite", f"{o.name}.{name}")
            return
        self.unknown(f"assignment of attribute {name}")

    # ------------------------------------------------------------- indexing
    def norm_index(self, t, k):
        """item(t, k) in normal form"""
        def f(x, i):
            if x.op == "str" and i.op == "num":
                try:
                    return st(x.args[0][int(i.args[0])])
                except IndexError:
                    return mk("item", x, i)
            if x.op == "str" and i.op == "slice" and all(a.op in ("none", "num") for a in i.args):
                s = slice(*[None if a is NONE else int(a.args[0]) for a in i.args])
                return st(x.args[0][s])
            if x.op in ("tuple", "list") and i.op == "num" and i.args[0].denominator == 1:
                n = int(i.args[0])
                if all(e.op not in ("gelem", "each") for e in x.args) and -len(x.args) <= n < len(x.args):
                    return x.args[n]
            if x.op == "list" and len(x.args) == 1 and x.args[0].op == "each":
                S, h, c, v = x.args[0].args
                if c is TRUE and i.op != "slice":
                    return subst(v, {mk("bound", h): self.seq_at(S, i)})
            if x.op == "attr" and x.args[1] == "shape" and i is ZERO:
                return mk("len", x.args[0])
            if x.op == "item" and x.args[1].op == "slice":
                a, b, c = x.args[1].args
                if c is NONE and (a is NONE or (a.op == "num" and a.args[0] >= 0)) and (b is NONE or b.op == "num" and b.args[0] < 0):
                    if i.op in ("bv", "bound", "poly") or (i.op == "num" and i.args[0] >= 0):
                        return mk("item", x.args[0], T.add(i, a if a is not NONE else ZERO))
            if i.op == "slice" and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
                return x
            return mk("item", x, i)

        return T.lift(f, t, k)

    def seq_at(self, S, i):
        if S.op == "range0":
            return i
        return self.norm_index(S, i)

    def getitem(self, o, k):
        o = self.resolve(o)
        k = self.resolve(k) if not isinstance(k, tuple) else k
        if isinstance(o, Choice):
            return self.fork_val(o.cond, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, Choice):
            return self.fork_val(k.cond, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(o, Tensor):
            return self.tensor_getitem(o, k)
        if isinstance(o, TupleVal) or (isinstance(o, Obj) and o.kind == "list"):
            return self.seq_getitem(o, k)
        kt = self.to_term(k)
        if isinstance(o, Obj):
            if o.kind == "dict":
                return self.dict_get(o, kt)
            if o.kind == "ds":
                if isinstance(k, Obj) and k.kind in ("list",) or kt.op in ("list", "sorted", "aslist"):
                    r = self.rec(o)
                    d = self.new_ds(base=mk("item", self.ds_term(o), kt), attrs=r["attrs"], origin=r["origin"])
                    ks = self.known_elems(k) if isinstance(k, Obj) else None
                    if ks is not None:
                        its = {}
                        for x in ks:
                            xt = self.to_term(x)
                            its[xt] = (TRUE, self.ds_get(o, xt))
                        self.upd(d, items=its, base=None)
                        self.upd(d, sel=TRUE)
                    return d
                if isinstance(k, Obj) and k.kind == "dict":
                    return self.call_method(o, "isel", [k], {})
                return self.ds_get(o, kt)
            if o.kind == "df":
                return self.df_getitem(o, k, kt)
            if o.kind == "gb":
                return self.group_sel(o, kt)
            if o.kind in ("da", "nd", "series"):
                if kt.op == "num" and kt.args[0] not in (0, -1):
                    self.log("position", (self.to_term(o), kt))
                return self.arr_getitem(o, k, kt)
            if o.kind == "set":
                return self.unknown("index of a set")
            return self.generic_method(o, "__getitem__", [k], {})
        if isinstance(o, Accessor):
            return self.acc_getitem(o, k, kt)
        if isinstance(o, LibRef):
            return LibRef(o.name)  # typing subscripts
        if isinstance(o, Term):
            self.not_none(o)
            if o.op == "attr" and o.args[1] in ("chunks", "shape", "dims") and isinstance(k, Obj) and k.kind in ("list", "dict"):
                # tuples
                self.raise_if(TRUE, "TypeError", kt, self.node)
                raise PathDead()
            if self.is_name_key(kt) and self.symtypes.get(o) == "df":
                return mk("item", o, kt)
            return self.norm_index(o, kt)
        return self.unknown("subscript")

    def is_name_key(self, k):
        return k.op in ("str", "fmt") or self.symtypes.get(k) == "str" or k in self.namevars

    def seq_getitem(self, o, k):
        kt = self.to_term(k)
        es = self.elems_of(o)
        plain = all(e[0] == "one" and e[1] is TRUE for e in es)
        if kt.op == "num" and kt.args[0].denominator == 1:
            n = int(kt.args[0])
            if plain:
                if -len(es) <= n < len(es):
                    return es[n][2]
                self.raise_if(TRUE, "IndexError", kt, self.node)
                raise PathDead()
            if n >= 0 and n < len(es) and all(e[0] == "one" and e[1] is TRUE for e in es[: n + 1]):
                return es[n][2]
        if kt.op == "slice" and all(a.op in ("none", "num") for a in kt.args):
            s = slice(*[None if a is NONE else int(a.args[0]) for a in kt.args])
            if plain:
                sel = es[s]
                return TupleVal([e[2] for e in sel]) if isinstance(o, TupleVal) else self.new_list_elems(sel)
            if s == slice(None, None, None):
                return self.new_list_elems(es)
            # dropping trailing/leading elements that are known
            if s.step is None and s.start in (None, 0) and s.stop is not None and s.stop < 0:
                n = -s.stop
                if all(e[0] == "one" and e[1] is TRUE for e in es[len(es) - n :]) and len(es) >= n:
                    return self.new_list_elems(es[: len(es) - n])
            return mk("item", self.to_term(o), kt)
        if plain and T.is_bool(kt) and len(es) == 2:
            return self.fork_val(kt, lambda: es[1][2], lambda: es[0][2])
        if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE and kt.op != "slice":
            return self.subst_val(es[0][4], {es[0][2]: self.seq_at(es[0][1], kt)})
        return self.norm_index(self.to_term(o), kt)

    def arr_like(self, o, term, keep=False, kind=None, view=False, name="same"):
        r = self.rec(o)
        attrs = self.copy_dict(r["attrs"]) if keep and "attrs" in r else None
        nm = r["name"] if name == "same" else name
        return self.new_arr(kind or o.kind, term, attrs, nm, EMPTY, r["borigin"] if view else EMPTY)

    def arr_getitem(self, o, k, kt):
        r = self.rec(o)
        t = r["term"]
        if o.kind == "series":
            res = T.lift(lambda x: ops.item(x, kt), t)
            return res
        if isinstance(k, Obj) and k.kind == "dict":
            return self.call_method(o, "isel", [k], {})
        if isinstance(k, TupleVal) or kt.op == "tuple":
            ks = [self.to_term(x) for x in k.items] if isinstance(k, TupleVal) else list(kt.args)
            if NONE in ks and o.kind == "da" and t.op == "sym":
                # xarray does not add axes this way
                self.raise_if(TRUE, "IndexError", kt, self.node)
                raise PathDead()
            ax = self.axis_index(t, ks)
            if ax is not None:
                return self.arr_like(o, ax, keep=True, view=True)
        if self.is_name_key(kt) and o.kind == "da":
            # a coordinate
            it = T.lift(lambda x: ops.item(x, kt), t)
            a = self.new_dict(base=mk("attr", it, "attrs"), origin=r["origin"])
            return self.new_arr("da", it, a, kt, r["origin"], r["borigin"])
        if kt is NONE:
            return self.arr_like(o, t, keep=True, view=True)
        res = self.norm_index(t, kt)
        return self.arr_like(o, res, keep=True, view=True)

    def axis_index(self, t, ks):
        """x[:, None] and the like: x as an outer (row) or inner axis."""
        full = mk("slice", NONE, NONE, NONE)
        if all(k in (full, NONE, T.ELLIPSIS) for k in ks):
            trailing = 0
            for k in reversed(ks):
                if k is NONE:
                    trailing += 1
                else:
                    break
            return self.onaxis(t, trailing)
        return None

    def onaxis(self, t, n):
        """x with n new trailing axes; distributes over elementwise arithmetic."""
        if n == 0 or scalar_term(t, self.symtypes) or self.elem_scalar(t):
            return t
        if t.op == "poly":
            acc = ZERO
            for c, m in t.args[0]:
                x = num(c)
                for a, e in m:
                    x = T.mul(x, T.power(self.onaxis(a, n), num(e)))
                acc = T.add(acc, x)
            return acc
        if t.op in ("sin", "cos", "tan", "abs", "sqrt", "exp", "log"):
            return self.unary(t.op, self.onaxis(t.args[0], n))
        if t.op == "onaxis":
            return mk("onaxis", t.args[0], t.args[1] + n)
        return mk("onaxis", t, n)

    def elem_scalar(self, t):
        return t.op == "item" and t.args[1].op in ("num", "bv", "bound")

    def df_getitem(self, o, k, kt):
        r = self.rec(o)
        t = self.df_term(o)
        if isinstance(k, Obj) and k.kind == "series" or (isinstance(k, Obj) and k.kind == "nd"):
            return self.new("df", term=mk("filter", t, kt), items={}, attrs=self.new_dict({}), enc=self.new_dict({}), name=NONE, origin=EMPTY, borigin=EMPTY)
        if isinstance(k, Obj) and k.kind == "list" or kt.op in ("list",):
            ks = self.known_elems(k)
            if ks is not None:
                cols = mk("columns", *[self.df_col(t, self.to_term(x)) for x in ks])
                return self.new("df", term=cols, items={}, attrs=self.new_dict({}), enc=self.new_dict({}), name=NONE, origin=EMPTY, borigin=EMPTY)
            return self.new("df", term=mk("item", t, kt), items={}, attrs=self.new_dict({}), enc=self.new_dict({}), name=NONE, origin=EMPTY, borigin=EMPTY)
        its = r.get("items") or {}
        if kt in its and its[kt][0] is TRUE:
            v = its[kt][1]
            if isinstance(v, Obj):
                return v
        col = self.df_col(t, kt)
        if T.is_bool(kt):
            return self.new("df", term=mk("filter", t, kt), items={}, attrs=self.new_dict({}), enc=self.new_dict({}), name=NONE, origin=EMPTY, borigin=EMPTY)
        return self.new_arr("series", col, name=kt, borigin=r["borigin"], origin=r["origin"])

    def new_df(self, term, origin=EMPTY, borigin=EMPTY):
        return self.new("df", term=term, items={}, attrs=self.new_dict({}), enc=self.new_dict({}), name=NONE, origin=origin, borigin=borigin)

    def acc_getitem(self, a, k, kt):
        o, name = a.recv, a.name
        if name in ("coords", "variables", "data_vars"):
            return self.getitem(o, k)
        t = self.to_term(o)
        if name in ("sizes", "dims"):
            if kt.op in ("num", "slice", "bv"):
                return self.norm_index(mk("attr", t, "dims"), kt)
            return mk("len", self.to_term(self.getitem(o, k)))
        if name in ("indexes", "xindexes"):
            return mk("index", t, kt)
        if name in ("loc", "iloc", "at", "iat"):
            if isinstance(o, Obj) and o.kind == "df":
                if name == "iloc":
                    return self.new_df(mk("iloc", t, kt))
                if kt.op == "tuple" and len(kt.args) == 2 and kt.args[0] is mk("slice", NONE, NONE, NONE):
                    sel = kt.args[1]
                    if sel is not_(truth_of_dup(t)) or (sel.op == "ite"):
                        dup = mk("dupcols", t)
                        if sel is not_(dup):
                            return self.new_df(mk("uniquecols", t))
                    if sel.op in ("str",):
                        return self.df_getitem(o, sel, sel)
                if T.is_bool(kt) or (isinstance(k, Obj) and k.kind == "series"):
                    return self.new_df(mk("filter", t, kt))
                return self.new_df(mk("loc", t, kt))
            if isinstance(o, Obj) and o.kind == "series":
                if name == "iloc":
                    return self.new_arr("series", mk("iloc", t, kt))
                if T.is_bool(kt):
                    return self.new_arr("series", mk("filter", t, kt))
            if isinstance(o, Obj) and o.kind in ("da", "ds"):
                if isinstance(k, Obj) and k.kind == "dict":
                    return self.call_method(o, "sel", [k], {})
                return self.arr_like(o, mk("loc", t, kt), keep=True, view=True) if o.kind == "da" else self.new_ds(base=mk("loc", t, kt))
        if name == "chunks":
            return mk("item", mk("attr", t, "chunks"), kt)
        return mk("item", mk("attr", t, name), kt)

    def group_sel(self, g, k):
        r = self.rec(g)
        t = mk("groupsel", r["term"], self.to_term(k))
        if r["of"] == "ds":
            return self.new_ds(base=t)
        return self.new_arr(r["of"], t, self.copy_dict(r["attrs"]) if r.get("attrs") else None, name=r.get("name", NONE))

    def setitem(self, o, k, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            self.branch(o.cond, lambda: self.setitem(o.a, k, v), lambda: self.setitem(o.b, k, v))
            return
        kt = self.to_term(k)
        if isinstance(o, Obj):
            r = self.rec(o)
            if o.kind == "dict":
                self.mutated(o, f"item {T.pretty(kt, 2)}")
                b = r["base"]
                if b is not None and b.op == "attr" and b.args[1] in ("attrs", "encoding"):
                    self.log("setmeta", (b.args[1], b.args[0], mk("dict", NONE, ((kt, self.to_term(v)),), (), ())))
                its = dict(r["items"])
                its.pop(kt, None)
                its[kt] = (TRUE, v)
                self.upd(o, items=its, removed=frozenset(x for x in r.get("removed", EMPTY) if x is not kt))
                return
            if o.kind == "list":
                self.mutated(o, "item")
                es = list(r["elems"])
                if kt.op == "num" and all(e[0] == "one" and e[1] is TRUE for e in es):
                    n = int(kt.args[0])
                    if -len(es) <= n < len(es):
                        es[n] = one(v)
                        self.upd(o, elems=tuple(es))
                        return
                self.upd(o, elems=(one(self.unknown("list item assignment")),))
                return
            if o.kind == "ds":
                self.mutated(o, f"variable {T.pretty(kt, 2)}")
                if isinstance(k, Obj) and k.kind in ("list", "dict"):
                    self.upd(o, base=self.unknown("dataset item assignment"))
                    return
                self.ds_set(o, kt, v)
                return
            if o.kind == "df":
                self.mutated(o, f"column {T.pretty(kt, 2)}")
                its = dict(r.get("items") or {})
                its[kt] = (TRUE, self.to_term(v))
                self.upd(o, items=its)
                return
            if o.kind in ("da", "nd", "series"):
                if self.is_name_key(kt) and o.kind == "da":
                    self.mutated(o, f"coordinate {T.pretty(kt, 2)}")
                    self.upd(o, term=mk("assign_coords", r["term"], ((kt, self.to_term(v)),)))
                    return
                self.mutate_data(o, "item assignment")
                self.upd(o, term=T.lift(lambda x: self.store(x, kt, self.to_term(v)), r["term"]))
                return
        if isinstance(o, Accessor):
            b = o.recv
            if o.name in ("coords", "variables"):
                self.setitem(b, k, v)
                return
            if isinstance(b, Obj):
                self.mutate_data(b, f".{o.name}[...] assignment")
                r = self.rec(b)
                if b.kind == "df":
                    self.upd(b, term=mk("store", self.df_term(b), o.name, kt, self.to_term(v)), items={})
                elif b.kind != "ds":
                    self.upd(b, term=mk("store", r["term"], mk("str", o.name), kt, self.to_term(v)))
                return
        if isinstance(o, Tensor):
            self.unknown("assignment to an array element")
            return
        self.unknown("item assignment")

    def store(self, x, k, v):
        # x[mask] = v is a selection
        if T.is_bool(k) and k.op != "bool":
            return T.where(k, v, x)
        return mk("store", x, NONE, k, v)

    def del_item(self, o, k):
        o = self.resolve(o)
        kt = self.to_term(k)
        if isinstance(o, Obj) and o.kind == "dict":
            self.mutated(o, f"del {T.pretty(kt, 2)}")
            self.dropped_meta(o, kt)
            r = self.rec(o)
            its = dict(r["items"])
            its.pop(kt, None)
            self.upd(o, items=its, removed=r.get("removed", EMPTY) | ({kt} if r["base"] is not None or r["each"] else EMPTY))
            return
        if isinstance(o, Obj):
            self.mutated(o, f"del {T.pretty(kt, 2)}")
            if o.kind == "ds":
                self.upd(o, base=mk("meth", "drop_vars", self.ds_term(o), (kt,), ()), items={})
            elif o.kind == "df":
                self.upd(o, term=mk("dropcols", self.df_term(o), mk("set", kt)), items={})

    # ------------------------------------------------------------ operators
    def kinds(self, *vs):
        ks = {v.kind for v in vs if isinstance(v, Obj)}
        for k in ("ds", "df", "da", "series", "nd"):
            if k in ks:
                return k
        return None

    def wrap(self, kind, term, *srcs):
        """Array result of an elementwise operation."""
        if kind is None:
            return term
        if kind == "ds":
            return self.new_ds(base=term)
        if kind == "df":
            return self.new_df(term)
        names = []
        for s in srcs:
            if isinstance(s, Obj) and s.kind in ("da", "series"):
                names.append(self.to_term(self.rec(s)["name"]))
        nm = names[0] if names and all(n is names[0] for n in names) else NONE
        attrs = None
        if self.keep_option is TRUE and kind == "da":
            first = [s for s in srcs if isinstance(s, Obj) and s.kind == "da"]
            attrs = self.copy_dict(self.rec(first[0])["attrs"]) if first else None
        return self.new_arr(kind, term, attrs, name=nm)

    ARITH = {
        "Add": T.add, "Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.power,
    }

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice):
            return self.fork_val(a.cond, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork_val(b.cond, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        self.not_none(a, b)
        if op == "MatMult" and all(isinstance(x, Tensor) or isinstance(x, Obj) and x.kind == "nd" for x in (a, b)):
            return self.np_dot(a, b)
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.tensor_binop(op, a, b)
        la = isinstance(a, Obj) and a.kind == "list"
        lb = isinstance(b, Obj) and b.kind == "list"
        if op == "Add":
            if la and lb:
                return self.new_list_elems(self.rec(a)["elems"] + self.rec(b)["elems"])
            if isinstance(a, TupleVal) and isinstance(b, TupleVal):
                return TupleVal(a.items + b.items)
            if la and isinstance(b, Term) or lb and isinstance(a, Term):
                o, x = (a, b) if la else (b, a)
                if x.op in ("str", "fmt") or x is NONE or x.op == "sym" and x.args[1:] == ("str",):
                    self.raise_if(TRUE, "TypeError", st("a list and something else"), self.node)
                    raise PathDead()
                if x.op in ("list", "aslist", "item", "ite", "sorted"):
                    es = self.elems_of(x)
                    return self.new_list_elems(list(self.rec(a)["elems"]) + es if la else es + list(self.rec(b)["elems"]))
        if la and lb and op in ("Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow"):
            self.raise_if(TRUE, "TypeError", st("not for lists"), self.node)
            raise PathDead()
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and x.kind == "list" and isinstance(y, Term):
                    if y.op == "num" and y.args[0].denominator == 1 and len(self.rec(x)["elems"]) * int(y.args[0]) <= 400:
                        return self.new_list_elems(self.rec(x)["elems"] * int(y.args[0]))
                    if y.op in ("len",):
                        return mk("repeat", self.to_term(x), y)
                    return mk("repeat", self.to_term(x), y)
                if isinstance(x, TupleVal) and isinstance(y, Term) and y.op == "num":
                    return TupleVal(x.items * int(y.args[0]))
        sa = isinstance(a, Obj) and a.kind == "set" or (isinstance(a, Term) and a.op in ("setof", "setdiff", "union", "inter", "set", "keys"))
        sb = isinstance(b, Obj) and b.kind == "set" or (isinstance(b, Term) and b.op in ("setof", "setdiff", "union", "inter", "set", "keys"))
        if (sa or sb) and op in ("Sub", "BitOr", "BitAnd", "BitXor"):
            x, y = self.to_set(a), self.to_set(b)
            if op == "Sub":
                return self.new_set(self.set_diff(x, y))
            if op == "BitOr":
                return self.new_set(self.set_union(x, y))
            if op == "BitAnd":
                return self.new_set(self.set_inter(x, y))
            return self.new_set(mk("symdiff", x, y))
        if op == "BitOr" and isinstance(a, Obj) and a.kind == "dict" and isinstance(b, Obj) and b.kind == "dict":
            d = self.copy_dict(a)
            self.dict_update(d, b)
            return d
        ta, tb = self.to_term(a), self.to_term(b)
        if op == "Mod" and ta.op in STRS:
            return self.percent_format(ta, b)
        kind = self.kinds(a, b)
        return self.wrap(kind, self.arith(op, ta, tb), a, b)

    def arith(self, op, ta, tb):
        if op in self.ARITH:
            return self.ARITH[op](ta, tb)
        if op == "FloorDiv":
            if ta.op == "num" and tb.op == "num" and tb.args[0]:
                return num(ta.args[0] // tb.args[0])
            return T.lift(lambda x, y: mk("floordiv", x, y), ta, tb)
        if op == "Mod":
            if ta.op == "num" and tb.op == "num" and tb.args[0]:
                return num(ta.args[0] % tb.args[0])
            return T.lift(lambda x, y: mk("mod", x, y), ta, tb)
        if op == "BitAnd":
            return and_(ta, tb)
        if op == "BitOr":
            return or_(ta, tb)
        if op == "BitXor":
            return ite(truth(ta), not_(tb), truth(tb))
        if op == "MatMult":
            return mk("npdot", ta, tb)
        return mk("binop", op, ta, tb)

    def invert(self, v):
        v = self.resolve(v)
        if isinstance(v, Obj) and v.kind in ("da", "nd", "series", "ds", "df"):
            return self.wrap(v.kind, not_(self.to_term(v)), v)
        t = self.to_term(v)
        return not_(t)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not_(r)
        if isinstance(a, Choice):
            return self.fork_val(a.cond, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork_val(b.cond, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if op in ("Eq", "NotEq"):
            if isinstance(a, (FuncVal, LibRef, ModuleVal)) or isinstance(b, (FuncVal, LibRef, ModuleVal)):
                r = self.is_same(a, b)
                return r if op == "Eq" else not_(r)
        sa = isinstance(a, Obj) and a.kind == "set"
        sb = isinstance(b, Obj) and b.kind == "set"
        if sa or sb:
            x, y = self.to_set(a), self.to_set(b)
            if op in ("LtE", "GtE"):
                if op == "GtE":
                    x, y = y, x
                return not_(T.nonempty(self.set_diff(x, y)))
            if op in ("Eq", "NotEq"):
                r = eq(x, y)
                return r if op == "Eq" else not_(r)
        ta, tb = self.to_term(a), self.to_term(b)
        kind = self.kinds(a, b)
        if (ta is NONE or tb is NONE) and op not in ("Eq", "NotEq"):
            if kind == "series":
                return self.wrap(kind, FALSE, a, b)  # pandas: missing compares false
            if ta is NONE and tb is NONE or not (ta.op in ("unknown", "call", "meth") or tb.op in ("unknown", "call", "meth")):
                self.raise_if(TRUE, "TypeError", st("comparison with None"), self.node)
                raise PathDead()
        fn = {
            "Eq": lambda: eq(ta, tb), "NotEq": lambda: not_(eq(ta, tb)), "Lt": lambda: lt(ta, tb),
            "LtE": lambda: le(ta, tb), "Gt": lambda: lt(tb, ta), "GtE": lambda: le(tb, ta),
        }[op]
        return self.wrap(kind, fn(), a, b)

    def is_same(self, a, b):
        if isinstance(a, Choice):
            return ite(a.cond, self.is_same(a.a, b), self.is_same(a.b, b))
        if isinstance(b, Choice):
            return ite(b.cond, self.is_same(a, b.a), self.is_same(a, b.b))
        if isinstance(a, Term) and isinstance(b, Term):
            for x, y in ((a, b), (b, a)):
                if y.op in ("none", "bool") and x.op == "sym" and self.symtypes.get(x) in ("num", "str", "int", "float", "bool"):
                    if y is NONE or self.symtypes.get(x) != "bool":
                        return FALSE
            return is_(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return TRUE if a.id == b.id else FALSE
        if a is b:
            return TRUE
        if isinstance(a, (FuncVal, LibRef, ModuleVal)) and type(a) is type(b):
            return TRUE if self.to_term(a) is self.to_term(b) else FALSE
        return FALSE

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, Choice):
            return ite(c.cond, self.contains(c.a, x), self.contains(c.b, x))
        xt = self.to_term(x)
        if isinstance(c, Obj):
            if c.kind == "dict":
                return self.dict_has(c, xt)
            if c.kind == "ds":
                return member(xt, self.ds_names(c, "variables"))
            if c.kind == "gb":
                return member(xt, mk("groupkeys", self.rec(c)["term"]))
            if c.kind == "df":
                return member(xt, mk("attr", self.df_term(c), "columns"))
        if isinstance(c, Accessor):
            return member(xt, self.acc_term(c))
        ct = self.to_term(c)
        if ct.op in ("fmt", "attr", "item") and xt.op == "str":
            return member(xt, ct)
        return member(xt, ct)

    # -------------------------------------------------------------- strings
    def is_str(self, t):
        if t.op in ("str", "fmt"):
            return True
        if t.op == "sym":
            return self.symtypes.get(t) == "str"
        if t.op == "meth":
            return t.args[0] in ("lower", "upper", "replace", "strip", "capitalize", "zfill", "title", "join")
        return False

    def str_of(self, v):
        t = self.to_term(v)
        if t.op == "exc":
            return self.str_of(t.args[1])

        def f(x):
            if self.is_str(x):
                return x
            if x.op in ("num", "bool", "none"):
                return st(str(T.pyval(x)))
            return x

        return T.lift(f, t)

    def str_value(self, v):
        """str(v)"""
        t = self.str_of(v)
        return T.lift(lambda x: x if self.is_str(x) else fmt([x]), t)

    def format_spec(self, t, spec):
        if spec.op == "str" and t.op in ("num", "str"):
            try:
                return st(format(T.pyval(t), spec.args[0]))
            except (ValueError, TypeError):
                pass
        # f"{x:04d}" and str(x).zfill(4) print years alike
        if spec.op == "str" and spec.args[0] in ("04d", "04", "0>4"):
            return mk("meth", "zfill", fmt([t]) if not self.is_str(t) else t, (num(4),), ())
        return mk("format", t, spec)

    def percent_format(self, f, arg):
        args = list(arg.items) if isinstance(arg, TupleVal) else [arg]
        if f.op != "str":
            return mk("percent", f, self.to_term(arg))
        out, s, i = [], f.args[0], 0
        import re

        pos = 0
        for mt in re.finditer(r"%(%|[-+ 0-9.]*[sdrfeg])", s):
            out.append(st(s[pos : mt.start()]))
            pos = mt.end()
            if mt.group(1) == "%":
                out.append(st("%"))
                continue
            if i >= len(args):
                return mk("percent", f, self.to_term(arg))
            if mt.group(1) in ("s", "d"):
                out.append(self.str_of(args[i]))
            else:
                out.append(mk("format", self.to_term(args[i]), st(mt.group(1))))
            i += 1
        out.append(st(s[pos:]))
        return fmt(out)


def truth_of_dup(t):
    return mk("dupcols", t)
