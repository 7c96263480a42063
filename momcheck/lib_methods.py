"""Methods of the containers and arrays, as the analysis models them."""
from . import terms as T
from . import ops
from .ops import ALL
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num, truth, eq, lt, le, member, subst, subterms, fmt,
)
from .values import PathDead, Obj, TupleVal, FuncVal, BoundMethod, LibRef, Accessor, Choice, Tensor, Partial, one
from .lib_core import EMPTY, API, KIND_API
from .lib_builtin import F
from .lib_numpy import clip_term, cumsum_term

REDUCE = {"sum", "mean", "min", "max", "std", "var", "median", "prod", "count", "first", "last", "argmin", "argmax", "idxmin", "idxmax", "quantile"}
PURE_STR = {
    "lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "swapcase", "replace", "split", "rsplit",
    "startswith", "endswith", "find", "count", "zfill", "isdigit", "partition", "rpartition", "removesuffix", "removeprefix", "index", "isalpha", "islower", "isupper", "ljust", "rjust", "splitlines",
}


class MethodMixin:
    dim_names = frozenset()

    def dims_arg(self, v):
        if v is None or v is NONE or v is T.ELLIPSIS:
            return ALL
        v = self.resolve(v)
        t = self.to_term(v)
        if isinstance(v, Term) and v.op not in ("tuple", "list", "set", "setdiff", "setof", "union", "inter", "aslist", "sorted", "ite") and not (v.op == "attr"):
            return mk("set", v)
        if isinstance(v, Term) and v.op == "ite":
            return T.lift(lambda x: self.dims_arg(x), v)
        return self.set_normal(self.to_set(v))

    def set_normal(self, s):
        """{d for d in S if d != k} is S - {k}"""
        if s.op == "set" and any(e.op == "each" for e in s.args):
            # the parts of one set, taken together
            parts, rest = {}, []
            for e in s.args:
                if e.op == "each":
                    k = (e.args[0], e.args[1], e.args[3])
                    parts[k] = or_(parts.get(k, FALSE), e.args[2])
                else:
                    rest.append(e)
            s = mk("set", *rest, *[mk("each", k[0], k[1], c, k[2]) for k, c in parts.items() if c is not FALSE])
        if s.op == "set" and len(s.args) == 1 and s.args[0].op == "each":
            S, h, c, v = s.args[0].args
            b = mk("bound", h)
            free = [a for a in T.atoms_of(c) if not T.contains(a, lambda x: x is b)]
            if v is b and free:
                g = free[0]
                p, q = (self.set_normal(mk("set", mk("each", S, h, T.restrict(c, g, z), v))) for z in (True, False))
                if p is q:
                    return p
                if g.op == "in" and p.op == "setdiff" and p.args[1] is mk("set", g.args[0]) and q is p.args[0]:
                    return p  # nothing to take away
                return T.ite(g, p, q)
        if s.op == "set" and len(s.args) == 1 and s.args[0].op == "each":
            S, h, c, v = s.args[0].args
            b = mk("bound", h)
            if v is b:
                ks = []
                cur = c
                ok = True
                while cur is not TRUE:
                    if cur.op == "ite" and cur.args[1] is FALSE and cur.args[0].op == "eq" and b in cur.args[0].args:
                        a = cur.args[0].args
                        ks.append(a[0] if a[1] is b else a[1])
                        cur = cur.args[2]
                    elif cur.op == "ite" and cur.args[1] is FALSE and cur.args[0].op == "in" and cur.args[0].args[0] is b:
                        ks.append(None)
                        ok = False
                        break
                    else:
                        ok = False
                        break
                if ok:
                    base = S if S.op in ("setof", "setdiff", "union", "inter", "set") else mk("setof", S)
                    return self.set_diff(base, mk("set", *sorted(ks, key=lambda t: t.id)))
        return s

    def call_method(self, o, name, args, kw):
        o = self.resolve(o)
        args = [self.resolve(a) for a in args]
        if isinstance(o, Choice):
            return self.fork_val(o.cond, lambda: self.call_method(o.a, name, args, kw), lambda: self.call_method(o.b, name, args, kw))
        if isinstance(o, Obj):
            k = o.kind
            if k in ("da", "nd"):
                return self.arr_method(o, name, args, kw)
            if k == "ds":
                return self.ds_method(o, name, args, kw)
            if k == "df":
                return self.df_method(o, name, args, kw)
            if k == "series":
                return self.series_method(o, name, args, kw)
            if k == "dict":
                return self.dict_method(o, name, args, kw)
            if k == "list":
                return self.list_method(o, name, args, kw)
            if k == "set":
                return self.set_method(o, name, args, kw)
            if k == "gb":
                return self.gb_method(o, name, args, kw)
            if k == "wt":
                return self.wt_method(o, name, args, kw)
            if k == "lib":
                return self.libobj_method(o, name, args, kw)
            return self.generic_method(o, name, args, kw)
        if isinstance(o, Tensor):
            return self.tensor_method(o, name, args, kw)
        if isinstance(o, TupleVal):
            if name == "index":
                return self.list_method(self.new_list(o.items), name, args, kw)
            if name == "count":
                return self.generic_method(o, name, args, kw)
        if isinstance(o, Accessor):
            return self.acc_method(o, name, args, kw)
        if isinstance(o, Term):
            return self.term_method(o, name, args, kw)
        return self.generic_method(o, name, args, kw)

    def generic_method(self, o, name, args, kw):
        for a in args:
            self.escape(a)
        t = mk("meth", name, self.to_term(o), tuple(self.to_term(a) for a in args), self.kw_terms(kw))
        if isinstance(o, Obj):
            if o.kind in ("da", "nd", "series"):
                r = self.arr_like(o, t, keep=True)
                return r
            if o.kind == "ds":
                return self.new_ds(base=t)
            if o.kind == "df":
                ip = kw.get("inplace")
                if ip is not None and ip is not FALSE:
                    self.mutated(o, f"{name}(inplace=True)")
                    self.upd(o, term=t, items={})
                    return NONE
                return self.new_df(t)
        return t

    # --------------------------------------------------------- da and nd
    def indexers(self, args, kw, skip=("drop", "missing_dims", "method", "tolerance")):
        its = {}
        if args and args[0] is not NONE:
            d = args[0]
            if isinstance(d, Obj) and d.kind == "dict" and self.rec(d)["base"] is None and not self.rec(d)["each"]:
                for k, (g, v) in self.rec(d)["items"].items():
                    its[k] = self.to_term(v)
            else:
                its[mk("**",)] = self.to_term(d)
        for k, v in kw.items():
            if k in skip:
                continue
            if k == "indexers":
                its.update({a: b for a, b in self.indexers([v], {})})
            elif k == "**sym":
                for kk, vv in v:
                    its[kk] = self.to_term(vv)
            elif k == "**":
                its[mk("**",)] = v
            else:
                its[st(k)] = self.to_term(v)
        return tuple(sorted(its.items(), key=lambda x: x[0].id))

    def isel_term(self, op, t, idx, rest=()):
        def f(x):
            full = mk("slice", NONE, NONE, NONE)
            ix = tuple((k, v) for k, v in idx if v is not full)
            if not ix and not rest:
                return x
            if x.op == op and x.args[2] == () and rest == () and op == "isel":
                old = dict(x.args[1])
                if not any(k in old for k, _ in ix):
                    old.update(ix)
                    return ops.linear_op(op, x.args[0], tuple(sorted(old.items(), key=lambda p: p[0].id)), ())
            return ops.linear_op(op, x, ix, rest)

        return T.lift(f, t)

    def arr_method(self, o, name, args, kw):
        r = self.rec(o)
        t = r["term"]
        L = T.lift
        isda = o.kind == "da"

        def like(term, **k):
            k.setdefault("keep", True)
            return self.arr_like(o, term, **k)

        if name in ("isel", "sel") and isda:
            idx = self.indexers(args, kw)
            rest = tuple((k, self.to_term(v)) for k, v in sorted(kw.items()) if k in ("method", "tolerance") and self.to_term(v) is not NONE)
            x = self.isel_term(name, t, idx, rest)
            d = kw.get("drop")
            if d is not None and self.to_term(d) is TRUE:
                x = L(lambda y: mk("dropvars", y, mk("set", *[k for k, _ in idx])), x)
            return like(x, view=True)
        if name in REDUCE and not (name in ("argmin", "argmax", "idxmin", "idxmax", "quantile", "first", "last")):
            return self.arr_reduce(o, name, args, kw)
        if name in ("all", "any"):
            d = self.arg(args, kw, 0, "dim")
            dims = [] if d is None or d is NONE else [self.dims_arg(d)]
            ax = kw.get("axis")
            if ax is not None:
                dims = [mk("axis", self.to_term(ax))]
            return self.bool_reduce(o, name == "all", dims)
        if name in ("isnull", "isna"):
            return self.wrap(o.kind, ops.isnull(t), o)
        if name in ("notnull", "notna"):
            return self.wrap(o.kind, not_(ops.isnull(t)), o)
        if name == "where" and isda:
            c = self.resolve(args[0] if args else kw["cond"])
            if isinstance(c, (FuncVal, Partial)):
                c = self.call(c, [o], {})
            other = self.arg(args, kw, 1, "other", NAN)
            ot = self.to_term(other)
            x = L(lambda a, b, z: T.where(T.elem_truth(a), b, z), self.to_term(c), t, ot)
            d = kw.get("drop")
            if d is not None and d is not FALSE:
                x = mk("dropped", x)
            return like(x)
        if name == "fillna":
            return like(L(lambda a, b: ops.fillna(a, b), t, self.to_term(args[0] if args else kw["value"])))
        if name == "clip":
            return like(clip_term(t, self.targ(args, kw, 0, "min"), self.targ(args, kw, 1, "max")))
        if name == "round":
            d = self.targ(args, kw, 0, "decimals", ZERO)
            return like(L(lambda x: mk("round", x, d), t))
        if name == "astype":
            return self.astype(o, self.to_term(args[0] if args else kw["dtype"]))
        if name in ("copy", "__copy__", "__deepcopy__"):
            deep = self.targ(args, kw, 0, "deep", TRUE)
            data = self.arg(args, kw, 1, "data")
            x = self.new_arr(o.kind, t if data is None or data is NONE else self.to_term(data), self.copy_dict(r["attrs"]), r["name"], EMPTY, EMPTY if deep is TRUE else r["borigin"], self.copy_dict(r["enc"]))
            return x
        if name in ("compute", "load", "persist"):
            self.log("force", (name, t))
            if name == "load":
                if r["origin"]:
                    self.log("mutate", (tuple(sorted(r["origin"])), "load"))
                return o
            return like(t)
        if name == "item" or name in ("tolist",):
            self.log("force", (name, t))
            if name == "tolist":
                return self.new_list_elems(self.elems_of(o))
            return t if not args else self.norm_index(t, self.to_term(args[0]))
        if name in ("to_numpy", "__array__", "to_masked_array", "as_numpy"):
            if isda:
                self.log("force", (name, t))
            return self.new_arr("nd", t, borigin=r["borigin"])
        if name == "transpose":
            if not isda:
                return self.new_arr("nd", mk("transpose", t, tuple(self.to_term(a) for a in args)))
            return like(L(lambda x: mk("transpose", x, tuple(self.to_term(a) for a in args)), t), view=True)
        if name == "squeeze":
            a = tuple(self.to_term(x) for x in args)
            x = L(lambda y: mk("squeeze", y, a, self.kw_terms({k: v for k, v in kw.items() if k != "drop"})), t)
            if kw.get("drop") is TRUE:
                x = L(lambda y: mk("resetcoords", y, ALL), x)
            return like(x, view=True)
        if name == "reset_coords" and isda:
            names = self.targ(args, kw, 0, "names")
            if kw.get("drop") is TRUE or (len(args) > 1 and args[1] is TRUE):
                x = L(lambda y: mk("resetcoords", y, ALL if names is NONE else mk("set", names)), t)
                return self.new_arr("da", x, r["attrs"], r["name"], r["origin"], r["borigin"], r["enc"])
            return self.new_ds(base=mk("meth", name, t, tuple(self.to_term(a) for a in args), self.kw_terms(kw)))
        if name in ("drop_vars", "drop"):
            names = self.to_set(args[0] if args else kw.get("names", self.new_list([]))) if not (args and isinstance(args[0], Term)) else mk("set", args[0])
            return self.new_arr("da", L(lambda y: mk("dropvars", y, names), t), r["attrs"], r["name"], r["origin"], r["borigin"], r["enc"])
        if name == "rename" and isda:
            a = self.arg(args, kw, 0, "new_name_or_name_dict")
            a = self.resolve(a) if a is not None else None
            names = {k: v for k, v in kw.items() if k != "new_name_or_name_dict"}
            if isinstance(a, Obj) and a.kind == "dict" or names:
                m = self.new_dict({})
                if a is not None and a is not NONE:
                    self.dict_update(m, a)
                for k, v in names.items():
                    if k == "**sym":
                        for kk, vv in v:
                            self.setitem(m, kk, vv)
                    elif k != "**":
                        self.setitem(m, st(k), v)
                mt = self.dict_term(m)
                return like(L(lambda y: mk("rename", y, mt), t), view=True)
            return self.new_arr("da", t, r["attrs"], a if a is not None else NONE, r["origin"], r["borigin"], r["enc"])
        if name in ("broadcast_like",):
            other = self.to_term(args[0])
            return like(L(lambda y: mk("broadcast", y, (other,)), t), view=True)
        if name == "expand_dims":
            a = tuple(self.to_term(x) for x in args) + tuple(self.to_term(v) for k, v in sorted(kw.items()) if k == "dim")
            b = self.kw_terms({k: v for k, v in kw.items() if k not in ("dim",)})
            return like(L(lambda y: mk("expand_dims", y, a, b), t), view=True)
        if name in ("chunk", "unify_chunks", "rechunk"):
            c = self.indexers(args[:1] if args and isinstance(args[0], Obj) else [], kw, skip=())
            if args and not isinstance(args[0], Obj):
                c = ((st("*"), self.to_term(args[0])),)
            return like(L(lambda y: mk("chunk", y, c), t), view=True)
        if name == "assign_coords":
            its = self.indexers(args, kw, skip=())
            return like(L(lambda y: mk("assign_coords", y, its), t), view=True)
        if name == "assign_attrs":
            n = like(t, view=True)
            d = self.rec(n)["attrs"]
            for a in args:
                self.dict_update(d, a)
            for k, v in kw.items():
                self.setitem(d, st(k), v)
            return n
        if name == "differentiate":
            coord = self.targ(args, kw, 0, "coord")
            eo = self.targ(args, kw, 1, "edge_order", ONE)
            rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("coord", "edge_order")})
            return like(L(lambda y: ops.linear_op("differentiate", y, coord, eo, rest), t))
        if name in ("ffill", "bfill"):
            d = self.targ(args, kw, 0, "dim")
            lim = self.targ(args, kw, 1, "limit")
            return like(L(lambda y: mk(name, y, d, lim), t))
        if name == "groupby" and isda:
            return self.groupby(o, "da", t, args, kw)
        if name == "weighted":
            w = self.to_term(args[0] if args else kw["weights"])
            return self.new("wt", term=mk("weighted", t, w), of="da", attrs=r["attrs"], name=r["name"], origin=EMPTY)
        if name == "polyfit":
            dim = self.targ(args, kw, 0, "dim")
            deg = self.targ(args, kw, 1, "deg")
            rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("dim", "deg")})
            rest = tuple((k, v) for k, v in rest if v is not NONE and not (k == "skipna" and v is TRUE and False))
            return self.new_ds(base=mk("polyfit", t, dim, deg, rest))
        if name == "dot":
            other = self.to_term(args[0])
            if not isda:
                return self.np_dot(o, args[0])
            d = self.dims_arg(kw.get("dims", kw.get("dim", args[1] if len(args) > 1 else None)))
            return self.new_arr("da", mk("xrdot", tuple(sorted((t, other), key=lambda q: q.id)), d))
        if name == "cumsum":
            d = self.arg(args, kw, 0, "dim")
            return like(L(lambda y: cumsum_term(y, NONE if d is None else self.to_term(d)), t))
        if name == "diff" and isda:
            d = self.targ(args, kw, 0, "dim")
            rest = self.kw_terms({k: v for k, v in kw.items() if k != "dim"})
            return like(L(lambda y: ops.linear_op("diff", y, d, rest), t))
        if name == "shift":
            return like(L(lambda y: mk("shift", y, self.indexers(args, kw, skip=("fill_value",)), self.targ([], kw, None, "fill_value")), t))
        if name == "pipe":
            return self.call(args[0], [o] + args[1:], kw)
        if name == "to_dataset":
            nm = self.targ([], kw, None, "name", self.to_term(r["name"]))
            d = self.new_ds()
            self.ds_set(d, nm, o)
            return d
        if name == "to_dataframe":
            self.log("force", (name, t))
            nm = self.targ(args, kw, 0, "name", self.to_term(r["name"]))
            return self.new_df(mk("to_dataframe", t, nm))
        if name in ("flatten", "ravel") and not isda:
            return self.new_arr("nd", L(lambda y: mk("flatten", y), t))
        if name == "reshape" and not isda:
            return self.reshape(o, t, args)
        if name in ("map_overlap", "map_blocks") :
            return self.map_blocks(o, t, name, args, kw)
        if name == "get_axis_num":
            return mk("axis_num", t, self.to_term(args[0]))
        if name in ("sortby",):
            return like(L(lambda y: mk("sortby", y, tuple(self.to_term(a) for a in args), self.kw_terms(kw)), t))
        if name == "swapaxes":
            return self.np_swapaxes(o, args)
        if name in ("equals", "identical", "broadcast_equals"):
            self.log("force", (name, t))
            return mk("truth", mk("meth", name, t, tuple(self.to_term(a) for a in args), ()))
        if name == "get_index":
            return mk("index", t, self.to_term(args[0]))
        if name in ("keys", "items") and False:
            return NONE
        if name in ("fill", "sort", "put", "itemset", "resize", "setfield") and o.kind == "nd":
            self.mutate_data(o, name)
            self.upd(o, term=mk("meth", name, t, tuple(self.to_term(a) for a in args), ()))
            return NONE
        return self.generic_method(o, name, args, kw)

    def arr_reduce(self, o, name, args, kw):
        r = self.rec(o)
        t = r["term"]
        extras = []
        if o.kind == "da":
            d = self.arg(args, kw, 0, "dim")
            dims = self.dims_arg(d)
            ax = kw.get("axis")
            if ax is not None and self.to_term(ax) is not NONE:
                dims = mk("axis", self.to_term(ax))
        else:
            ax = self.axis_arg(args, kw, 0)
            dims = ALL if ax is NONE else mk("axis", ax)
        for k in ("skipna", "min_count", "ddof"):
            if k in kw:
                v = self.to_term(kw[k])
                if v is NONE or (k == "skipna" and v is TRUE) or (k == "ddof" and v is ZERO):
                    continue
                extras.append((k, v))
        x = T.lift(lambda y, d: ops.reduce(name, y, ALL if ops.every_dim(y, d) else d, tuple(extras)), t, dims)
        ka = kw.get("keep_attrs")
        keep = ka is not None and self.to_term(ka) is TRUE or ka is None and self.keep_option is TRUE
        if o.kind == "da":
            return self.arr_like(o, x, keep=keep)
        return self.new_arr("nd", x) if dims is not ALL else x

    def reshape(self, o, t, args):
        shape = args[0] if len(args) == 1 else TupleVal(args)
        s = self.to_term(shape)
        if s is num(-1) or s is mk("tuple", num(-1)):
            return self.new_arr("nd", T.lift(lambda y: mk("flatten", y), t))
        if s.op == "attr" and s.args[1] == "shape":
            flats = [x for x in subterms(t) if x.op == "flatten"]
            if flats and any(x.args[0] is s.args[0] for x in flats):
                return self.new_arr("nd", subst(t, {x: x.args[0] for x in flats}))
        return self.new_arr("nd", mk("reshape", t, s))

    def map_blocks(self, o, t, name, args, kw):
        kw = dict(kw)
        f = args[0] if args else kw.pop("func")
        rest = list(args[1:])
        meta = {}
        for k in ("depth", "boundary", "dtype", "chunks", "meta", "trim", "name", "token", "drop_axis", "new_axis", "align_arrays", "allow_rechunk", "enforce_ndim", "template"):
            if k in kw:
                meta[k] = kw.pop(k)
        if o.kind == "da" and "kwargs" in kw:
            d = self.resolve(kw.pop("kwargs"))
            if isinstance(d, Obj) and d.kind == "dict":
                for k, (g, v) in self.rec(d)["items"].items():
                    kw[k.args[0]] = v
        blk = self.new_arr(o.kind, t)
        self.log("mapblocks", (name, t, self.kw_terms({k: v for k, v in meta.items() if k in ("depth", "boundary", "chunks", "drop_axis", "new_axis", "template")})))
        r = self.call(f, [blk] + rest, kw)
        return self.new_arr(o.kind, self.to_term(r))

    # -------------------------------------------------------------- groupby
    def groupby(self, o, of, t, args, kw):
        g = self.resolve(args[0] if args else kw.get("group"))
        gt = self.to_term(g)
        key = None
        if gt.op == "str" and "." in gt.args[0]:
            a, _, b = gt.args[0].rpartition(".")
            key = mk("gkey", st(a), b)
        elif gt.op == "fmt" and gt.args[-1].op == "str" and gt.args[-1].args[0].startswith("."):
            nm = T.fmt(list(gt.args[:-1]))
            key = mk("gkey", nm, gt.args[-1].args[0][1:])
        elif gt.op == "dt" and gt.args[0].op == "item" and self.is_name_key(gt.args[0].args[1]):
            key = mk("gkey", gt.args[0].args[1], gt.args[1])
        else:
            key = mk("gkey", gt)
        if key.args[0].op == "fmt" and len(key.args[0].args) == 1:
            key = mk("gkey", *((key.args[0].args[0],) + key.args[1:]))
        rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("group", "squeeze", "restore_coord_dims")})
        r = self.rec(o)
        return self.new("gb", term=mk("groupby", t, key) if not rest else mk("groupby", t, key, rest), of=of, attrs=r["attrs"], name=r.get("name", NONE), origin=EMPTY, src=o)

    def gb_method(self, o, name, args, kw):
        r = self.rec(o)
        t = r["term"]
        if name in ("keys",):
            return mk("groupkeys", t)
        if name == "items":
            return self.new("gb", **{**r, "asdict": False}) if r.get("asdict") else o
        if name == "values":
            from .interp import fresh_bv

            bv = fresh_bv()
            return self.new_list_elems([("each", mk("groupkeys", t), bv, TRUE, self.group_sel(o, bv))])
        if name in REDUCE:
            d = self.arg(args, kw, 0, "dim")
            dims = self.dims_arg(d)
            rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("dim", "keep_attrs")})
            rest = tuple((k, v) for k, v in rest if not (k == "skipna" and v is TRUE))
            x = mk("greduce", name, t, dims, rest)
            if r["of"] == "ds":
                return self.new_ds(base=x)
            return self.new_arr("da", x, name=r.get("name", NONE))
        if name in ("map", "apply"):
            from .interp import fresh_bv, close

            bv = fresh_bv()
            g = self.group_sel(o, bv)
            v = self.call(args[0], [g] + list(args[1:]), kw)
            h, f = close(bv, self.to_term(v))
            x = mk("gmap", t, h, f)
            return self.new_ds(base=x) if r["of"] == "ds" else self.new_arr("da", x)
        x = mk("meth", name, t, tuple(self.to_term(a) for a in args), self.kw_terms(kw))
        return self.new_ds(base=x) if r["of"] == "ds" else self.new_arr("da", x)

    def wt_method(self, o, name, args, kw):
        r = self.rec(o)
        x, w = r["term"].args
        if name in ("mean", "sum", "std", "var"):
            dims = self.dims_arg(self.arg(args, kw, 0, "dim"))
            rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("dim", "keep_attrs")})
            rest = tuple((k, v) for k, v in rest if not (k == "skipna" and v is TRUE))
            t = mk("wreduce", name, x, w, dims, rest)
            return self.new_ds(base=t) if r["of"] == "ds" else self.new_arr("da", t, name=r.get("name", NONE))
        return self.generic_method(r["term"], name, args, kw)

    # ------------------------------------------------------------ datasets
    DS_MAP = {"isel", "sel", "transpose", "astype", "chunk", "where", "fillna", "squeeze", "load_", "sum", "mean", "max", "min", "std", "median", "round", "clip"}

    def ds_method(self, o, name, args, kw):
        r = self.rec(o)
        t = self.ds_term(o)
        if name in ("compute", "load", "persist"):
            self.log("force", (name, t))
            return o if name == "load" else self.copy_ds(o)
        if name == "rename":
            a = self.arg(args, kw, 0, "name_dict")
            a = self.resolve(a) if a is not None else NONE
            names = {k: v for k, v in kw.items() if k not in ("name_dict",)}
            if isinstance(a, Choice):
                return self.fork_val(a.cond, lambda: self.ds_method(o, name, [a.a], kw), lambda: self.ds_method(o, name, [a.b], kw))
            m = self.new_dict({})
            if a is not NONE:
                self.dict_update(m, a)
            for k, v in names.items():
                if k == "**":
                    self.dict_update(m, v)
                elif k == "**sym":
                    for kk, vv in v:
                        self.setitem(m, kk, vv)
                else:
                    self.setitem(m, st(k), v)
            mt = self.dict_term(m)
            if mt.op == "dict" and mt.args[0] is NONE and not mt.args[1] and not mt.args[2]:
                return self.copy_ds(o)
            return self.new_ds(base=mk("rename", t, mt), attrs=self.copy_dict(r["attrs"]))
        if name == "copy":
            deep = self.targ(args, kw, 0, "deep", FALSE)
            return self.copy_ds(o, deep=deep is TRUE)
        if name == "assign":
            n = self.copy_ds(o)
            for a in args:
                a = self.resolve(a)
                if isinstance(a, Obj) and a.kind == "dict":
                    for k, (g, v) in self.rec(a)["items"].items():
                        self.ds_set(n, k, v)
                else:
                    self.upd(n, base=self.unknown("Dataset.assign"))
            for k, v in kw.items():
                if isinstance(v, (FuncVal, Partial)):
                    v = self.call(v, [n], {})
                self.ds_set(n, st(k), v)
            return n
        if name == "assign_attrs":
            n = self.copy_ds(o)
            for a in args:
                self.dict_update(self.rec(n)["attrs"], a)
            for k, v in kw.items():
                self.setitem(self.rec(n)["attrs"], st(k), v)
            return n
        if name in ("drop_vars", "drop"):
            names = mk("set", args[0]) if args and isinstance(args[0], Term) and args[0].op in ("str", "sym", "fmt") else self.to_set(args[0] if args else self.new_list([]))
            if r["base"] is None and not r["each"] and names.op == "set" and all(T.is_const(x) for x in names.args):
                n = self.copy_ds(o)
                its = {k: v for k, v in self.rec(n)["items"].items() if k not in names.args}
                self.upd(n, items=its)
                return n
            return self.new_ds(base=ops.drop_from_dataset(t, names), attrs=r["attrs"], origin=r["origin"])
        if name in ("keys", "__iter__"):
            return Accessor(o, "data_vars")
        if name in ("items",):
            return self.acc_method(Accessor(o, "data_vars"), "items", args, kw)
        if name in ("values",):
            return self.acc_method(Accessor(o, "data_vars"), "values", args, kw)
        if name == "get":
            k = self.to_term(args[0])
            return self.fork_val(member(k, self.ds_names(o, "variables")), lambda: self.ds_get(o, k), lambda: args[1] if len(args) > 1 else NONE)
        if name == "groupby":
            return self.groupby(o, "ds", t, args, kw)
        if name == "weighted":
            w = self.to_term(args[0] if args else kw["weights"])
            return self.new("wt", term=mk("weighted", t, w), of="ds", attrs=r["attrs"], name=NONE, origin=EMPTY)
        if name == "map":
            f = args[0]
            if r["base"] is None and not r["each"]:
                n = self.new_ds()
                for k, (g, v) in r["items"].items():
                    self.ds_set(n, k, self.call(f, [v] + list(args[1:]), {a: b for a, b in kw.items() if a not in ("keep_attrs", "args")}))
                return n
            from .interp import fresh_bv

            bv = fresh_bv()
            S = self.ds_names(o, "data_vars")
            x = self.ds_get(o, bv)
            v = self.call(f, [x] + list(args[1:]), {a: b for a, b in kw.items() if a not in ("keep_attrs", "args")})
            n = self.new_ds()
            self.upd(n, each=((S, bv, TRUE, bv, v),))
            return n
        if name == "pipe":
            return self.call(args[0], [o] + args[1:], kw)
        if name in ("update", "load_store_") :
            self.mutated(o, name)
            d = self.resolve(args[0])
            if isinstance(d, Obj) and d.kind == "dict":
                for k, (g, v) in self.rec(d)["items"].items():
                    self.ds_set(o, k, v)
            return o
        if name == "close":
            return NONE
        if name in ("isel", "sel", "squeeze", "transpose", "astype", "chunk", "where", "fillna", "reset_coords", "assign_coords", "sum", "mean", "min", "max", "std", "median", "any", "all", "isnull", "notnull", "map_blocks", "broadcast_like", "expand_dims", "set_coords", "round", "clip", "ffill", "sortby", "differentiate"):
            if r["base"] is None and not r["each"] and r["items"] and name not in ("assign_coords", "set_coords", "reset_coords", "map_blocks"):
                n = self.new_ds(attrs=self.copy_dict(r["attrs"]))
                for k, (g, v) in r["items"].items():
                    v2 = self.call_method(v, name, args, kw)
                    self.branch(g, lambda k=k, v2=v2: self.ds_set(n, k, v2), lambda: None)
                return n
            # the operation on an array with the dataset's node
            tmp = self.new_arr("da", t, self.copy_dict(r["attrs"]))
            x = self.arr_method(tmp, name, args, kw)
            return self.new_ds(base=self.to_term(x), attrs=self.copy_dict(r["attrs"]))
        return self.generic_method(o, name, args, kw)

    def acc_method(self, a, name, args, kw):
        o = a.recv
        if a.name in ("coords", "variables", "data_vars", "dims", "sizes", "indexes"):
            if name in ("keys", "__iter__"):
                return a
            if name in ("items", "values") and a.name in ("coords", "variables", "data_vars"):
                segs = []
                for e in self.elems_of(a):
                    k = e[2] if e[0] == "one" else e[4]
                    v = self.getitem(o, k)
                    val = TupleVal([k, v]) if name == "items" else v
                    segs.append(("one", e[1], val) if e[0] == "one" else ("each", e[1], e[2], e[3], val))
                return self.new_list_elems(segs)
            if name == "get" and a.name in ("coords", "variables", "data_vars"):
                k = self.to_term(args[0])
                return self.fork_val(member(k, self.acc_term(a)), lambda: self.getitem(o, k), lambda: args[1] if len(args) > 1 else NONE)
            if name in ("union", "difference", "intersection"):
                return self.set_method(self.new_set(self.to_set(a)), name, args, kw)
            if name == "get":
                return self.generic_method(self.acc_term(a), name, args, kw)
            if name == "to_dataset":
                return self.new_ds(base=mk("attr", self.to_term(o), a.name))
        if a.name == "str" and isinstance(o, Obj):
            return self.arr_like(o, T.lift(lambda x: mk("meth", "str." + name, x, tuple(self.to_term(b) for b in args), self.kw_terms(kw)), self.to_term(o)))
        if a.name == "dt" and isinstance(o, Obj):
            return self.arr_like(o, mk("meth", "dt." + name, self.to_term(o), tuple(self.to_term(b) for b in args), self.kw_terms(kw)))
        return self.generic_method(self.acc_term(a), name, args, kw)

    # ------------------------------------------------------------- tables
    def df_method(self, o, name, args, kw):
        r = self.rec(o)
        t = self.df_term(o)
        ip = kw.get("inplace")
        inplace = ip is not None and self.to_term(ip) is not FALSE

        def result(term):
            if inplace:
                self.mutated(o, f"{name}(inplace=True)")
                self.upd(o, term=term, items={})
                return NONE
            return self.new_df(term)

        if name == "copy":
            n = self.new_df(r["term"])
            self.upd(n, items=dict(r.get("items") or {}))
            return n
        if name == "rename":
            c = kw.get("columns")
            if c is not None:
                return result(mk("renamecols", t, self.to_term(c)))
        if name == "drop":
            cols = kw.get("columns")
            ax = self.targ(args, kw, 1, "axis")
            if cols is None and ax in (ONE, st("columns")):
                cols = self.arg(args, kw, 0, "labels")
            if cols is not None:
                s = mk("set", cols) if isinstance(cols, Term) and cols.op in ("str", "sym") else self.to_set(cols)
                return result(mk("dropcols", t, s))
        if name == "assign":
            n = self.df_method(o, "copy", [], {})
            for k, v in kw.items():
                if isinstance(v, (FuncVal, Partial)):
                    v = self.call(v, [n], {})
                if k == "**sym":
                    for kk, vv in v:
                        self.setitem(n, kk, vv)
                else:
                    self.setitem(n, st(k), v)
            return n
        if name == "iterrows":
            return mk("iterrows", t)
        if name == "itertuples":
            return mk("itertuples", t)
        if name == "to_numpy":
            return self.new_arr("nd", t)
        if name in ("pop",):
            self.mutated(o, "pop")
            c = self.df_getitem(o, args[0], self.to_term(args[0]))
            self.upd(o, term=mk("dropcols", t, mk("set", self.to_term(args[0]))), items={})
            return c
        if name in ("insert",):
            self.mutated(o, "insert")
            its = dict(r.get("items") or {})
            its[self.to_term(args[1])] = (TRUE, self.to_term(args[2]))
            self.upd(o, items=its)
            return NONE
        if name == "pipe":
            return self.call(args[0], [o] + args[1:], kw)
        if name in ("keys",):
            return mk("attr", t, "columns")
        if name in ("drop_duplicates", "dropna", "head", "tail", "sample", "nlargest", "nsmallest", "query"):
            # some of the rows
            return result(mk("filter", t, mk("rowsof", name, t, tuple(self.to_term(x) for x in args), self.kw_terms({k: v for k, v in kw.items() if k != "inplace"}))))
        if name in ("sort_values", "sort_index"):
            return result(mk("iloc", t, mk("rowsof", name, t, tuple(self.to_term(x) for x in args), self.kw_terms({k: v for k, v in kw.items() if k != "inplace"}))))
        return self.generic_method(o, name, args, kw)

    def series_method(self, o, name, args, kw):
        t = self.to_term(o)
        if name in ("to_numpy",):
            return self.new_arr("nd", t)
        if name in ("tolist", "to_list"):
            return self.new_list_elems(self.elems_of(self.new_arr("nd", t)))
        if name == "get":
            return mk("item", t, self.to_term(args[0]))
        if name in ("keys",):
            return mk("attr", t, "index")
        if name == "items":
            return mk("meth", "items", t, (), ())
        if name == "to_dict":
            return self.new_dict(base=mk("asdict", t))
        if name in ("le", "lt", "gt", "ge", "eq", "ne") and args:
            op = {"le": "LtE", "lt": "Lt", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}[name]
            return self.compare(op, o, args[0])
        if name in ("add", "sub", "mul", "div", "truediv") and len(args) == 1 and not kw:
            return self.binop({"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "truediv": "Div"}[name], o, args[0])
        if name == "between":
            return self.generic_method(o, name, args, kw)
        if name in ("abs", "__abs__"):
            return self.ew(T.absval, [o])
        if name in ("isnull", "isna", "notnull", "notna"):
            x = ops.isnull(t)
            return self.wrap("series", x if name.startswith("is") else not_(x), o)
        if name == "copy":
            return self.new_arr("series", t, name=self.rec(o)["name"])
        if name in ("any", "all"):
            return self.bool_reduce(o, name == "all", [])
        if name == "astype":
            return self.astype(o, self.to_term(args[0]))
        if name in ("apply", "map") and args and isinstance(self.resolve(args[0]), (LibRef, FuncVal)) and not kw:
            f = self.resolve(args[0])
            if isinstance(f, LibRef):
                return self.call(f, [o], {})
            v = self.call(f, [t], {})
            return self.new_arr("series", self.to_term(v))
        if name in ("sum", "mean", "min", "max", "std", "median"):
            return ops.reduce(name, t, ALL)
        return self.generic_method(o, name, args, kw)

    # --------------------------------------------------------- containers
    def dropped_meta(self, o, k, strict=True):
        b = self.rec(o)["base"] if o.kind == "dict" else None
        if b is not None and b.op == "attr" and b.args[1] in ("attrs", "encoding"):
            self.log("dropmeta", (b.args[1], b.args[0], k, strict))

    def dict_method(self, o, name, args, kw):
        r = self.rec(o)
        if name in ("keys", "__iter__"):
            return o
        if name in ("items", "values"):
            segs = []
            for e in self.elems_of(o):
                k = e[2] if e[0] == "one" else e[4]
                if e[0] == "one":
                    v = r["items"][k][1]
                else:
                    v = self.dict_get_each(o, e, k)
                val = TupleVal([k, v]) if name == "items" else v
                segs.append(("one", e[1], val) if e[0] == "one" else ("each", e[1], e[2], e[3], val))
            return self.new_list_elems(segs)
        if name == "get":
            return self.dict_get(o, args[0], args[1] if len(args) > 1 else NONE)
        if name == "pop":
            k = self.to_term(args[0])
            v = self.dict_get(o, k, args[1] if len(args) > 1 else None)
            self.mutated(o, f"pop {T.pretty(k, 2)}")
            self.dropped_meta(o, k, len(args) < 2)
            its = {a: b for a, b in self.rec(o)["items"].items() if a is not k}
            self.upd(o, items=its, removed=r.get("removed", EMPTY) | ({k} if r["base"] is not None or r.get("each") else EMPTY))
            return v
        if name == "update":
            self.mutated(o, "update")
            b = self.rec(o)["base"] if o.kind == "dict" else None
            if b is not None and b.op == "attr" and b.args[1] in ("attrs", "encoding"):
                d = self.new_dict({})
                for v in args:
                    self.dict_update(d, v)
                for k, v in kw.items():
                    self.setitem(d, st(k), v)
                self.log("setmeta", (b.args[1], b.args[0], self.dict_term(d)))
            if args:
                self.dict_update(o, args[0])
            for k, v in kw.items():
                if k == "**":
                    self.dict_update(o, v)
                elif k == "**sym":
                    for kk, vv in v:
                        self.setitem(o, kk, vv)
                else:
                    self.setitem(o, st(k), v)
            return NONE
        if name == "copy":
            return self.copy_dict(o)
        if name == "setdefault":
            k = self.to_term(args[0])
            dv = args[1] if len(args) > 1 else NONE
            v = self.dict_get(o, k, dv)
            self.setitem(o, k, v)
            return v
        if name == "clear":
            self.mutated(o, "clear")
            self.upd(o, base=None, items={}, each=(), removed=EMPTY)
            return NONE
        if name == "__contains__":
            return self.dict_has(o, args[0])
        return self.generic_method(o, name, args, kw)

    def dict_get_each(self, o, e, k):
        r = self.rec(o)
        for S, bv, g, kk, v in r["each"]:
            if e[1] is S and e[2] is bv and kk is k:
                return v
        return mk("item", r["base"], k) if r["base"] is not None else self.unknown("dictionary value")

    def list_method(self, o, name, args, kw):
        r = self.rec(o)
        es = r["elems"]
        plain = all(e[0] == "one" and e[1] is TRUE for e in es)
        if name == "append":
            self.mutated(o, "append")
            self.upd(o, elems=es + (one(args[0]),))
            return NONE
        if name == "extend":
            self.mutated(o, "extend")
            self.upd(o, elems=es + tuple(self.elems_of(args[0])))
            return NONE
        if name == "insert":
            self.mutated(o, "insert")
            i = self.to_term(args[0])
            if i is ZERO or (i.op == "num" and plain):
                n = int(i.args[0])
                self.upd(o, elems=es[:n] + (one(args[1]),) + es[n:])
            else:
                self.upd(o, elems=(one(self.unknown("list.insert")),))
            return NONE
        if name == "copy":
            return self.new_list_elems(es)
        if name == "remove":
            self.mutated(o, "remove")
            k = self.to_term(args[0])
            out = []
            for e in es:
                if e[0] == "one":
                    c = not_(eq(self.to_term(e[2]), k))
                    if c is not FALSE:
                        out.append(("one", and_(e[1], c), e[2]))
                else:
                    out.append(("each", e[1], e[2], and_(e[3], not_(eq(self.to_term(e[4]), k))), e[4]))
            if not plain or not any(eq(self.to_term(e[2]), k) is TRUE for e in es):
                if self.find_handler("ValueError"):
                    self.raise_if(not_(self.contains(o, k)), "ValueError", k, self.node)
            self.upd(o, elems=tuple(out))
            return NONE
        if name == "pop":
            self.mutated(o, "pop")
            i = self.to_term(args[0]) if args else num(-1)
            if plain and i.op == "num" and es:
                n = int(i.args[0])
                v = es[n][2]
                l = list(es)
                del l[n]
                self.upd(o, elems=tuple(l))
                return v
            self.upd(o, elems=(one(self.unknown("list.pop")),))
            return self.unknown("list.pop")
        if name == "index":
            k = self.to_term(args[0])
            if plain:
                for i, e in enumerate(es):
                    c = eq(self.to_term(e[2]), k)
                    if c is TRUE:
                        return num(i)
                    if c is not FALSE:
                        break
            return mk("index_of", self.to_term(o), k)
        if name in ("sort",):
            self.mutated(o, "sort")
            s = F["builtins.sorted"](self, [o], kw)
            self.upd(o, elems=tuple(self.elems_of(s)))
            return NONE
        if name == "reverse":
            self.mutated(o, "reverse")
            if plain:
                self.upd(o, elems=tuple(reversed(es)))
            else:
                self.upd(o, elems=(one(self.unknown("list.reverse")),))
            return NONE
        if name == "clear":
            self.mutated(o, "clear")
            self.upd(o, elems=())
            return NONE
        if name == "count":
            return mk("count_of", self.to_term(o), self.to_term(args[0]))
        return self.generic_method(o, name, args, kw)

    def set_method(self, o, name, args, kw):
        s = self.rec(o)["term"] if isinstance(o, Obj) else o
        if name == "union":
            return self.new_set(self.set_union(s, *[self.to_set(a) for a in args]))
        if name == "difference":
            for a in args:
                s = self.set_diff(s, self.to_set(a))
            return self.new_set(s)
        if name == "intersection":
            for a in args:
                s = self.set_inter(s, self.to_set(a))
            return self.new_set(s)
        if name == "issubset":
            return not_(T.nonempty(self.set_diff(s, self.to_set(args[0]))))
        if name == "issuperset":
            return not_(T.nonempty(self.set_diff(self.to_set(args[0]), s)))
        if name == "isdisjoint":
            return not_(T.nonempty(self.set_inter(s, self.to_set(args[0]))))
        if name == "copy":
            return self.new_set(s)
        if isinstance(o, Obj):
            if name in ("add", "update"):
                self.mutated(o, name)
                extra = mk("set", self.to_term(args[0])) if name == "add" else self.to_set(args[0])
                self.upd(o, term=self.set_union(s, extra))
                return NONE
            if name in ("discard", "remove", "difference_update"):
                self.mutated(o, name)
                extra = self.to_set(args[0]) if name == "difference_update" else mk("set", self.to_term(args[0]))
                self.upd(o, term=self.set_diff(s, extra))
                return NONE
        return self.generic_method(o, name, args, kw)

    def libobj_method(self, o, name, args, kw):
        r = self.rec(o)
        cls = r.get("cls")
        if cls == "rng":
            n = r["count"]
            self.upd(o, count=T.add(n, ONE))
            t = mk("draw", r["term"], n, name, tuple(self.to_term(a) for a in args), self.kw_terms(kw))
            return self.new_arr("nd", t)
        if cls == "grid":
            x = args[0] if args else kw.get("da", kw.get("data"))
            ax = self.arg(args, kw, 1, "axis")
            axt = self.to_term(ax) if ax is not None else NONE
            if axt.op in ("list", "tuple"):
                axt = axt.args[0] if len(axt.args) == 1 else mk("set", *sorted(axt.args, key=lambda t: t.id))
            rest = self.kw_terms({k: v for k, v in kw.items() if k not in ("axis", "da", "data")})
            if name in ("diff", "interp", "cumsum", "derivative", "min", "max", "transform", "average", "integrate"):
                pos = tuple(self.to_term(a) for a in args[2:])
                if name == "transform":
                    tgt = kw.get("target", args[2] if len(args) > 2 else None)
                    pos = (self.to_term(tgt),) if tgt is not None else ()
                    rest = tuple((k, v) for k, v in rest if k != "target")
                    if not any(k == "method" for k, v in rest):
                        rest = tuple(sorted(rest + (("method", st("linear")),)))
                t = T.lift(lambda y: ops.linear_op("gridop", y, r["term"], name, axt, pos, rest), self.to_term(x))
                return self.new_arr("da", t)
        if cls == "balltree" and name == "query":
            X = self.targ(args, kw, 0, "X")
            k = self.targ(args, kw, 1, "k", ONE)
            rest = tuple((a, b) for a, b in self.kw_terms({p: v for p, v in kw.items() if p not in ("X", "k", "return_distance", "sort_results", "dualtree", "breadth_first")}))
            base = mk("nearest", r["term"], X, k, rest) if rest else mk("nearest", r["term"], X, k)
            ds, ix = self.new_arr("nd", mk("item", base, ZERO)), self.new_arr("nd", mk("item", base, ONE))
            rd = kw.get("return_distance")
            if rd is not None and self.to_term(rd) is FALSE:
                return ix
            return TupleVal([ds, ix])
        return self.generic_method(o, name, args, kw)

    # ------------------------------------------------------------- terms
    def term_method(self, t, name, args, kw):
        ts = [self.to_term(a) for a in args]
        if name == "format" and t.op == "str" and not kw:
            return self.str_format(t, ts)
        if name == "format" and t.op == "str":
            return self.str_format(t, ts, {k: self.to_term(v) for k, v in kw.items()})
        if name == "join" and t.op == "str":
            ks = self.known_elems(args[0])
            if ks is not None:
                parts = []
                for i, k in enumerate(ks):
                    if i:
                        parts.append(t)
                    parts.append(self.to_term(k))
                return T.lift(lambda *xs: fmt(xs), *parts) if parts else st("")
        if name in ("keys", "__iter__"):
            return t if t.op in ("groupkeys", "keys") else mk("keys", t)
        if name == "items":
            from .interp import fresh_bv

            bv = fresh_bv()
            return self.new_list_elems([("each", mk("keys", t), bv, TRUE, TupleVal([bv, mk("item", t, bv)]))])
        if name == "get" and ts:
            return T.lift(lambda x: ite(member(ts[0], mk("keys", x)), mk("item", x, ts[0]), ts[1] if len(ts) > 1 else NONE), t)
        if name == "copy" and not ts:
            return t
        if name in ("sum", "mean", "min", "max", "std") and t.op not in ("str", "fmt"):
            return ops.reduce(name, t, ALL if not ts and "axis" not in kw else mk("axis", ts[0] if ts else self.to_term(kw["axis"])))
        if name == "astype":
            return self.astype(t, ts[0])
        if name in ("any", "all") and T.is_bool(t):
            return self.bool_reduce(t, name == "all", [])
        if name == "round":
            return T.lift(lambda x: mk("round", x, ts[0] if ts else ZERO), t)
        if name == "item" and not ts:
            return t
        if name == "tolist":
            return self.new_list_elems(self.elems_of(t))
        if name == "duplicated" and t.op == "attr" and t.args[1] == "columns" and not ts and not kw:
            return mk("dupcols", t.args[0])
        if name == "joinpath":
            r = t
            for x in ts:
                r = T.div(r, x)
            return r
        if name in ("union", "difference", "intersection") and t.op in ("setof", "setdiff", "union", "inter", "set", "keys"):
            return self.set_method(t, name, args, kw)
        if name == "reshape":
            return self.reshape(None, t, args)
        if name in PURE_STR and not kw:
            def f(x):
                if x.op == "str" and all(a.op in ("str", "num") for a in ts):
                    try:
                        v = getattr(x.args[0], name)(*[a.args[0] if a.op == "str" else int(a.args[0]) for a in ts])
                    except (TypeError, ValueError):
                        return mk("meth", name, x, tuple(ts), ())
                    if isinstance(v, list):
                        return mk("list", *[st(q) for q in v])
                    if isinstance(v, tuple):
                        return mk("tuple", *[st(q) for q in v])
                    return T.const(v)
                if name in ("lower", "casefold") and x.op == "meth" and x.args[0] in ("lower", "casefold"):
                    return x
                n = "lower" if name == "casefold" else name
                if n == "zfill" and not self.is_str(x):
                    x = fmt([x])
                if name in ("startswith", "endswith"):
                    return mk("truth", mk("meth", n, x, tuple(ts), ()))
                return mk("meth", n, x, tuple(ts), ())

            r = T.lift(f, t)
            return r
        return T.lift(lambda x: mk("meth", name, x, tuple(ts), self.kw_terms(kw)), t)

    def str_format(self, t, ts, kw=None):
        import string

        parts = []
        i = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(t.args[0]):
                parts.append(st(lit))
                if field is None:
                    continue
                if field == "":
                    v = ts[i]
                    i += 1
                elif field.isdigit():
                    v = ts[int(field)]
                elif kw and field in kw:
                    v = kw[field]
                else:
                    raise IndexError
                parts.append(self.format_spec(v, st(spec)) if spec else self.str_of(v))
        except (IndexError, ValueError):
            return mk("meth", "format", t, tuple(ts), ())
        return T.lift(lambda *xs: fmt(xs), *parts)
