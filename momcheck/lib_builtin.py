"""Built-in functions and the standard library, as the analysis models them."""
import math

from . import terms as T
from . import ops
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num,
    truth, eq, lt, le, is_, member, subst, subterms, fmt,
)
from .values import (
    PathDead, Obj, TupleVal, FuncVal, BoundMethod, Partial, LibRef, ModuleVal,
    Accessor, Choice, Tensor, one,
)
from .lib_core import CLASS_OF, SYM_CLASS, LIB_ALIASES, EMPTY

F = {}


def fn(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f

    return deco


BUILTINS = {
    "len", "range", "list", "tuple", "dict", "set", "frozenset", "sorted", "zip", "enumerate", "map", "filter",
    "reversed", "str", "int", "float", "bool", "abs", "min", "max", "sum", "any", "all", "isinstance", "issubclass",
    "getattr", "hasattr", "setattr", "print", "round", "type", "callable", "iter", "next", "repr", "format",
    "hash", "id", "open", "super", "object", "slice", "pow", "divmod", "complex", "bytes", "vars", "dir",
    "globals", "locals", "eval", "exec", "input", "chr", "ord", "staticmethod", "classmethod", "property", "delattr", "__import__",
}
EXC_SUFFIX = ("Error", "Warning", "Exception", "Iteration", "Exit", "Interrupt")

NONDET = (
    "time.", "random.", "uuid.", "secrets.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "platform.",
    "socket.", "getpass.", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow",
    "datetime.date.today", "pandas.Timestamp.now", "pandas.Timestamp.today", "os.listdir", "os.getcwd", "tempfile.", "glob.", "sys.argv", "locale.",
    "os.cpu_count", "threading.get_ident",
)

CONSTS = {
    "numpy.pi": T.PI, "math.pi": T.PI, "scipy.constants.pi": T.PI, "numpy.nan": NAN, "numpy.NaN": NAN, "numpy.NAN": NAN, "math.nan": NAN,
    "numpy.inf": T.INF, "numpy.Inf": T.INF, "math.inf": T.INF, "numpy.newaxis": NONE, "numpy.e": mk("euler"), "math.e": mk("euler"),
}


UNBOUND = {  # methods called through their class
    "builtins.str", "builtins.list", "builtins.dict", "builtins.set",
    "xarray.DataArray", "xarray.Dataset", "xarray.core.dataset.Dataset", "xarray.core.dataarray.DataArray",
}


class BuiltinMixin:
    def libname(self, name):
        return LIB_ALIASES.get(name, name)

    def lib_attr(self, mod, attr):
        full = f"{mod}.{attr}"
        full = LIB_ALIASES.get(full, full)
        if full in CONSTS:
            return CONSTS[full]
        if full.startswith("numpy.typing"):
            return LibRef("typing.Any")
        if full in ("os.environ",):
            self.log("nondet", full)
            return mk("nondet", full)
        if attr in ("__version__",):
            return mk("libattr", full)
        return LibRef(full)

    def builtin(self, name):
        if name in ("True", "False", "None"):
            return T.const({"True": True, "False": False, "None": None}[name])
        if name == "Ellipsis":
            return T.ELLIPSIS
        if name == "__name__":
            return st("?")
        if name in BUILTINS or name.endswith(EXC_SUFFIX) or name == "AssertionError":
            return LibRef("builtins." + name)
        return None

    def lib_call(self, name, args, kwargs):
        name = LIB_ALIASES.get(name, name)
        args = [self.resolve(a) for a in args]
        f = F.get(name)
        if f is not None:
            r = f(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if name.startswith("builtins.") and name.endswith(EXC_SUFFIX):
            msg = args[0] if args else st("")
            return self.new("exc", type=name.split(".")[-1], msg=self.to_term(msg))
        cls, _, meth = name.rpartition(".")
        if args and cls in UNBOUND:
            return self.call(self.getattr_(args[0], meth), args[1:], kwargs)
        for p in NONDET:
            if name.startswith(p):
                self.log("nondet", name)
                return mk("nondet", name)
        if name.startswith("typing.") or name.startswith("collections.abc."):
            return NONE
        return self.generic_call(name, name, args, kwargs)

    def generic_call(self, recv, name, args, kwargs):
        """A function that is not modelled: an uninterpreted function."""
        for a in list(args) + [v for k, v in kwargs.items() if k != "**sym"]:
            self.escape(a)
        ts = tuple(self.to_term(a) for a in args)
        t = mk("call", name if isinstance(recv, str) else T.pretty(recv, 3) + "." + name, ts, self.kw_terms(kwargs))
        kind = self.kinds(*args)
        if name.startswith("numpy.") and kind in (None,):
            kind = "nd"
        if kind in ("nd", "da"):
            return self.new_arr(kind, t)
        return t

    # ------------------------------------------------------------ helpers
    def arg(self, args, kwargs, i, name, default=None):
        if i is not None and i < len(args):
            return args[i]
        return kwargs.get(name, default)

    def targ(self, args, kwargs, i, name, default=NONE):
        v = self.arg(args, kwargs, i, name)
        return default if v is None else self.to_term(v)

    def spread(self, f, v):
        """f on each alternative of v"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork_val(v.cond, lambda: self.spread(f, v.a), lambda: self.spread(f, v.b))
        return f(v)

    def classes(self, c):
        c = self.resolve(c)
        if isinstance(c, TupleVal):
            return [x for y in c.items for x in self.classes(y)]
        if c is NONE or isinstance(c, Obj) and c.kind in ("list", "dict", "set", "da", "ds", "nd", "df", "series"):
            self.raise_if(TRUE, "TypeError", st("not a class"), self.node)
            raise PathDead()
        if isinstance(c, LibRef):
            return [LIB_ALIASES.get(c.name, c.name)]
        if isinstance(c, Term) and c.op == "binop" and c.args[0] == "BitOr":
            return [x.args[0] for x in c.args[1:] if x.op == "lib"]
        if isinstance(c, Term) and c.op == "typeof":
            return [c]
        return [self.to_term(c)]

    def instance_of(self, v, c):
        """v is an instance of the class named c"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.instance_of(v.a, c), self.instance_of(v.b, c))
        if not isinstance(c, str):
            return mk("isinstance", self.to_term(v), c)
        if c == "builtins.object":
            return TRUE
        if isinstance(v, Obj):
            k = CLASS_OF.get(v.kind)
            if k is not None:
                if k == c:
                    return TRUE
                if c.startswith("collections.abc.") or c.startswith("typing."):
                    s = c.split(".")[-1]
                    if s in ("Mapping", "MutableMapping", "Dict"):
                        return TRUE if v.kind in ("dict", "ds") else FALSE
                    if s in ("Sequence", "List"):
                        return TRUE if v.kind == "list" else FALSE
                    return mk("isinstance", self.to_term(v), st(c))
                return FALSE
            if v.kind == "exc":
                from .interp import exc_matches

                return TRUE if exc_matches(self.rec(v)["type"], c.split(".")[-1]) else FALSE
            return mk("isinstance", self.to_term(v), st(c))
        if isinstance(v, TupleVal):
            return TRUE if c in ("builtins.tuple", "collections.abc.Sequence") else FALSE
        if isinstance(v, Tensor):
            return TRUE if c == "numpy.ndarray" else FALSE
        if isinstance(v, (FuncVal, LibRef, ModuleVal, Partial, BoundMethod)):
            return FALSE

        def f(t):
            kinds = {
                "str": {"builtins.str"}, "fmt": {"builtins.str"}, "bool": {"builtins.bool", "builtins.int"},
                "none": {"NoneType"}, "tuple": {"builtins.tuple"}, "list": {"builtins.list"}, "dict": {"builtins.dict"},
                "set": {"builtins.set"}, "pi": {"builtins.float"}, "nan": {"builtins.float"},
            }.get(t.op)
            if t.op == "num":
                kinds = {"builtins.int", "builtins.float"} if t.args[0].denominator == 1 else {"builtins.float"}
                if c in ("builtins.int", "builtins.float") and t.args[0].denominator == 1:
                    return mk("isinstance", t, st(c)) if False else TRUE
            if t.op == "sym" and self.symtypes.get(t) in SYM_CLASS:
                kinds = SYM_CLASS[self.symtypes[t]]
                if c in ("numbers.Number", "numbers.Real", "numpy.number", "numpy.floating", "builtins.int", "builtins.float") and self.symtypes[t] == "num":
                    return mk("isinstance", t, st(c)) if c != "numbers.Number" else TRUE
            if kinds is not None:
                return TRUE if c in kinds else FALSE
            if T.is_bool(t):
                return TRUE if c in ("builtins.bool",) else FALSE
            return mk("isinstance", t, st(c))

        return T.lift(f, v)


@fn("builtins.isinstance")
def _isinstance(I, a, kw):
    return or_(FALSE, *[I.instance_of(a[0], c) for c in I.classes(a[1])])


@fn("builtins.issubclass")
def _issubclass(I, a, kw):
    return mk("isinstance", I.to_term(a[0]), mk("tuple", *[st(str(c)) for c in I.classes(a[1])]))


@fn("builtins.type")
def _type(I, a, kw):
    v = a[0]
    if isinstance(v, Obj) and v.kind in CLASS_OF:
        return LibRef(CLASS_OF[v.kind])
    if isinstance(v, Term) and I.is_str(v):
        return LibRef("builtins.str")
    return mk("typeof", I.to_term(v))


@fn("builtins.len")
def _len(I, a, kw):
    def f(v):
        if isinstance(v, TupleVal):
            return num(len(v.items))
        if isinstance(v, Tensor):
            if isinstance(v.axes[0], int):
                return num(v.axes[0])
            return ops.len_of(next(iter(v.entries.values())))
        if isinstance(v, Obj):
            if v.kind == "dict" and I.rec(v)["base"] is None and not I.rec(v)["each"]:
                its = I.rec(v)["items"]
                if all(g is TRUE for g, _ in its.values()):
                    return num(len(its))
                return mk("len", mk("list", *[k if g is TRUE else mk("gelem", g, k) for k, (g, _) in its.items()]))
            if v.kind == "list":
                es = I.rec(v)["elems"]
                if all(e[0] == "one" and e[1] is TRUE for e in es):
                    return num(len(es))
                if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE:
                    return ops.len_of(es[0][1])
                return mk("len", I.to_term(v))
            if v.kind == "df":
                return mk("len", I.df_index(I.df_term(v)))
        if isinstance(v, Accessor):
            return mk("len", I.acc_term(v))
        t = I.to_term(v)
        I.not_none(t)
        return ops.len_of(t)

    return I.spread(f, a[0])


@fn("builtins.range")
def _range(I, a, kw):
    ts = [I.to_term(x) for x in a]
    if all(t.op == "num" for t in ts):
        r = range(*[int(t.args[0]) for t in ts])
        if len(r) <= 400:
            return I.new_list([num(i) for i in r])
    if len(ts) == 1:
        return mk("range0", ts[0])
    if len(ts) == 2 or (len(ts) == 3 and ts[2] is ONE):
        if ts[0] is ZERO:
            return mk("range0", ts[1])
        # range(a, b) visits a + i
        from .interp import fresh_bv

        bv = fresh_bv()
        return I.new_list_elems([("each", mk("range0", T.sub(ts[1], ts[0])), bv, TRUE, T.add(bv, ts[0]))])
    return mk("range", *ts)


@fn("builtins.list", "builtins.tuple", "builtins.iter")
def _list(I, a, kw):
    if not a:
        return I.new_list([])
    def f(v):
        if isinstance(v, Obj) and v.kind == "gb" and I.rec(v).get("asdict"):
            return mk("groupkeys", I.rec(v)["term"])
        return I.new_list_elems(I.elems_of(v))

    return I.spread(f, a[0])


@fn("builtins.tuple")
def _tuple(I, a, kw):
    if not a:
        return TupleVal([])
    def f(v):
        if isinstance(v, Term) and v.op == "attr" and v.args[1] in ("dims", "shape"):
            return v
        es = I.elems_of(v)
        if all(e[0] == "one" and e[1] is TRUE for e in es):
            return TupleVal([e[2] for e in es])
        return I.new_list_elems(es)

    return I.spread(f, a[0])


@fn("builtins.set", "builtins.frozenset")
def _set(I, a, kw):
    if not a:
        return I.new_set(mk("set"))
    return I.spread(lambda v: I.new_set(I.to_set(v)), a[0])


@fn("builtins.dict")
def _dict(I, a, kw):
    d = I.new_dict({})
    kw = dict(kw)
    base = kw.pop("**", None)
    kw.pop("**sym", None)
    if a:
        v = a[0]
        if isinstance(v, Choice):
            return I.fork_val(v.cond, lambda: _dict(I, [v.a], kw), lambda: _dict(I, [v.b], kw))
        if isinstance(v, Obj) and v.kind == "gb":
            return I.new("gb", **{**I.rec(v), "asdict": True})
        if isinstance(v, Accessor):
            return mk("asdict", I.acc_term(v))
        if isinstance(v, Obj) and v.kind == "series":
            I.upd(d, base=mk("asdict", I.to_term(v)))
        elif isinstance(v, Term) and v.op == "zip":
            I.upd(d, base=mk("asdict", v))
        elif isinstance(v, Obj) and v.kind in ("ds",):
            return v
        elif isinstance(v, Obj) and v.kind == "list":
            ok = True
            for e in I.rec(v)["elems"]:
                if e[0] == "one" and isinstance(e[2], TupleVal) and e[1] is TRUE:
                    I.setitem(d, e[2].items[0], e[2].items[1])
                elif e[0] == "each" and isinstance(e[4], TupleVal):
                    I.upd(d, each=I.rec(d)["each"] + ((e[1], e[2], e[3], I.to_term(e[4].items[0]), e[4].items[1]),))
                else:
                    ok = False
            if not ok:
                I.upd(d, base=mk("asdict", I.to_term(v)))
        else:
            I.dict_update(d, v)
    if base is not None:
        I.dict_update(d, base)
    for k, v in kw.items():
        I.setitem(d, st(k), v)
    return d


@fn("builtins.sorted")
def _sorted(I, a, kw):
    def f(v):
        ks = None
        if set(kw) <= {"key"} and isinstance(v, Obj):
            # groups come in the order of their keys already
            try:
                es = I.elems_of(v)
            except Exception:
                es = []
            if len(es) == 1 and es[0][0] == "each" and es[0][1].op == "groupkeys" and es[0][3] is TRUE:
                x = es[0][4]
                if kw:
                    k = I.call(kw["key"], [x], {})
                else:
                    k = x
                    if isinstance(x, TupleVal) and x.items:
                        k = x.items[0]
                if isinstance(k, Term) and k is es[0][2]:
                    return I.new_list_elems(es)
        if not kw:
            t = None
            if isinstance(v, Obj) and v.kind == "gb" and I.rec(v).get("asdict"):
                return mk("groupkeys", I.rec(v)["term"])
            if isinstance(v, Term):
                t = v
            elif isinstance(v, Obj) and v.kind == "list":
                es = I.rec(v)["elems"]
                if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE and es[0][4] is es[0][2]:
                    t = es[0][1]
            if t is not None and t.op in ("groupkeys", "sorted"):
                return t
            if t is not None and t.op in ("aslist", "setof") and t.args[0].op == "groupkeys":
                return t.args[0]
            ks = I.known_elems(v)
        if ks is not None:
            ts = [I.to_term(k) for k in ks]
            if all(t.op == "num" for t in ts):
                return I.new_list([num(x) for x in sorted(t.args[0] for t in ts)])
            if all(t.op == "str" for t in ts):
                return I.new_list([st(x) for x in sorted(t.args[0] for t in ts)])
        s = I.to_set(v)
        if s.op == "setof" and s.args[0].op == "groupkeys" and not kw:
            return s.args[0]
        if s.op == "setof":
            s = s.args[0]
        return mk("sorted", s) if not kw else mk("sorted", s, I.kw_terms(kw))

    return I.spread(f, a[0])


@fn("builtins.dict.fromkeys")
def _fromkeys(I, a, kw):
    val = a[1] if len(a) > 1 else NONE

    def f(v):
        es = I.elems_of(v)
        if all(e[0] == "one" and e[1] is TRUE for e in es):
            return I.new_dict({I.to_term(e[2]): val for e in es})
        # which keys there are, in the order of their first appearance
        return I.new_list_elems(es)

    return I.spread(f, a[0])


@fn("builtins.zip")
def _zip(I, a, kw):
    from .interp import fresh_bv

    ks = [I.known_elems(v) for v in a]
    if all(k is not None for k in ks):
        return I.new_list([TupleVal(x) for x in zip(*ks)])
    segs = []
    S = None
    for v in a:
        es = I.elems_of(v)
        if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE:
            segs.append(es[0])
        elif len(es) == 1 and es[0][0] == "each" and isinstance(es[0][4], T.Term):
            # a filtered list: by position
            v = I.to_term(v)
            b = fresh_bv()
            segs.append(("each", mk("range0", ops.len_of(v)), b, TRUE, mk("item", v, b)))
        else:
            return mk("zip", *[I.to_term(v) for v in a])
    bv = fresh_bv()
    vals = []
    lens = []
    for s in segs:
        src = s[1]
        lens.append(ops.len_of(src))
        vals.append(I.subst_val(s[4], {s[2]: I.seq_at(src, bv)}))
    n = lens[0]
    if any(l is not n for l in lens):
        # zip stops at the shorter one; x[:-1] and x[1:] are of one length
        lens = shortest(lens)
        n = lens[0] if len(lens) == 1 else mk("minlen", *lens)
    return I.new_list_elems([("each", mk("range0", n), bv, TRUE, TupleVal(vals))])


def shortest(lens):
    """Of lengths a known number apart only the smallest matters"""
    out = []
    for n in sorted(set(lens), key=lambda t: t.id):
        for i, m in enumerate(out):
            d = T.sub(n, m)
            if d.op == "num":
                if d.args[0] < 0:
                    out[i] = n
                break
        else:
            out.append(n)
    return out


@fn("builtins.enumerate")
def _enumerate(I, a, kw):
    from .interp import fresh_bv

    start = I.targ(a, kw, 1, "start", ZERO)
    ks = I.known_elems(a[0])
    if ks is not None:
        return I.new_list([TupleVal([T.add(num(i), start), k]) for i, k in enumerate(ks)])
    es = I.elems_of(a[0])
    if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE:
        bv = fresh_bv()
        v = I.subst_val(es[0][4], {es[0][2]: I.seq_at(es[0][1], bv)})
        return I.new_list_elems([("each", mk("range0", ops.len_of(es[0][1])), bv, TRUE, TupleVal([T.add(bv, start), v]))])
    return mk("enumerate", I.to_term(a[0]))


@fn("builtins.map")
def _map(I, a, kw):
    out = I.new_list([])
    it = a[1] if len(a) == 2 else _zip(I, a[1:], {})

    def body(x):
        xs = [x] if len(a) == 2 else (list(x.items) if isinstance(x, TupleVal) else [x])
        v = I.call(a[0], xs, {})
        I.upd(out, elems=I.rec(out)["elems"] + (one(v),))

    I.run_loop(it, body, I.node)
    return out


@fn("builtins.filter")
def _filter(I, a, kw):
    out = I.new_list([])

    def body(x):
        c = I.truthy(x if a[0] is NONE else I.call(a[0], [x], {}))

        def add():
            I.upd(out, elems=I.rec(out)["elems"] + (one(x),))

        I.branch(c, add, lambda: None)

    I.run_loop(a[1], body, I.node)
    return out


@fn("builtins.reversed")
def _reversed(I, a, kw):
    ks = I.known_elems(a[0])
    if ks is not None:
        return I.new_list(list(reversed(ks)))
    return mk("reversed", I.to_term(a[0]))


@fn("builtins.str")
def _str(I, a, kw):
    return I.spread(lambda v: I.str_value(v), a[0]) if a else st("")


@fn("builtins.repr")
def _repr(I, a, kw):
    return mk("repr", I.to_term(a[0]))


@fn("builtins.format")
def _format(I, a, kw):
    return I.format_spec(I.to_term(a[0]), I.to_term(a[1])) if len(a) > 1 else I.str_value(a[0])


@fn("builtins.int")
def _int(I, a, kw):
    t = I.to_term(a[0]) if a else ZERO
    if isinstance(a[0], Obj) and a[0].kind in ("da", "nd"):
        I.log("force", ("int", t))

    def f(x):
        if x.op == "num":
            return num(math.trunc(x.args[0]))
        if x.op in ("len", "bound", "bv") or (x.op == "sym" and I.symtypes.get(x) == "int"):
            return x
        if x.op == "str":
            try:
                return num(int(x.args[0]))
            except ValueError:
                pass
        return mk("int", x)

    return T.lift(f, t)


@fn("builtins.float")
def _float(I, a, kw):
    t = I.to_term(a[0]) if a else ZERO
    if isinstance(a[0], Obj) and a[0].kind in ("da", "nd"):
        I.log("force", ("float", t))

    def f(x):
        if x.op == "str":
            if x.args[0].lower() == "nan":
                return NAN
            try:
                return num(float(x.args[0]))
            except ValueError:
                pass
        return x

    return T.lift(f, t)


@fn("builtins.bool")
def _bool(I, a, kw):
    return I.truthy(a[0]) if a else FALSE


@fn("builtins.abs")
def _abs(I, a, kw):
    return I.lib_call("numpy.abs", a, kw)


@fn("builtins.min", "builtins.max")
def _minmax(I, a, kw):
    return NotImplemented


def _mm(op):
    def f(I, a, kw):
        xs = a
        if len(a) == 1:
            xs = I.known_elems(a[0])
            if xs is None:
                return mk("call", "builtins." + op, (I.to_term(a[0]),), I.kw_terms(kw))
        if kw:
            return mk("call", "builtins." + op, tuple(I.to_term(x) for x in xs), I.kw_terms(kw))
        ts = [I.to_term(x) for x in xs]
        return I.wrap(I.kinds(*xs), T.lift(lambda *y: T.minmax(op, y), *ts), *xs)

    return f


F["builtins.min"] = _mm("min")
F["builtins.max"] = _mm("max")


@fn("builtins.sum", "math.fsum")
def _sum(I, a, kw):
    start = I.arg(a, kw, 1, "start", ZERO)
    ks = I.known_elems(a[0])
    if ks is not None:
        acc = start
        for k in ks:
            acc = I.binop("Add", acc, k)
        return acc
    es = I.elems_of(a[0])
    if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE:
        from .interp import close, deindex

        S, bv = es[0][1], es[0][2]
        S2, (d,) = deindex(S, bv, I.to_term(es[0][4]))
        h, f = close(bv, d)
        return T.add(I.to_term(start), mk("sumover", S2, h, f))
    return mk("call", "builtins.sum", (I.to_term(a[0]),), ())


def _quant(I, v, conj):
    from .interp import mk_exists

    if isinstance(v, Obj) and v.kind in ("da", "nd", "series"):
        return I.lib_call("numpy.all" if conj else "numpy.any", [v], {})
    r = FALSE
    for e in I.elems_of(v):
        if e[0] == "one":
            c = I.truthy(e[2])
            r = or_(r, and_(e[1], not_(c) if conj else c))
        else:
            c = I.truthy(e[4])
            r = or_(r, mk_exists(e[1], e[2], and_(e[3], not_(c) if conj else c)))
    return not_(r) if conj else r


@fn("builtins.any")
def _any(I, a, kw):
    return _quant(I, a[0], False)


@fn("builtins.all")
def _all(I, a, kw):
    return _quant(I, a[0], True)


@fn("builtins.getattr")
def _getattr(I, a, kw):
    k = I.to_term(a[1])

    def f(name):
        if name.op == "str":
            if len(a) > 2:
                o = a[0]
                if isinstance(o, ModuleVal):
                    v = I.module_attr(o.name, name.args[0])
                    return a[2] if v is None else v
                return I.fork_val(mk("hasattr", I.to_term(o), name), lambda: I.getattr_(o, name.args[0]), lambda: a[2])
            return I.getattr_(a[0], name.args[0])
        # a computed name: look it up among the names of the module
        if isinstance(a[0], ModuleVal):
            d = I.getattr_(a[0], "__dict__")
            if len(a) > 2:
                return I.dict_get(d, name, a[2])
            if I.rec(d)["items"]:
                h = I.dict_has(d, name)
                I.raise_if(not_(h), "AttributeError", name, I.node)
            return I.dict_get(d, name)
        return mk("getattr", I.to_term(a[0]), name)

    return f(k)


@fn("builtins.vars")
def _vars(I, a, kw):
    if a and isinstance(a[0], ModuleVal):
        return I.getattr_(a[0], "__dict__")
    return I.unknown("vars()")


@fn("builtins.dir")
def _dir(I, a, kw):
    if a and isinstance(a[0], ModuleVal):
        return I.getattr_(a[0], "__dict__")
    return I.unknown("dir()")


@fn("builtins.hasattr")
def _hasattr(I, a, kw):
    o, k = a[0], I.to_term(a[1])
    if isinstance(o, ModuleVal):
        return I.dict_has(I.getattr_(o, "__dict__"), k)
    if isinstance(o, Obj) and k.op == "str":
        from .lib_core import API, KIND_API

        api = KIND_API.get(o.kind)
        if api and k.args[0] in API[api]:
            return TRUE
        if api == "ndarray":
            return FALSE
    if isinstance(o, Term) and o.op in ("num", "str", "bool") and k.op == "str":
        return TRUE if hasattr(T.pyval(o), k.args[0]) else FALSE
    return mk("hasattr", I.to_term(o), k)


@fn("builtins.setattr")
def _setattr(I, a, kw):
    k = I.to_term(a[1])
    if k.op == "str":
        I.setattr_(a[0], k.args[0], a[2])
    else:
        I.unknown("setattr")
    return NONE


@fn("builtins.super", "builtins.staticmethod")
def _super(I, a, kw):
    return NONE


@fn("builtins.print")
def _print(I, a, kw):
    f = I.arg([], kw, None, "file")
    I.log("print", (mk("tuple", *[I.to_term(x) for x in a]), NONE if f is None else I.to_term(f)))
    return NONE


@fn("builtins.round")
def _round(I, a, kw):
    return I.lib_call("numpy.round", a, kw)


@fn("builtins.pow", "math.pow")
def _pow(I, a, kw):
    return I.binop("Pow", a[0], a[1])


@fn("builtins.callable")
def _callable(I, a, kw):
    if isinstance(a[0], (FuncVal, Partial, BoundMethod, LibRef)):
        return TRUE
    if isinstance(a[0], Obj):
        return FALSE
    return mk("callable", I.to_term(a[0]))


@fn("builtins.next")
def _next(I, a, kw):
    ks = I.known_elems(a[0])
    if ks:
        return ks[0]
    if ks is not None and len(a) > 1:
        return a[1]
    es = I.elems_of(a[0])
    if es and all(e[0] == "one" for e in es):
        def pick(i):
            if i == len(es):
                if len(a) > 1:
                    return a[1]
                I.raise_if(TRUE, "StopIteration", NONE, I.node)
                raise PathDead()
            return I.fork_val(es[i][1], lambda: es[i][2], lambda: pick(i + 1))

        return pick(0)
    if len(es) == 1 and es[0][0] == "each" and es[0][3] is TRUE and len(a) == 1:
        return I.subst_val(es[0][4], {es[0][2]: I.seq_at(es[0][1], ZERO)})
    return I.unknown("next()")


@fn("builtins.slice")
def _slice(I, a, kw):
    ts = [I.to_term(x) for x in a]
    if len(ts) == 1:
        ts = [NONE] + ts
    while len(ts) < 3:
        ts.append(NONE)
    return I.mk_slice(*ts)


@fn("builtins.hash", "builtins.id", "builtins.input")
def _hash(I, a, kw):
    I.log("nondet", "hash()/id() of an object")
    return mk("nondet", "hash")


@fn("builtins.open")
def _open(I, a, kw):
    I.log("read", I.to_term(a[0]))
    return mk("call", "open", tuple(I.to_term(x) for x in a), ())


@fn("builtins.divmod")
def _divmod(I, a, kw):
    return TupleVal([I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])])


@fn("builtins.globals", "builtins.locals", "builtins.eval", "builtins.exec")
def _dyn(I, a, kw):
    return I.unknown("dynamic code")


@fn("warnings.warn")
def _warn(I, a, kw):
    cat = I.arg(a, kw, 1, "category")
    if any(I.filters):
        return NONE
    I.log("warn", (I.to_term(a[0]) if a else NONE, I.to_term(cat) if cat is not None else mk("lib", "builtins.UserWarning")))
    return NONE


@fn("warnings.catch_warnings")
def _cw(I, a, kw):
    kw = {k: I.to_term(v) for k, v in kw.items()}
    return mk("catch_warnings", TRUE if kw.get("record") is TRUE or kw.get("action") is st("ignore") and "category" not in kw else FALSE)


@fn("warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings")
def _wf(I, a, kw):
    if not I.filters:
        I.log("globalwrite", "the warning filters")
        return NONE
    act = I.arg(a, kw, 0, "action")
    if act is not None and I.to_term(act) is st("ignore"):
        others = list(a[1:]) + list(kw.values())
        if not [v for v in others if I.to_term(v) is not st("ignore") and not T.pretty(I.to_term(v), 2).endswith(("UserWarning", "Warning'", "builtins.Warning"))]:
            I.filters = I.filters[:-1] + (True,)
    return NONE


@fn("functools.partial")
def _partial(I, a, kw):
    return Partial(a[0], a[1:], kw)


@fn("functools.lru_cache", "functools.cache")
def _cache(I, a, kw):
    if a and isinstance(a[0], FuncVal):
        I.log("cache", a[0].qualname)
        a[0].cached = True
        return a[0]
    return mk("deco", "functools.lru_cache")


@fn("functools.wraps")
def _wraps(I, a, kw):
    return mk("deco", "functools.wraps")


@fn("functools.reduce")
def _freduce(I, a, kw):
    ks = I.known_elems(a[1])
    if ks is None:
        return I.unknown("functools.reduce")
    ks = list(ks)
    acc = a[2] if len(a) > 2 else ks.pop(0)
    for k in ks:
        acc = I.call(a[0], [acc, k], {})
    return acc


OPERATORS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv", "and_": "BitAnd", "or_": "BitOr"}
for _n, _o in OPERATORS.items():
    F["operator." + _n] = lambda I, a, kw, _o=_o: I.binop(_o, a[0], a[1])
for _n, _o in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.items():
    F["operator." + _n] = lambda I, a, kw, _o=_o: I.compare(_o, a[0], a[1])
F["operator.neg"] = lambda I, a, kw: I.binop("Mult", num(-1), a[0])
F["operator.getitem"] = lambda I, a, kw: I.getitem(a[0], a[1])
F["operator.contains"] = lambda I, a, kw: I.contains(a[0], a[1])
F["operator.itemgetter"] = lambda I, a, kw: mk("itemgetter", *[I.to_term(x) for x in a])
F["itertools.chain"] = lambda I, a, kw: I.new_list_elems([e for v in a for e in I.elems_of(v)])
F["itertools.product"] = lambda I, a, kw: _product(I, a)
F["itertools.pairwise"] = lambda I, a, kw: _zip(I, [I.getitem(a[0], mk("slice", NONE, num(-1), NONE)), I.getitem(a[0], mk("slice", ONE, NONE, NONE))], {})


def _product(I, a):
    import itertools

    ks = [I.known_elems(v) for v in a]
    if any(k is None for k in ks):
        return I.unknown("itertools.product")
    return I.new_list([TupleVal(x) for x in itertools.product(*ks)])


@fn("os.path.exists", "os.path.isfile")
def _exists(I, a, kw):
    return mk("pathexists", I.to_term(a[0]))


@fn("os.path.join")
def _join(I, a, kw):
    return T.join_path(*[I.to_term(x) for x in a])


@fn("importlib.import_module")
def _import(I, a, kw):
    t = I.to_term(a[0])
    if t.op == "str":
        name = t.args[0]
        if name.startswith("."):
            pkg = I.targ(a, kw, 1, "package")
            name = (pkg.args[0] if pkg.op == "str" else "") + name
        if name.split(".")[0] == I.program.package:
            if I.import_module(name):
                return ModuleVal(name)
        return LibRef(name)
    return I.unknown("import of a computed name")


@fn("copy.copy", "copy.deepcopy")
def _copy(I, a, kw):
    v = a[0]
    if isinstance(v, Obj):
        if v.kind == "dict":
            return I.copy_dict(v)
        if v.kind == "list":
            return I.new_list_elems(I.rec(v)["elems"])
        if v.kind in ("da", "ds", "nd", "df", "series"):
            return I.call_method(v, "copy", [], {"deep": TRUE})
    return v
