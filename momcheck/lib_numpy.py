"""numpy, as the analysis models it."""
import itertools

from . import terms as T
from . import ops
from .ops import ALL
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num,
    truth, eq, lt, le, subst, subterms,
)
from .values import Obj, TupleVal, FuncVal, LibRef, Accessor, Choice, Tensor, Partial, one
from .lib_core import EMPTY, scalar_term
from .lib_builtin import F, fn

UNARY = ["sin", "cos", "tan", "exp", "log", "sqrt", "arctan", "arcsin", "arccos", "floor", "ceil", "trunc", "rint", "sign", "sinh", "cosh", "tanh", "cbrt"]
SLICE_ALL = mk("slice", NONE, NONE, NONE)
DTYPES_FLOAT = {"float", "float64", "double", "f8", "<f8", "numpy.float64", "builtins.float", "numpy.double", "d", "numpy.float_"}


class NumpyMixin:
    def unary(self, op, t):
        if op == "abs":
            return T.absval(t)
        return ops.unary(op, t)

    # ------------------------------------------------------- elementwise
    def ew(self, f, args, keep=True):
        """Elementwise function f (on nodes) of array arguments."""
        args = [self.resolve(a) for a in args]
        for i, a in enumerate(args):
            if isinstance(a, Choice):
                return self.fork_val(
                    a.cond,
                    lambda: self.ew(f, args[:i] + [a.a] + args[i + 1 :], keep),
                    lambda: self.ew(f, args[:i] + [a.b] + args[i + 1 :], keep),
                )
        args = [self.np_array(a) if isinstance(a, (TupleVal,)) or isinstance(a, Obj) and a.kind == "list" else a for a in args]
        if any(isinstance(a, Tensor) for a in args):
            return self.tensor_map(f, args)
        ts = [self.to_term(a) for a in args]
        kind = self.kinds(*args)
        r = self.wrap(kind, T.lift(f, *ts), *args)
        if keep and isinstance(r, Obj) and r.kind in ("da",):
            for a in args:
                if isinstance(a, Obj) and a.kind == "da":
                    self.upd(r, attrs=self.copy_dict(self.rec(a)["attrs"]))
                    break
        return r

    # ------------------------------------------------------------ tensors
    def np_array(self, v):
        """np.array(v)"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork_val(v.cond, lambda: self.np_array(v.a), lambda: self.np_array(v.b))
        if isinstance(v, Tensor):
            return v
        if isinstance(v, Obj) and v.kind in ("da", "nd", "series"):
            if v.kind == "da":
                self.log("force", ("array", self.to_term(v)))
            return self.new_arr("nd", self.to_term(v))
        if isinstance(v, Obj) and v.kind == "df":
            return self.new_arr("nd", self.to_term(v))
        if isinstance(v, (TupleVal,)) or isinstance(v, Obj) and v.kind == "list":
            ks = self.known_elems(v)
            if ks is not None and ks and len(ks) <= 400:
                ks = [self.np_array(k) if isinstance(k, (TupleVal, Obj)) else k for k in ks]
                r = self.stack0(ks)
                if r is not None:
                    return r
            t = self.to_term(v)
            return self.new_arr("nd", t if t.op == "list" else mk("list", t))
        t = self.to_term(v)
        if scalar_term(t, self.symtypes):
            return t
        return self.new_arr("nd", t)

    def stack0(self, ks):
        """Arrays stacked along a new first axis"""
        entries = {}
        sub = None
        parts = []
        for k in ks:
            if isinstance(k, Tensor):
                parts.append((k.axes, k.entries))
            elif isinstance(k, Obj) and k.kind in ("nd", "da", "series"):
                parts.append((("*",), {(): self.to_term(k)}))
            elif isinstance(k, Term):
                parts.append(((), {(): k}))
            else:
                return None
        for ax, _ in parts:
            if sub is None:
                sub = ax
            elif ax != sub:
                return None
        for i, (_, es) in enumerate(parts):
            for ix, e in es.items():
                entries[(i,) + ix] = e
        return Tensor((len(parts),) + tuple(sub), entries)

    def as_tensor(self, v):
        if isinstance(v, Tensor):
            return v
        if isinstance(v, Obj) and v.kind in ("nd", "da", "series"):
            return Tensor(("*",), {(): self.to_term(v)})
        if isinstance(v, (TupleVal,)) or isinstance(v, Obj) and v.kind == "list":
            r = self.np_array(v)
            return r if isinstance(r, Tensor) else self.as_tensor(r)
        return Tensor((), {(): self.to_term(v)})

    def untensor(self, t):
        if t.axes == ():
            return t.entries[()]
        if t.axes == ("*",):
            return self.new_arr("nd", t.entries[()])
        return t

    def tensor_term(self, t):
        if t.axes in ((), ("*",)):
            return t.entries[()]
        if all(isinstance(a, int) for a in t.axes):
            def build(prefix, axes):
                if not axes:
                    return t.entries[prefix]
                return mk("list", *[build(prefix + (i,), axes[1:]) for i in range(axes[0])])

            return build((), t.axes)
        return mk("tensor", tuple(t.axes), tuple(t.entries[k] for k in sorted(t.entries)))

    def tensor_map(self, f, args):
        ts = [self.as_tensor(a) for a in args]
        n = max(len(t.axes) for t in ts)
        axes = []
        for pos in range(n):
            ax = 1
            for t in ts:
                p = pos - (n - len(t.axes))
                if p >= 0:
                    a = t.axes[p]
                    if a == 1:
                        continue
                    if ax != 1 and ax != a:
                        return self.unknown("shapes of array operands")
                    ax = a
            axes.append(ax)
        known = [i for i, a in enumerate(axes) if isinstance(a, int)]
        entries = {}
        for ix in itertools.product(*[range(axes[i]) for i in known]):
            full = dict(zip(known, ix))
            vals = []
            for t in ts:
                off = n - len(t.axes)
                key = tuple(
                    (0 if a == 1 else full.get(p + off, 0)) for p, a in enumerate(t.axes) if isinstance(a, int)
                )
                vals.append(t.entries[key])
            entries[ix] = T.lift(f, *vals)
        return self.untensor(Tensor(axes, entries))

    def tensor_binop(self, op, a, b):
        return self.tensor_map(lambda x, y: self.arith(op, x, y), [a, b])

    def tensor_transpose(self, t, perm):
        known_pos = [i for i, a in enumerate(t.axes) if isinstance(a, int)]
        axes = tuple(t.axes[p] for p in perm)
        entries = {}
        for ix, e in t.entries.items():
            full = dict(zip(known_pos, ix))
            entries[tuple(full[p] for p in perm if p in full)] = e
        return Tensor(axes, entries)

    def tensor_index(self, t, axis, i):
        known_pos = [p for p, a in enumerate(t.axes) if isinstance(a, int)]
        j = known_pos.index(axis)
        if i < 0:
            i += t.axes[axis]
        if not 0 <= i < t.axes[axis]:
            return self.unknown("index out of range")
        entries = {ix[:j] + ix[j + 1 :]: e for ix, e in t.entries.items() if ix[j] == i}
        return self.untensor(Tensor(t.axes[:axis] + t.axes[axis + 1 :], entries))

    def tensor_getitem(self, t, k):
        ks = list(k.items) if isinstance(k, TupleVal) else [k]
        ks = [self.to_term(x) for x in ks]
        if len(ks) == 1 and ks[0].op == "tuple":
            ks = list(ks[0].args)
        if T.ELLIPSIS in ks:
            i = ks.index(T.ELLIPSIS)
            real = sum(1 for x in ks if x is not NONE and x is not T.ELLIPSIS)
            ks = ks[:i] + [SLICE_ALL] * (len(t.axes) - real) + ks[i + 1 :]
        cur = t
        axis = 0
        for x in ks:
            if not isinstance(cur, Tensor):
                cur = self.as_tensor(cur)
            if x is NONE:
                pos = [p for p, a in enumerate(cur.axes) if isinstance(a, int)]
                j = sum(1 for p in pos if p < axis)
                cur = Tensor(cur.axes[:axis] + (1,) + cur.axes[axis:], {ix[:j] + (0,) + ix[j:]: e for ix, e in cur.entries.items()})
                axis += 1
            elif x is SLICE_ALL:
                axis += 1
            elif x.op == "num" and x.args[0].denominator == 1 and axis < len(cur.axes) and isinstance(cur.axes[axis], int):
                cur = self.tensor_index(cur, axis, int(x.args[0]))
                if isinstance(cur, Term) and cur.op == "unknown":
                    return cur
            elif x.op == "slice" and axis < len(cur.axes) and isinstance(cur.axes[axis], int) and all(y.op in ("none", "num") for y in x.args):
                s = slice(*[None if y is NONE else int(y.args[0]) for y in x.args])
                sel = list(range(cur.axes[axis]))[s]
                pos = [p for p, a in enumerate(cur.axes) if isinstance(a, int)]
                j = pos.index(axis)
                entries = {}
                for ix, e in cur.entries.items():
                    if ix[j] in sel:
                        entries[ix[:j] + (sel.index(ix[j]),) + ix[j + 1 :]] = e
                cur = Tensor(cur.axes[:axis] + (len(sel),) + cur.axes[axis + 1 :], entries)
                axis += 1
            elif axis < len(cur.axes) and cur.axes[axis] == "*":
                cur = Tensor(cur.axes, {ix: self.norm_index(e, x) for ix, e in cur.entries.items()})
                axis += 1
            else:
                return self.norm_index(self.tensor_term(t), self.to_term(k))
        return self.untensor(cur) if isinstance(cur, Tensor) else cur

    def tensor_reduce(self, name, t, axis):
        """Sum (or the like) over axes of known length"""
        n = len(t.axes)
        if axis is NONE:
            axs = list(range(n))
        else:
            axs = [axis] if axis.op == "num" else list(axis.args)
            axs = [int(a.args[0]) % n for a in axs]
        if any(not isinstance(t.axes[a], int) for a in axs):
            if axs == list(range(n)) or not any(isinstance(t.axes[a], int) for a in axs):
                return None
            return None
        pos = [p for p, a in enumerate(t.axes) if isinstance(a, int)]
        entries = {}
        for ix, e in t.entries.items():
            key = tuple(i for p, i in zip(pos, ix) if p not in axs)
            entries.setdefault(key, []).append(e)
        cnt = 1
        for a in axs:
            cnt *= t.axes[a]
        out = {}
        for k, es in entries.items():
            if name in ("sum", "mean", "nansum", "nanmean"):
                s = ZERO
                for e in es:
                    s = T.add(s, e)
                out[k] = T.div(s, num(cnt)) if name.endswith("mean") else s
            elif name == "prod":
                s = ONE
                for e in es:
                    s = T.mul(s, e)
                out[k] = s
            elif name in ("min", "max"):
                out[k] = T.lift(lambda *y: T.minmax(name, y), *es)
            else:
                return None
        return self.untensor(Tensor([a for p, a in enumerate(t.axes) if p not in axs], out))

    def tensor_reshape(self, t, shape):
        if shape is None or any(not isinstance(a, int) for a in t.axes):
            return None
        n = len(t.entries)
        shape = list(shape)
        if -1 in shape:
            k = 1
            for s in shape:
                if s != -1:
                    k *= s
            shape[shape.index(-1)] = n // k
        flat = [t.entries[k] for k in sorted(t.entries)]
        idx = list(itertools.product(*[range(s) for s in shape]))
        if len(idx) != n:
            return None
        return Tensor(shape, dict(zip(idx, flat)))

    def tensor_method(self, t, name, args, kw):
        if name in ("sum", "mean", "prod", "min", "max"):
            r = self.tensor_reduce(name, t, self.axis_arg(args, kw, 0))
            if r is not None:
                return r
            return self.arr_method(self.new_arr("nd", self.tensor_term(t)), name, args, kw)
        if name == "reshape":
            shape = self.shape_arg(args)
            r = self.tensor_reshape(t, shape)
            if r is not None:
                return r
        if name in ("copy", "astype", "__array__", "view"):
            return t
        if name == "transpose":
            perm = self.shape_arg(args) if args else tuple(reversed(range(len(t.axes))))
            if perm is not None:
                return self.tensor_transpose(t, perm)
        if name == "swapaxes":
            return self.np_swapaxes(t, args)
        if name in ("flatten", "ravel"):
            r = self.tensor_reshape(t, (-1,))
            if r is not None:
                return r
        if name == "tolist":
            return self.tensor_list(t)
        if name == "dot":
            return self.np_dot(t, args[0])
        return self.arr_method(self.new_arr("nd", self.tensor_term(t)), name, args, kw)

    def tensor_list(self, t):
        if isinstance(t, Tensor) and t.axes and isinstance(t.axes[0], int):
            return self.new_list([self.tensor_list(self.tensor_index(t, 0, i)) for i in range(t.axes[0])])
        return t

    def axis_arg(self, args, kw, i):
        v = self.arg(args, kw, i, "axis")
        return NONE if v is None else self.to_term(v)

    def shape_arg(self, args):
        if len(args) == 1:
            t = self.to_term(args[0])
            ts = list(t.args) if t.op in ("tuple", "list") else [t]
        else:
            ts = [self.to_term(a) for a in args]
        if all(x.op == "num" for x in ts):
            return tuple(int(x.args[0]) for x in ts)
        return None

    def np_swapaxes(self, t, args):
        a, b = [self.to_term(x) for x in args[:2]]
        if isinstance(t, Tensor) and a.op == "num" and b.op == "num":
            n = len(t.axes)
            i, j = int(a.args[0]) % n, int(b.args[0]) % n
            perm = list(range(n))
            perm[i], perm[j] = perm[j], perm[i]
            return self.tensor_transpose(t, tuple(perm))
        return self.new_arr("nd", mk("swapaxes", self.to_term(t), a, b))

    def np_dot(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        ta, tb = self.to_term(a), self.to_term(b)
        if isinstance(a, Tensor) and isinstance(b, Tensor) and all(isinstance(x, int) for x in a.axes + b.axes) and len(b.axes) == 1 and a.axes and a.axes[-1] == b.axes[0]:
            prod = self.tensor_map(T.mul, [a, b])
            r = self.tensor_reduce("sum", prod, num(len(a.axes) - 1))
            if r is not None:
                return r
        if scalar_term(ta, self.symtypes) or scalar_term(tb, self.symtypes):
            return self.binop("Mult", a, b)
        kind = "nd" if self.kinds(a, b) in (None, "nd") else self.kinds(a, b)
        return self.new_arr(kind if kind in ("nd", "da") else "nd", mk("npdot", ta, tb))

    def axis_reduce(self, name, x, axis, extras=()):
        """numpy-style reduction"""
        return ops.reduce(name, x, ALL if axis is NONE else mk("axis", axis), extras)


def _u(op):
    return lambda I, a, kw: NotImplemented if len(a) > 1 or kw else I.ew(lambda x: ops.unary(op, x), a)


for _op in UNARY:
    F["numpy." + _op] = _u(_op)
    F["math." + _op] = _u(_op)
    F["xarray.ufuncs." + _op] = _u(_op)
F["math.atan"] = F["numpy.arctan"]


def _e(*names):
    def deco(f):
        for n in names:
            F[n] = lambda I, a, kw: NotImplemented if (set(kw) - {"dtype"}) else I.ew(f, a)
        return f

    return deco


_e("numpy.abs")(T.absval)
_e("numpy.radians", "math.radians")(lambda x: T.mul(x, T.div(T.PI, num(180))))
_e("numpy.degrees", "math.degrees")(lambda x: T.mul(x, T.div(num(180), T.PI)))
_e("numpy.square")(lambda x: T.mul(x, x))
_e("numpy.negative")(T.neg)
_e("numpy.positive")(lambda x: x)
_e("numpy.reciprocal")(T.inv)
_e("numpy.isnan", "math.isnan", "pandas.isnull", "pandas.isna")(ops.isnull)
_e("pandas.notnull", "pandas.notna")(lambda x: not_(ops.isnull(x)))
_e("numpy.isfinite", "math.isfinite")(lambda x: not_(ops.isnull(x)))
_e("numpy.isreal")(lambda x: TRUE)
_e("numpy.add")(T.add)
_e("numpy.subtract")(T.sub)
_e("numpy.multiply")(T.mul)
_e("numpy.divide")(T.div)
_e("numpy.power", "numpy.float_power")(T.power)
_e("numpy.minimum")(lambda x, y: T.minmax("min", [x, y]))
_e("numpy.maximum")(lambda x, y: T.minmax("max", [x, y]))
_e("numpy.fmin")(lambda x, y: mk("fmin", *sorted((x, y), key=lambda t: t.id)))
_e("numpy.fmax")(lambda x, y: mk("fmax", *sorted((x, y), key=lambda t: t.id)))
_e("numpy.arctan2", "math.atan2")(lambda x, y: mk("arctan2", x, y))
_e("numpy.hypot", "math.hypot")(lambda x, y: ops.unary("sqrt", T.add(T.mul(x, x), T.mul(y, y))))
_e("numpy.log1p", "math.log1p")(lambda x: ops.unary("log", T.add(ONE, x)))
_e("numpy.expm1")(lambda x: T.sub(ops.unary("exp", x), ONE))
_e("numpy.log10", "math.log10")(lambda x: T.div(ops.unary("log", x), mk("log", num(10))))
_e("numpy.log2")(lambda x: T.div(ops.unary("log", x), mk("log", num(2))))
_e("numpy.less")(lt)
_e("numpy.less_equal")(le)
_e("numpy.greater")(lambda x, y: lt(y, x))
_e("numpy.greater_equal")(lambda x, y: le(y, x))
_e("numpy.equal")(eq)
_e("numpy.not_equal")(lambda x, y: not_(eq(x, y)))
_e("numpy.logical_and", "numpy.bitwise_and")(lambda x, y: and_(truth(x), truth(y)))
_e("numpy.logical_or", "numpy.bitwise_or")(lambda x, y: or_(truth(x), truth(y)))
_e("numpy.logical_not", "numpy.invert")(lambda x: not_(truth(x)))
_e("numpy.mod", "numpy.remainder", "math.fmod")(lambda x, y: mk("mod", x, y))
_e("numpy.floor_divide")(lambda x, y: mk("floordiv", x, y))
_e("numpy.copysign")(lambda x, y: mk("copysign", x, y))


@fn("numpy.round", "numpy.around")
def _round(I, a, kw):
    d = I.targ(a, kw, 1, "decimals", I.targ([], kw, None, "ndigits", ZERO))
    return I.ew(lambda x: mk("round", x, d), a[:1])


@fn("numpy.nan_to_num")
def _n2n(I, a, kw):
    v = I.targ(a, kw, 2, "nan", ZERO)
    return I.ew(lambda x: ops.fillna(x, v), a[:1])


@fn("numpy.clip")
def _clip(I, a, kw):
    lo = I.targ(a, kw, 1, "a_min", I.targ([], kw, None, "min"))
    hi = I.targ(a, kw, 2, "a_max", I.targ([], kw, None, "max"))
    return I.ew(lambda x: clip_term(x, lo, hi), a[:1])


def clip_term(x, lo, hi):
    if lo is not NONE:
        x = T.lift(lambda p, q: T.minmax("max", [p, q]), x, lo)
    if hi is not NONE:
        x = T.lift(lambda p, q: T.minmax("min", [p, q]), x, hi)
    return x


@fn("numpy.where")
def _where(I, a, kw):
    if len(a) == 3:
        c = I.resolve(a[0])
        if isinstance(c, Obj) and c.kind in ("list", "nd") or isinstance(c, Term):
            t = I.to_term(c)
            x, y = (I.to_term(v) for v in a[1:])
            if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each" and t.args[0].args[2] is TRUE and x.op == y.op == "num":
                # one value per element
                src, h, _, v = t.args[0].args
                return I.new_arr("nd", mk("list", mk("each", src, h, TRUE, T.ite(truth(v), x, y))))
        return I.ew(lambda c, x, y: T.where(T.elem_truth(c), x, y), [I.cond_arr(x) for x in a], keep=False)
    return NotImplemented


@fn("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.ma.filled", "numpy.squeeze")
def _array(I, a, kw):
    dt = I.arg([], kw, None, "dtype")
    r = I.np_array(a[0])
    if dt is not None:
        return I.astype(r, I.to_term(dt))
    return r


@fn("numpy.float64", "numpy.double")
def _f64(I, a, kw):
    return F["builtins.float"](I, a, kw) if not isinstance(a[0], Obj) else a[0]


@fn("numpy.float32", "numpy.int64", "numpy.int32", "numpy.float16")
def _f32(I, a, kw):
    return I.ew(lambda x: mk("astype", x, st("narrow")), a[:1])


@fn("numpy.ones", "numpy.zeros", "numpy.full", "numpy.empty")
def _filled(I, a, kw):
    return NotImplemented


def _const_array(value):
    def f(I, a, kw):
        shape = I.targ(a, kw, 0, "shape")
        v = value if value is not None else I.targ(a, kw, 1, "fill_value")
        if shape.op == "tuple" and len(shape.args) == 1:
            shape = shape.args[0]
        sh = shape.args if shape.op == "tuple" else (shape,)
        if all(s.op == "num" for s in sh):
            ax = tuple(int(s.args[0]) for s in sh)
            n = 1
            for x in ax:
                n *= x
            if 0 < n <= 64:
                return Tensor(ax, {ix: v for ix in itertools.product(*[range(k) for k in ax])})
        return I.new_arr("nd", T.mul(v, mk("ones", shape)))

    return f


F["numpy.ones"] = _const_array(ONE)
F["numpy.zeros"] = _const_array(ZERO)
F["numpy.full"] = _const_array(None)


@fn("numpy.empty")
def _empty(I, a, kw):
    return I.new_arr("nd", mk("uninitialised", I.to_term(a[0])))


def like_term(t, v):
    return T.mul(v, mk("ones", mk("attr", mk("bcast", *ops.sources(t)) if ops.sources(t) else t, "shape")))


@fn("numpy.ones_like", "numpy.zeros_like", "numpy.full_like", "numpy.empty_like")
def _like(I, a, kw):
    return NotImplemented


def _np_like(value):
    def f(I, a, kw):
        v = value if value is not None else I.targ(a, kw, 1, "fill_value")
        x = a[0]
        if isinstance(x, (Tensor,)):
            return Tensor(x.axes, {k: v for k in x.entries})
        if not isinstance(x, Obj):
            return v
        if v.op == "num" and v.args[0].denominator != 1 and kw.get("dtype") is None:
            t = I.to_term(x)
            if t.op in ("sym", "item", "isel", "sel"):
                # takes the data type of its input, which may be an integer one
                v = mk("castlike", v, t)
        if x.kind == "da":
            return I.arr_like(x, like_term(I.to_term(x), v), keep=True)
        return I.new_arr("nd", like_term(I.to_term(x), v))

    return f


for _n, _v in (("ones", ONE), ("zeros", ZERO), ("full", None)):
    F[f"numpy.{_n}_like"] = _np_like(_v)
    F[f"xarray.{_n}_like"] = _np_like(_v)
    F[f"dask.array.{_n}"] = F[f"numpy.{_n}"]


@fn("numpy.arange")
def _arange(I, a, kw):
    ts = [I.to_term(x) for x in a]
    if len(ts) == 1:
        ts = [ZERO] + ts
    if len(ts) == 2:
        ts.append(ONE)
    if all(t.op == "num" for t in ts):
        lo, hi, stp = [t.args[0] for t in ts]
        out = []
        x = lo
        while (x < hi if stp > 0 else x > hi) and len(out) < 400:
            out.append(num(x))
            x += stp
        if out:
            return Tensor((len(out),), {(i,): v for i, v in enumerate(out)})
    return I.new_arr("nd", mk("arange", *ts))


@fn("numpy.linspace")
def _linspace(I, a, kw):
    n = I.targ(a, kw, 2, "num", num(50))
    lo, hi = I.to_term(a[0]), I.to_term(a[1])
    if n.op == "num" and n.args[0] > 1 and not (set(kw) - {"num"}):
        k = int(n.args[0])
        stp = T.div(T.sub(hi, lo), num(k - 1))
        return Tensor((k,), {(i,): T.add(lo, T.mul(num(i), stp)) for i in range(k)})
    return I.new_arr("nd", mk("linspace", lo, hi, n, I.kw_terms({k: v for k, v in kw.items() if k != "num"})))


REDUCERS = {
    "numpy.sum": ("sum", ("np",)), "numpy.nansum": ("sum", ()), "numpy.mean": ("mean", ("np",)), "numpy.nanmean": ("mean", ()),
    "numpy.prod": ("prod", ()), "numpy.std": ("std", ("np",)), "numpy.var": ("var", ("np",)), "numpy.min": ("min", ("np",)),
    "numpy.max": ("max", ("np",)), "numpy.amin": ("min", ("np",)), "numpy.amax": ("max", ("np",)), "numpy.nanmin": ("min", ()), "numpy.nanmax": ("max", ()),
    "numpy.median": ("median", ("np",)), "numpy.average": ("mean", ("np",)), "numpy.nanstd": ("std", ()), "numpy.ptp": ("ptp", ("np",)),
}


def _red(name, extras):
    def f(I, a, kw):
        v = a[0]
        if isinstance(v, (TupleVal,)) or isinstance(v, Obj) and v.kind == "list":
            v = I.np_array(v)
        if isinstance(v, Tensor):
            r = I.tensor_reduce(name, v, I.axis_arg(a, kw, 1))
            if r is not None:
                return r
            v = I.new_arr("nd", I.tensor_term(v))
        if set(kw) - {"axis"}:
            return NotImplemented
        if isinstance(v, Obj) and v.kind in ("da", "ds"):
            return I.call_method(v, name, [], {"axis": kw["axis"]} if "axis" in kw else ({"axis": a[1]} if len(a) > 1 else {}))
        if isinstance(v, Term) and v.op == "item" and name == "prod":
            return mk("prod", v)
        t = I.to_term(v)
        r = I.axis_reduce(name, t, I.axis_arg(a, kw, 1))
        return I.new_arr("nd", r) if isinstance(v, Obj) and I.axis_arg(a, kw, 1) is not NONE else r

    return f


for _n, (_r, _x) in REDUCERS.items():
    F[_n] = _red(_r, _x)


def _bool_red(conj):
    def f(I, a, kw):
        v = a[0]
        if isinstance(v, (TupleVal,)) or isinstance(v, Obj) and v.kind == "list":
            ks = I.known_elems(v)
            if ks is not None:
                r = [I.truthy(k) for k in ks]
                return and_(TRUE, *r) if conj else or_(FALSE, *r)
        return I.bool_reduce(v, conj, [])

    return f


F["numpy.all"] = _bool_red(True)
F["numpy.any"] = _bool_red(False)


@fn("numpy.cumsum", "numpy.nancumsum")
def _cumsum(I, a, kw):
    t = I.to_term(I.np_array(a[0]) if not isinstance(a[0], Obj) else a[0])
    return I.wrap(I.kinds(a[0]) or "nd", cumsum_term(t, I.axis_arg(a, kw, 1)), a[0])


def cumsum_term(t, axis):
    def f(t):
        k, y = ops.split_scalar(t)
        r = mk("cumsum", y, axis)
        return T.mul(k, r) if k is not ONE else r

    return T.lift(f, t)


T.NORMAL["cumsum"] = cumsum_term


@fn("numpy.dot", "numpy.matmul", "numpy.inner")
def _dot(I, a, kw):
    return I.np_dot(a[0], a[1])


@fn("numpy.outer")
def _outer(I, a, kw):
    x, y = I.to_term(a[0]), I.to_term(a[1])
    return I.new_arr("nd", T.mul(I.onaxis(x, 1), y))


@fn("numpy.diff", "numpy.ediff1d")
def _diff(I, a, kw):
    if kw or len(a) > 1:
        return NotImplemented
    hi = I.getitem(a[0], mk("slice", ONE, NONE, NONE))
    lo = I.getitem(a[0], mk("slice", NONE, num(-1), NONE))
    return I.binop("Sub", hi, lo)


@fn("numpy.meshgrid")
def _meshgrid(I, a, kw):
    if len(a) != 2:
        return NotImplemented
    ix = I.targ([], kw, None, "indexing", st("xy"))
    ka, kb = I.np_array(a[0]), I.np_array(a[1])
    if isinstance(ka, Tensor) and isinstance(kb, Tensor):
        n, m = ka.axes[0], kb.axes[0]
        x = Tensor((m, n), {(i, j): ka.entries[(j,)] for i in range(m) for j in range(n)})
        y = Tensor((m, n), {(i, j): kb.entries[(i,)] for i in range(m) for j in range(n)})
        if ix is st("ij"):
            x, y = I.tensor_transpose(x, (1, 0)), I.tensor_transpose(y, (1, 0))
        return TupleVal([x, y])
    x, y = I.to_term(a[0]), I.to_term(a[1])
    inner, outer = ("inner", "outer") if ix is not st("ij") else ("outer", "inner")
    return TupleVal([I.new_arr("nd", mk("grid2", x, inner, y)), I.new_arr("nd", mk("grid2", y, outer, x))])


@fn("numpy.tile")
def _tile(I, a, kw):
    v = a[0]
    reps = I.shape_arg([I.arg(a, kw, 1, "reps")])
    if isinstance(v, Tensor) and reps is not None:
        t = v
        while len(t.axes) < len(reps):
            t = Tensor((1,) + t.axes, {(0,) + ix: e for ix, e in t.entries.items()})
        reps = (1,) * (len(t.axes) - len(reps)) + tuple(reps)
        known = [p for p, ax in enumerate(t.axes) if isinstance(ax, int)]
        if all(reps[p] == 1 for p, ax in enumerate(t.axes) if not isinstance(ax, int)):
            axes = tuple(ax * reps[p] if isinstance(ax, int) else ax for p, ax in enumerate(t.axes))
            entries = {}
            for ix in itertools.product(*[range(axes[p]) for p in known]):
                entries[ix] = t.entries[tuple(i % t.axes[p] for i, p in zip(ix, known))]
            return Tensor(axes, entries)
    return I.new_arr("nd", mk("call", "numpy.tile", (I.to_term(v), I.targ(a, kw, 1, "reps")), ()))


@fn("numpy.swapaxes")
def _swap(I, a, kw):
    return I.np_swapaxes(a[0], a[1:])


@fn("numpy.transpose")
def _transpose(I, a, kw):
    return I.call_method(a[0], "transpose", a[1:], kw)


@fn("numpy.moveaxis")
def _moveaxis(I, a, kw):
    v = a[0]
    s, d = I.targ(a, kw, 1, "source"), I.targ(a, kw, 2, "destination")
    if isinstance(v, Tensor) and s.op == "num" and d.op == "num":
        n = len(v.axes)
        perm = list(range(n))
        x = perm.pop(int(s.args[0]) % n)
        perm.insert(int(d.args[0]) % n, x)
        return I.tensor_transpose(v, tuple(perm))
    return I.new_arr("nd", mk("moveaxis", I.to_term(v), s, d))


@fn("numpy.reshape")
def _reshape(I, a, kw):
    return I.call_method(I.np_array(a[0]), "reshape", [I.arg(a, kw, 1, "newshape")], {})


@fn("numpy.ravel")
def _ravel(I, a, kw):
    return I.call_method(I.np_array(a[0]), "ravel", [], {})


@fn("numpy.stack", "numpy.vstack", "numpy.row_stack")
def _stack(I, a, kw):
    ax = I.axis_arg(a, kw, 1)
    ks = I.known_elems(a[0])
    if ks is not None:
        ks = [I.np_array(k) for k in ks]
        r = I.stack0(ks)
        if r is not None:
            if ax.op == "num" and int(ax.args[0]) % len(r.axes) != 0:
                n = len(r.axes)
                k = int(ax.args[0]) % n
                perm = list(range(1, n))
                perm.insert(k, 0)
                return I.tensor_transpose(r, tuple(perm))
            return r
    return I.new_arr("nd", mk("call", "numpy.stack", (I.to_term(a[0]),), I.kw_terms(kw)))


@fn("numpy.column_stack")
def _cstack(I, a, kw):
    r = _stack(I, a, {})
    if isinstance(r, Tensor):
        return I.tensor_transpose(r, tuple(reversed(range(len(r.axes)))))
    return I.new_arr("nd", mk("call", "numpy.column_stack", (I.to_term(a[0]),), ()))


@fn("numpy.concatenate", "numpy.hstack", "numpy.append")
def _concat(I, a, kw):
    parts = I.known_elems(a[0]) if len(a) == 1 or not isinstance(a[1], Obj) else a[:2]
    if parts is not None and not (set(kw) - {"axis"}):
        ks = [I.np_array(p) for p in parts]
        if all(isinstance(k, Tensor) and len(k.axes) == 1 and isinstance(k.axes[0], int) for k in ks):
            vals = [k.entries[(i,)] for k in ks for i in range(k.axes[0])]
            return Tensor((len(vals),), {(i,): v for i, v in enumerate(vals)})
        return I.new_arr("nd", mk("npconcat", tuple(I.to_term(k) for k in ks), I.axis_arg([], kw, None)))
    return NotImplemented


@fn("numpy.linalg.pinv")
def _pinv(I, a, kw):
    return I.new_arr("nd", mk("pinv", I.to_term(a[0]), I.kw_terms({**kw, **({"rcond": a[1]} if len(a) > 1 else {})})))


@fn("numpy.linalg.lstsq")
def _lstsq(I, a, kw):
    A, b = I.to_term(a[0]), I.to_term(a[1])
    t = mk("lstsq", A, b)
    return TupleVal([I.new_arr("nd", t)] + [mk("item", t, num(i)) for i in (1, 2, 3)])


@fn("numpy.linalg.inv")
def _linv(I, a, kw):
    return I.new_arr("nd", mk("matinv", I.to_term(a[0])))


@fn("numpy.apply_along_axis")
def _aaa(I, a, kw):
    kw = dict(kw)
    f = kw.pop("func1d", None) or a[0]
    rest = list(a[1:]) if "func1d" not in kw else list(a)
    axis = kw.pop("axis", None)
    if axis is None:
        axis = rest.pop(0)
    arr = kw.pop("arr", None)
    if arr is None:
        arr = rest.pop(0)
    t = I.to_term(arr)
    ax = I.to_term(axis)
    lane = I.new_arr("nd", mk("lane", t, ax))
    r = I.call(f, [lane] + rest, kw)
    return I.new_arr("nd", mk("unlane", t, ax, I.to_term(r)))


@fn("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState")
def _rng(I, a, kw):
    s = I.targ(a, kw, 0, "seed")
    if s is NONE:
        I.log("nondet", "random numbers without a seed")
    elif isinstance(s, Term):
        def seed_ok(t):
            if t is NONE:
                return False
            return True

        if not all(seed_ok(x) for x in T.leaves(s)):
            I.log("nondet", "random numbers without a seed")
    return I.new("lib", term=mk("rng", s), cls="rng", count=ZERO, origin=EMPTY)


@fn("numpy.polynomial.polynomial.polyval2d")
def _pv2(I, a, kw):
    x, y, c = a[0], a[1], I.as_tensor(a[2])
    if len(c.axes) != 2 or any(not isinstance(k, int) for k in c.axes):
        return NotImplemented

    def f(p, q):
        r = ZERO
        for (i, j), e in c.entries.items():
            r = T.add(r, T.mul(e, T.mul(T.power(p, num(i)), T.power(q, num(j)))))
        return r

    return I.ew(f, [x, y])


@fn("numpy.polynomial.polynomial.polyval", "numpy.polyval")
def _pv(I, a, kw):
    return NotImplemented


@fn("numpy.einsum")
def _einsum(I, a, kw):
    spec = I.to_term(a[0])
    if spec.op != "str" or "->" not in spec.args[0] or "." in spec.args[0]:
        return NotImplemented
    ins, out = spec.args[0].replace(" ", "").split("->")
    ins = ins.split(",")
    ts = [I.as_tensor(x) for x in a[1:]]
    if len(ins) != len(ts) or any(len(i) != len(t.axes) for i, t in zip(ins, ts)):
        return NotImplemented
    size = {}
    for i, t in zip(ins, ts):
        for l, ax in zip(i, t.axes):
            if size.setdefault(l, ax) != ax:
                return NotImplemented
    letters = sorted(l for l in size if isinstance(size[l], int))
    if any(not isinstance(size[l], int) and l not in out for l in size):
        return NotImplemented
    entries = {}
    for ix in itertools.product(*[range(size[l]) for l in letters]):
        full = dict(zip(letters, ix))
        p = ONE
        for i, t in zip(ins, ts):
            p = T.mul(p, t.entries[tuple(full[l] for l in i if l in full)])
        key = tuple(full[l] for l in out if l in full)
        entries[key] = T.add(entries.get(key, ZERO), p)
    return I.untensor(Tensor([size[l] for l in out], entries))


@fn("numpy.shape")
def _shape(I, a, kw):
    return I.getattr_(a[0], "shape")


@fn("numpy.ndim")
def _ndim(I, a, kw):
    return I.getattr_(a[0], "ndim") if isinstance(a[0], (Obj, Tensor)) else ZERO


@fn("numpy.size")
def _size(I, a, kw):
    return I.getattr_(a[0], "size") if isinstance(a[0], Obj) else mk("attr", I.to_term(a[0]), "size")


@fn("numpy.isscalar")
def _isscalar(I, a, kw):
    return TRUE if isinstance(a[0], Term) and scalar_term(a[0], I.symtypes) else FALSE


@fn("numpy.isclose", "numpy.allclose")
def _isclose(I, a, kw):
    return mk("truth", mk("call", "numpy.isclose", tuple(I.to_term(x) for x in a), I.kw_terms(kw)))


@fn("numpy.expand_dims")
def _expand(I, a, kw):
    ax = I.axis_arg(a, kw, 1)
    if isinstance(a[0], Obj) and ax.op == "num":
        if ax.args[0] in (1, -1):
            return I.getitem(a[0], TupleVal([SLICE_ALL, NONE]))
        if ax.args[0] == 0:
            return I.getitem(a[0], TupleVal([NONE, SLICE_ALL]))
    return NotImplemented


@fn("numpy.datetime64", "numpy.timedelta64", "numpy.dtype")
def _npt(I, a, kw):
    return mk("call", "numpy.time", tuple(I.to_term(x) for x in a), ())
