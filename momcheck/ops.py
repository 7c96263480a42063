"""Normal forms of the numerical operations on whole arrays."""
from . import terms as T
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, num, lift,
)

ALL = mk("alldims")
ODD = {"sin", "tan", "arctan", "arcsin", "sinh", "tanh", "arctanh", "arcsinh", "cbrt", "sign"}
EVEN = {"cos", "cosh"}
ELEMENTWISE = ODD | EVEN | {
    "sqrt", "exp", "log", "floor", "ceil", "trunc", "rint", "arccos", "abs", "where", "min", "max",
    "isnull", "lt", "le", "eq", "mod", "floordiv", "pow", "arctan2", "ite", "astype", "clipped", "inv", "eosfn",
}
# operations that change the arrangement or the labels of an array, not its values
LAYOUT = {"transpose", "squeeze", "chunk", "rename", "broadcast", "expand_dims", "resetcoords", "dropvars", "assign_coords", "named"}


def _neg_lead(t):
    """The leading coefficient of a polynomial is negative."""
    p = T.to_poly(t)
    if not p:
        return False
    c, _ = T._monic(p)
    return c < 0


def unary(op, x):
    def f(x):
        if T._masked(x):
            return T._unmask(lambda u, v: unary(op, u), x, ONE)
        if op == "log":
            return _log(x)
        if op == "sqrt":
            return T.power(x, num(T.Fraction(1, 2)))
        if op in ("floor", "ceil", "trunc", "rint") and x.op == "num":
            import math

            v = x.args[0]
            return num({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[op](v))
        if x is ZERO:
            if op in ("sin", "tan", "arctan", "arcsin", "sinh", "tanh", "sign"):
                return ZERO
            if op in ("cos", "exp", "cosh"):
                return ONE
        if op in ODD and _neg_lead(x):
            return T.neg(unary(op, T.neg(x)))
        if op in EVEN and _neg_lead(x):
            return unary(op, T.neg(x))
        return mk(op, x)

    return lift(f, x)


def _log(x):
    p = T.to_poly(x)
    if x is ONE:
        return ZERO
    if not p:
        return _log1(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and m and (c != 1 or len(m) > 1 or m[0][1] != 1 or m[0][0].op == "inv"):
            out = _log1(num(c))
            for at, e in m:
                if at.op == "inv":
                    out = T.sub(out, T.mul(num(e), _log(at.args[0])))
                else:
                    out = T.add(out, T.mul(num(e), _log(at)))
            return out
    else:
        cm = T._content(p)
        c, q = T._monic(p)
        if c > 0 and (c != 1 or cm):
            if cm:
                q = T._pmul(q, {T._mono_inv(cm): T.Fraction(1)})
            rest = T.from_poly(q)
            front = T.from_poly({cm: c})
            return T.add(_log(front) if cm or c != 1 else ZERO, mk("log", rest))
    return _log1(x)


def _log1(x):
    return ZERO if x is ONE else mk("log", x)


for _op in ODD | EVEN | {"exp", "log", "sqrt", "floor", "ceil", "trunc", "rint", "arccos"}:
    T.NORMAL[_op] = lambda x, _op=_op: unary(_op, x)


def isnull(x):
    """Elementwise missing-ness. Arithmetic is missing where an operand is."""

    def f(x):
        if x is NAN:
            return TRUE
        if x in NONNULL or x.op in ("isel", "item") and x.args[0] in NONNULL:
            return FALSE
        if x.op in ("num", "pi", "str", "bool", "ones", "len") or T.is_bool(x):
            return FALSE
        if x.op == "sym" and len(x.args) > 1 and x.args[1] in ("num", "int", "float", "bool", "str"):
            return FALSE
        if x.op == "where":
            return ite(x.args[0], isnull(x.args[1]), isnull(x.args[2]))
        if x.op == "poly":
            r = FALSE
            for c, m in x.args[0]:
                for a, e in m:
                    r = or_(r, isnull(a))
            return r
        if x.op in ("inv", "sin", "cos", "tan", "abs", "sqrt", "exp", "log", "arctan"):
            return isnull(x.args[0])
        if x.op in ("min", "max", "eosfn"):
            return or_(FALSE, *[isnull(a) for a in x.args if isinstance(a, Term)])
        if x.op == "reduce" and x.args[0] == "sum" and not x.args[3]:
            return FALSE
        if x.op in LAYOUT or x.op in ("isel", "item") and False:
            return mk("isnull", x)
        return mk("isnull", x)

    return lift(f, x)


T.NORMAL["isnull"] = isnull
# arrays that have no missing values (axes)
NONNULL = set()


def _no_missing(x, y):
    return or_(isnull(x), isnull(y)) is FALSE


def _mask_cond(c, x):
    n = not_(isnull(x))
    if n in (TRUE, FALSE):
        return c
    c = T.assume(c, n)
    m = {}
    for a in T.atoms_of(c):
        if a.op == "le" and T.and_(n, or_(isnull(a.args[0]), isnull(a.args[1]))) is FALSE:
            m[a] = a
    if not m:
        return c
    memo = {}

    def rec(t):
        if t not in memo:
            if t.op == "ite":
                memo[t] = ite(rec(t.args[0]), rec(t.args[1]), rec(t.args[2]))
            else:
                memo[t] = not_(T.lt(t.args[1], t.args[0])) if t in m else t
        return memo[t]

    return rec(c)


T.mask_cond[0] = _mask_cond
T.never_missing[0] = _no_missing


def anyof(c):
    """Some element satisfies c."""
    if c in (TRUE, FALSE):
        return c
    if c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE:
        a = c.args[0]
        if a.op in ("le", "lt") and or_(isnull(a.args[0]), isnull(a.args[1])) is FALSE:
            c = T.lt(a.args[1], a.args[0]) if a.op == "le" else T.le(a.args[1], a.args[0])
    return mk("anyof", c)


T.NORMAL["anyof"] = anyof


def fillna(x, v):
    return lift(lambda a, b: T.where(isnull(a), b, unmask(a)), x, v)


def unmask(a):
    """a, where it is only used where it is not missing"""
    while T._masked(a):
        a = a.args[1] if a.args[2] is NAN else a.args[2]
    return a


def scalar(t):
    """One number, whatever the shapes of the arrays."""
    if t.op in ("num", "pi", "len", "bound", "bv"):
        return True
    if t.op == "sym":
        return len(t.args) > 1 and t.args[1] in ("num", "int", "float", "bool")
    if t.op in ("inv", "sqrt", "sin", "cos", "abs", "log", "exp"):
        return scalar(t.args[0])
    if t.op in ("poly",):
        return all(scalar(a) for c, m in t.args[0] for a, e in m)
    if t.op in ("ite", "where"):
        return scalar(t.args[1]) and scalar(t.args[2])
    if t.op in ("min", "max", "pow", "mod", "floordiv", "eosfn"):
        return all(scalar(a) for a in t.args if isinstance(a, Term))
    if t.op == "reduce":
        return t.args[2] is ALL
    return False


def split_scalar(x):
    """x = k * y with the scalar factor k pulled out of a polynomial."""
    if x.op != "poly":
        return ONE, x
    ms = x.args[0]
    if len(ms) == 1:
        c, m = ms[0]
        k = num(c)
        rest = ONE
        for a, e in m:
            p = T.power(a, num(e))
            if scalar(a):
                k = T.mul(k, p)
            else:
                rest = T.mul(rest, p)
        return k, rest
    p = T.to_poly(x)
    c, q = T._monic(p)
    k = num(c)
    # scalar atoms common to all monomials
    common = None
    for m in q:
        s = {(a, e) for a, e in m if scalar(a)}
        common = s if common is None else common & s
    if common:
        mono = T.ONE
        for a, e in common:
            mono = T.mul(mono, T.power(a, num(e)))
        k = T.mul(k, mono)
        return k, T.div(T.from_poly(q), mono)
    return k, T.from_poly(q)


LINEAR = {"sum", "mean", "integrate", "median"}
HOMOGENEOUS = {"std"}


def reduce(name, x, dims, extras=()):
    def f(x):
        if scalar(x) and name in ("mean", "min", "max", "median") or x is ZERO and name in ("sum", "std", "integrate"):
            return x
        if name == "sum" and T._masked(x) and not extras:
            c = x.args[0] if x.args[2] is NAN else not_(x.args[0])
            return reduce(name, T.where(c, unmask(x), ZERO), dims, extras)
        if name == "sum" and x.op == "where" and not extras and ZERO in x.args[1:]:
            # missing values count as zero anyway
            i = 1 if x.args[2] is ZERO else 2
            y = x.args[i]
            c = T.assume(x.args[0], not_(isnull(y)))
            k, y = split_scalar(y)
            z = T.where(c, y, ZERO) if i == 1 else T.where(c, ZERO, y)
            if z is not x:
                return T.mul(k, reduce(name, z, dims, extras))
        if name in LINEAR:
            k, y = split_scalar(x)
            if k is not ONE:
                return T.mul(k, reduce(name, y, dims, extras))
        return mk("reduce", name, x, dims, extras)

    return lift(f, x)


T.NORMAL["reduce"] = reduce


def pick_cond(g, c):
    """The condition on the elements that g picks, for a condition on each
    element; None if c has parts that are not understood."""
    if c is T.TRUE or c is T.FALSE:
        return c
    if c.op == "ite":
        ps = [pick_cond(g, a) for a in c.args]
        return None if None in ps else T.ite(*ps)
    if c.op == "isnull":
        return isnull(g(c.args[0]))
    if c.op in ("lt", "le", "eq") and any(not scalar(a) and not T.is_bool(a) for a in c.args):
        a, b = (x if scalar(x) else g(x) for x in c.args)
        return {"lt": T.lt, "le": T.le, "eq": T.eq}[c.op](a, b)
    if c.op in ("lt", "le", "eq") and all(scalar(a) for a in c.args):
        return c
    return None


def linear_op(op, x, *rest):
    """A linear operation on one array: the scalar factor is pulled out."""

    def f(x):
        if op in ("isel", "sel") and T.is_bool(x):
            c = pick_cond(lambda y: linear_op(op, y, *rest), x)
            if c is not None:
                return c
        k, y = split_scalar(x)
        if k is not ONE and y is not ONE:
            return T.mul(k, mk(op, y, *rest))
        return mk(op, x, *rest)

    return lift(f, x)


for _op in ("isel", "sel", "differentiate", "gridop"):
    T.NORMAL[_op] = lambda x, *rest, _op=_op: linear_op(_op, x, *rest)


def dims_of(t):
    """The dimensions of an array: those of the arrays it is computed from."""
    src = sources(t)
    if len(src) == 1:
        return mk("attr", src[0], "dims")
    if not src:
        return mk("attr", t, "dims")
    return mk("attr", mk("bcast", *src), "dims")


def every_dim(x, dims):
    """Whether dims are all the dimensions of x"""
    return dims.op == "setof" and dims.args[0].op == "attr" and dims.args[0].args[1] == "dims" and dims_of(dims.args[0].args[0]) is dims_of(x)


def sources(t):
    out = []
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ("num", "pi", "nan", "bool", "none", "str", "inf") or (x.op == "sym" and scalar(x)):
            return
        if x.op == "poly":
            for c, m in x.args[0]:
                for a, e in m:
                    walk(a)
            return
        if x.op in ELEMENTWISE and x.op != "ite":
            for a in x.args:
                if isinstance(a, Term):
                    walk(a)
            return
        if x.op == "bcast":
            for a in x.args:
                walk(a)
            return
        if scalar(x):
            return
        out.append(x)

    walk(t)
    return sorted(set(out), key=lambda q: q.id)


def _bcast(*xs):
    src = sorted({s for x in xs for s in sources(x)}, key=lambda q: q.id)
    if len(src) == 1:
        return src[0]
    return mk("bcast", *src)


T.NORMAL["bcast"] = _bcast


def len_of(t):
    def f(t):
        if t.op == "attr" and t.args[1] == "shape":
            return mk("len", mk("attr", t.args[0], "dims"))
        if t.op in ("tuple", "list", "set") and all(e.op not in ("gelem", "each") for e in t.args):
            return num(len(t.args)) if t.op != "set" or all(T.is_const(e) for e in t.args) else mk("len", t)
        if t.op == "str":
            return num(len(t.args[0]))
        if t.op == "range0":
            return t.args[0]
        if t.op == "list" and len(t.args) == 1 and t.args[0].op == "each" and t.args[0].args[2] is TRUE:
            return len_of(t.args[0].args[0])
        if t.op in ("dt",):
            return len_of(t.args[0])
        if t.op in ("aslist",):
            return len_of(t.args[0])
        if t.op == "ones" and isinstance(t.args[0], Term) and t.args[0].op != "tuple":
            return t.args[0]
        if t.op == "zeros_" and False:
            return t
        if t.op in ("cumsum",):
            return len_of(t.args[0])
        if t.op == "poly" or t.op in ELEMENTWISE:
            ls = {len_of(s) for s in sources(t)}
            if len(ls) == 1:
                return ls.pop()
        if t.op == "cftime_range" and t.args[2] is not NONE:
            return t.args[2]
        if t.op in ("asarray",):
            return len_of(t.args[0])
        if t.op == "item" and t.args[1].op == "slice":
            a, b, c = t.args[1].args
            if c is NONE and a is NONE and b.op == "num" and b.args[0] < 0:
                return T.add(len_of(t.args[0]), b)
            if c is NONE and b is NONE and a.op == "num" and a.args[0] > 0:
                return T.sub(len_of(t.args[0]), a)
        return mk("len", t)

    return lift(f, t)


T.NORMAL["len"] = len_of


def _eosfn(*args):
    n = [a for a in args if not isinstance(a, Term)]
    return lift(lambda *ts: mk("eosfn", *n, *ts), *[a for a in args if isinstance(a, Term)])


T.NORMAL["eosfn"] = _eosfn


# ------------------------------------------------------------- selections
def item(x, k):
    if x.op in ("tuple", "list") and k.op == "num" and not any(a.op in ("each", "star") for a in x.args):
        i = int(k.args[0])
        if -len(x.args) <= i < len(x.args):
            return x.args[i]
    if k.op in ("str", "sym") and x.op == "item" and x.args[1] is k and x.args[0].op != "attr":
        return x  # the coordinate of a coordinate is itself
    if T.is_bool(x) and k.op == "num":
        c = pick_cond(lambda y: item(y, k), x)
        if c is not None:
            return c
    if x.op == "cftime_range" and x.args[2].op == "num" and k.op == "num" and k.args[0] < 0:
        return mk("item", x, T.add(x.args[2], k))
    return mk("item", x, k)


def dates_list(t):
    """A vector of dates written out"""
    for x in T.subterms(t):
        if x.op == "cftime_range":
            n = len_of(t)
            if n.op == "num" and 0 < n.args[0] <= 120 and t.op in ("poly", "cftime_range", "item"):
                return mk("list", *[entry(t, i) for i in range(int(n.args[0]))])
            return t
    return t


def assign_coords(x, its):
    return mk("assign_coords", x, tuple((k, dates_list(v)) for k, v in its))


def rename(x, m):
    """Renaming a coordinate after or before it is assigned"""
    if x.op == "assign_coords" and m.op == "dict" and m.args[0] is NONE and not m.args[2] and not m.args[3]:
        to = dict(m.args[1]) if all(len(p) == 2 for p in m.args[1]) else None
        if to is not None and any(k in to for k, _ in x.args[1]):
            return mk("assign_coords", rename(x.args[0], m), tuple((to.get(k, k), v) for k, v in x.args[1]))
    return mk("rename", x, m)


T.NORMAL["assign_coords"] = assign_coords
T.NORMAL["rename"] = rename


def entry(t, i):
    """Entry number i of a vector"""
    if t.op == "cftime_range":
        return mk("item", t, T.num(i))
    if t.op == "item" and t.args[1].op == "slice":
        a = t.args[1].args[0]
        return entry(t.args[0], i + (int(a.args[0]) if a is not NONE else 0))
    if t.op == "poly":
        return T.rebuild(t, lambda x: x if x.op == "num" else entry(x, i))
    return item(t, T.num(i))


T.NORMAL["item"] = item
_BIND = ("each", "exists", "eachkv", "sumover", "last", "fold")


def drop_from_dataset(x, names):
    """Dropping some data variables is selecting the others"""
    if names.op == "set" and len(names.args) == 1 and names.args[0].op == "each":
        S, h, c, v = names.args[0].args
        if S is mk("attr", x, "data_vars") and v is mk("bound", h):
            return mk("item", x, mk("list", mk("each", S, h, T.not_(c), v)))
    return mk("dropds", x, names)


def binder(op, S, h, *body):
    """A binder, its variable numbered by what is left inside"""
    if S.op == "setof" and S.args[0].op == "attr":
        S = S.args[0]
    if op in ("each", "exists") and S.op == "attr" and S.args[1] in ("variables", "data_vars"):
        # the variables that are not coordinates; no dimension is the name of one
        b = mk("bound", h)
        x = S.args[0]
        co, di = (mk("in", b, mk("attr", x, n)) for n in ("coords", "dims"))
        if S.args[1] == "data_vars" or body[0] is not FALSE and T.restrict(body[0], co, True) is FALSE:
            S = mk("attr", x, "data_vars")
            body = tuple(T.restrict(T.restrict(t, co, False), di, False) if T.contains(t, lambda q: q is co or q is di) else t for t in body)
    if op == "exists" and body[0] is FALSE:
        return FALSE
    n = 1 + max((x.args[1] for t in body for x in T.subterms(t) if x.op in _BIND), default=0)
    if n != h:
        b = {mk("bound", h): mk("bound", n)}
        body = tuple(T.subst(t, b) for t in body)
    return mk(op, S, n, *body)


for _op in ("each", "exists", "eachkv", "sumover", "last"):
    T.NORMAL[_op] = lambda S, h, *body, _op=_op: binder(_op, S, h, *body)
# the index of a coordinate along itself is that of the array
T.NORMAL["index"] = lambda x, k: mk("index", x.args[0], k) if x.op == "item" and x.args[1] is k else mk("index", x, k)
