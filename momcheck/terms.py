"""Hash-consed value-graph nodes and their normal forms.

A node (Term) stands for the value of an expression.  Nodes are interned, so
that two expressions have the same node iff their normal forms agree:

* arithmetic is kept as a Laurent polynomial with exact rational coefficients
  over atomic nodes (and inverses of polynomials),
* conditions and gated values (phi nodes with their gate) are reduced ordered
  decision diagrams,
* everything else is an uninterpreted operator applied to nodes.
"""
from fractions import Fraction
from decimal import Decimal

MAX_POLY = 4000
MAX_LIFT = 96


class Term:
    __slots__ = ("op", "args", "id", "_sub")

    def __repr__(self):
        return pretty(self)


_table = {}
_count = [0]


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _count[0] += 1
        t.id = _count[0]
        t._sub = None
        _table[key] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
NAN = mk("nan")
INF = mk("inf")
PI = mk("pi")
ELLIPSIS = mk("ellipsis")
ABSENT = mk("absent")


def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, Fraction):
        return mk("num", v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return mk("num", Fraction(Decimal(repr(v))))
    raise TypeError(v)


ZERO = num(0)
ONE = num(1)


def st(v):
    return mk("str", v)


def const(v):
    if v is None:
        return NONE
    if v is Ellipsis:
        return ELLIPSIS
    if isinstance(v, (bool, int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return st(v)
    if isinstance(v, bytes):
        return mk("bytes", v)
    if isinstance(v, complex):
        return mk("complex", repr(v))
    if isinstance(v, tuple):
        return mk("tuple", *[const(x) for x in v])
    raise TypeError(v)


def is_const(t):
    return t.op in ("num", "str", "bool", "none", "bytes")


def pyval(t):
    """Python value of a constant node."""
    if t.op in ("num",):
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    if t.op in ("str", "bool", "bytes"):
        return t.args[0]
    if t.op == "none":
        return None
    raise ValueError(t)


def children(t):
    out = []

    def rec(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)

    for a in t.args:
        rec(a)
    return out


def subterms(t):
    """All nodes reachable from t (a frozenset, cached)."""
    if t._sub is not None:
        return t._sub
    stack = [t]
    # iterative post-order to stay clear of the recursion limit
    while stack:
        x = stack[-1]
        if x._sub is not None:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c._sub is None]
        if todo:
            stack.extend(todo)
            continue
        s = {x}
        for c in ch:
            s |= c._sub
        x._sub = frozenset(s)
        stack.pop()
    return t._sub


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def find(t, pred):
    return sorted((x for x in subterms(t) if pred(x)), key=lambda x: x.id)


def has_unknown(t):
    return contains(t, lambda x: x.op == "unknown")


# ----------------------------------------------------------------- booleans
BOOL_OPS = {
    "lt", "le", "eq", "in", "is", "isinstance", "truth", "isnull", "exists",
    "raised", "hasattr", "nonempty", "pathexists", "callable", "anyof", "dupcols",
}


def is_bool(t):
    if t.op == "bool" or t.op in BOOL_OPS:
        return True
    if t.op == "ite":
        r = _IS_BOOL.get(t.id)
        if r is None:
            r = _IS_BOOL[t.id] = is_bool(t.args[1]) and is_bool(t.args[2])
        return r
    return False


_IS_BOOL = {}
META = {
    "dims", "shape", "ndim", "size", "name", "attrs", "encoding", "dtype", "coords", "variables", "data_vars",
    "sizes", "indexes", "columns", "keys", "chunks", "calendar",
}
ARRAY_KINDS = {"da", "nd", "ds", "df", "series"}
_array = {}
_data = {}


def is_array(t):
    """t has elements (it is computed from arrays elementwise), as far as known"""
    r = _array.get(t)
    if r is None:
        if t.op == "sym":
            r = len(t.args) > 1 and t.args[1] in ARRAY_KINDS
        elif t.op == "attr":
            r = t.args[1] not in META and is_array(t.args[0])
        elif t.op == "item":
            r = is_array(t.args[0])
        elif t.op in ("anyof", "len", "in", "is", "isinstance", "exists", "hasattr", "nonempty", "str", "fmt", "func", "dims"):
            r = False
        elif t.op == "reduce" and t.args[2].op == "alldims":
            r = False
        else:
            r = any(is_array(c) for c in children(t))
        _array[t] = r
    return r


def is_data(v):
    """The condition v is decided elementwise, not once."""
    if v.op not in ("isnull", "truth", "lt", "le", "eq"):
        return False
    r = _data.get(v)
    if r is None:
        r = _data[v] = any(is_array(c) for c in children(v))
    return r


def order(v):
    """Order of the conditions in decision diagrams: gates before data."""
    return (is_data(v), v.id)


def _top(t):
    if t.op == "ite":
        return t.args[0]
    if t.op in BOOL_OPS:
        return t
    return None


def _cof(t, v, val):
    if t is v:
        return TRUE if val else FALSE
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return t


_ite_cache = {}


def ite(c, a, b):
    """if c then a else b, as a reduced ordered decision diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_cache.get(key)
    if r is not None:
        return r
    if not is_bool(c):
        c = truth(c)
        r = ite(c, a, b)
        _ite_cache[key] = r
        return r
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    v = min(tops, key=order)
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = v
    elif v.op == "eq" and lo.op == "str" and (hi, lo) in (v.args, v.args[::-1]):
        r = lo
    else:
        r = mk("ite", v, hi, lo)
    _ite_cache[key] = r
    return r


def not_(a):
    return ite(a if is_bool(a) else truth(a), FALSE, TRUE)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x if is_bool(x) else truth(x), FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x if is_bool(x) else truth(x))
    return r


def implies(a, b):
    return or_(not_(a), b)


def restrict(t, v, val):
    """Value of t when the condition atom v is known (also inside nodes)."""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x is v:
            r = TRUE if val else FALSE
        elif x.op == "ite":
            if x.args[0] is v:
                r = rec(x.args[1] if val else x.args[2])
            else:
                r = ite(rec(x.args[0]), rec(x.args[1]), rec(x.args[2]))
        else:
            r = rebuild(x, rec)
        memo[x] = r
        return r

    return rec(t)


def assume(t, cond):
    """Simplifies t under a condition that is a conjunction of literals
    (or any decision diagram: only the literals it implies are used)."""
    if cond is TRUE:
        return t
    for a in sorted((x for x in atoms_of(cond)), key=lambda x: x.id):
        if and_(cond, not_(a)) is FALSE:
            t = restrict(t, a, True)
        elif and_(cond, a) is FALSE:
            t = restrict(t, a, False)
    return t


def cofactor(f, c):
    """A condition that agrees with f wherever c holds, with as few atoms as
    c allows."""
    memo = {}

    def rec(f, c):
        if c is TRUE or c is FALSE or f is TRUE or f is FALSE:
            return f
        k = (f, c)
        r = memo.get(k)
        if r is None:
            v, w = _top(f), _top(c)
            if v is None or w is None:
                return f
            if v is not w and order(w) < order(v):
                r = rec(f, or_(_cof(c, w, True), _cof(c, w, False)))
            else:
                c1, c0 = _cof(c, v, True), _cof(c, v, False)
                if c1 is FALSE:
                    r = rec(_cof(f, v, False), c0)
                elif c0 is FALSE:
                    r = rec(_cof(f, v, True), c1)
                else:
                    r = ite(v, rec(_cof(f, v, True), c1), rec(_cof(f, v, False), c0))
            memo[k] = r
        return r

    return rec(f, c)


def atoms_of(t):
    """Gate atoms of the top-level decision diagram of t."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x.args[0])
            stack.extend(x.args[1:])
        elif x.op in BOOL_OPS:
            out.add(x)
    return out


def leaves(t):
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.extend(x.args[1:])
        else:
            out.append(x)
    return out


def paths(t, pc=TRUE):
    """(condition, leaf) pairs of the top-level decision diagram."""
    if t.op == "ite":
        v, a, b = t.args
        return paths(a, and_(pc, v)) + paths(b, and_(pc, not_(v)))
    return [(pc, t)]


def _gated(x):
    """x has alternatives that are not chosen elementwise"""
    return x.op == "ite" and not (is_data(x.args[0]) and is_bool(x))


def lift(f, *args):
    """Applies f below the gates of its arguments."""
    if not any(_gated(a) for a in args):
        return f(*args)
    n = 1
    for a in args:
        if _gated(a):
            n *= len(leaves(a))
    if n > MAX_LIFT:
        return f(*args)
    memo = {}

    def rec(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        tops = [x.args[0] for x in xs if _gated(x)]
        if not tops:
            r = f(*xs)
        else:
            v = min(tops, key=order)
            hi = rec(tuple(_cof(x, v, True) if x.op == "ite" else x for x in xs))
            lo = rec(tuple(_cof(x, v, False) if x.op == "ite" else x for x in xs))
            r = ite(v, hi, lo)
        memo[xs] = r
        return r

    return rec(tuple(args))


# --------------------------------------------------------------- arithmetic
def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def to_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return {m: c for c, m in t.args[0]}
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple((c, m) for m, c in sorted(d.items(), key=lambda x: _mkey(x[0]))))


def _padd(p, q):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


def _pmul(p, q):
    if len(p) * len(q) > MAX_POLY * 4:
        return None
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _monic(p):
    """(leading coefficient, p / leading coefficient)"""
    m = min(p, key=_mkey)
    c = p[m]
    return c, {k: v / c for k, v in p.items()}


def _content(p):
    """common monomial of all terms (smallest exponent of each atom)"""
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a in d:
                first[a] = min(first[a], d[a])
            elif first[a] > 0:
                del first[a]
            # a negative exponent against an absent atom keeps the minimum
        for a, e in d.items():
            if a not in first and e < 0:
                first[a] = e
    return tuple(sorted(((a, e) for a, e in first.items() if e), key=lambda x: x[0].id))


def _mono_inv(m):
    return tuple((a, -e) for a, e in m)


def _pdiv_exact(p, q):
    """p / q for Laurent polynomials if q divides p exactly, else None."""
    if len(p) < len(q):
        return None
    ids = sorted({a.id for m in list(p) + list(q) for a, _ in m})
    pos = {i: k for k, i in enumerate(ids)}
    atom = {a.id: a for m in list(p) + list(q) for a, _ in m}

    def vec(m):
        v = [0] * len(ids)
        for a, e in m:
            v[pos[a.id]] = e
        return tuple(v)

    P = {vec(m): c for m, c in p.items()}
    Q = {vec(m): c for m, c in q.items()}
    lq = max(Q)
    cq = Q[lq]
    res = {}
    for _ in range(len(p) * 4 + 16):
        if not P:
            break
        lp = max(P)
        m = tuple(x - y for x, y in zip(lp, lq))
        c = P[lp] / cq
        res[m] = res.get(m, 0) + c
        for mq, c2 in Q.items():
            k = tuple(x + y for x, y in zip(m, mq))
            P[k] = P.get(k, 0) - c * c2
            if not P[k]:
                del P[k]
        if len(P) > 4 * (len(p) + len(q)) + 64:
            return None
    if P:
        return None
    return {
        tuple((atom[i], e) for i, e in zip(ids, m) if e): c for m, c in res.items() if c
    }


def _simplify(d):
    """Cancels inverse factors that divide the terms they multiply."""
    invs = {a for m in d for a, e in m if a.op == "inv"}
    if not invs:
        return d
    for a in sorted(invs, key=lambda x: x.id):
        q = to_poly(a.args[0])
        for _ in range(4):
            grp = {}
            rest = {}
            for m, c in d.items():
                e = dict(m).get(a, 0)
                if e > 0:
                    grp.setdefault(e, {})[m] = c
                else:
                    rest[m] = c
            changed = False
            out = dict(rest)
            for e, g in grp.items():
                if len(g) >= len(q):
                    r = _pdiv_exact(g, q)
                    if r is not None and all(dict(m).get(a, 0) == e for m in r):
                        r = _pmul(r, {((a, -1),): Fraction(1)})
                        out = _padd(out, r)
                        changed = True
                        continue
                out = _padd(out, g)
            d = out
            if not changed:
                break
    return d


def _arith(t):
    return t.op not in ("str", "none", "tuple", "list", "dict", "fmt")


def add(a, b):
    return lift(_add, a, b)


def _nanmask(t):
    return t.op == "where" and t.args[2] is NAN


def _unmask(f, a, b):
    """where(c, x, nan) + y is where(c, x + y, nan), likewise for products."""
    c = TRUE
    if _nanmask(a):
        c = and_(c, a.args[0])
        a = a.args[1]
    elif a.op == "where" and a.args[1] is NAN:
        c = and_(c, not_(a.args[0]))
        a = a.args[2]
    if _nanmask(b):
        c = and_(c, b.args[0])
        b = b.args[1]
    elif b.op == "where" and b.args[1] is NAN:
        c = and_(c, not_(b.args[0]))
        b = b.args[2]
    return where(c, f(a, b), NAN)


def _masked(t):
    return t.op == "where" and (t.args[2] is NAN or t.args[1] is NAN)


def asnum(x):
    """A boolean array as numbers"""
    if x.op == "bool":
        return num(1 if x.args[0] else 0)
    if x.op == "ite" and is_bool(x) or x.op in BOOL_OPS:
        return where(x, ONE, ZERO)
    return x


def _add(a, b):
    a, b = asnum(a), asnum(b)
    if _masked(a) or _masked(b):
        return _unmask(add, a, b)
    if a.op in ("str", "fmt") or b.op in ("str", "fmt"):
        return fmt([a, b])
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.args + b.args))
    if a.op in ("tuple", "list") or b.op in ("tuple", "list"):
        if a.op == "list" and b.op == "list":
            return mk("list", *(a.args + b.args))
        return mk("concatseq", a, b)
    return from_poly(_simplify(_padd(to_poly(a), to_poly(b))))


def neg(a):
    return lift(lambda x: mul(num(-1), x), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    a, b = asnum(a), asnum(b)
    if a is NAN or b is NAN:
        return NAN
    if _masked(a) or _masked(b):
        return _unmask(mul, a, b)
    if a.op in ("list", "tuple") and b.op == "num":
        if b.args[0].denominator == 1 and len(a.args) * int(b.args[0]) <= 500:
            return mk(a.op, *(a.args * int(b.args[0])))
    if b.op in ("list", "tuple") and a.op == "num":
        return _mul(b, a)
    if a.op == "str" and b.op == "num" and b.args[0].denominator == 1:
        return st(a.args[0] * int(b.args[0]))
    if a.op in ("list", "tuple", "str") or b.op in ("list", "tuple", "str"):
        return mk("seqmul", a, b)
    r = _pmul(to_poly(a), to_poly(b))
    if r is None or len(r) > MAX_POLY:
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk("bigmul", x, y)
    return from_poly(_simplify(r))


def inv(a):
    def f(x):
        if _masked(x):
            return _unmask(lambda u, v: inv(u), x, ONE)
        p = to_poly(x)
        if not p:
            return mk("inv", ZERO)
        if len(p) == 1:
            (m, c), = p.items()
            # 1/inv(P) is P again
            out = {(): 1 / c}
            for at, e in m:
                if at.op == "inv" and e > 0:
                    for _ in range(e):
                        out = _pmul(out, to_poly(at.args[0]))
                else:
                    out = _pmul(out, {((at, -e),): Fraction(1)})
            return from_poly(out)
        cm = _content(p)
        if cm:
            p = _pmul(p, {_mono_inv(cm): Fraction(1)})
        c, p = _monic(p)
        at = mk("inv", from_poly(p))
        m = _mono_mul(((at, 1),), _mono_inv(cm))
        return from_poly({m: 1 / c})

    return lift(f, a)


def div(a, b):
    if a.op in ("resource", "pathjoin"):
        return join_path(a, b)
    return mul(a, inv(b))


def join_path(*parts):
    out = []
    for p in parts:
        if p.op == "fmt" and len(p.args) == 1:
            p = p.args[0]
        out.extend(p.args if p.op == "pathjoin" else [p])
    return mk("pathjoin", *out)


def power(a, b):
    return lift(_power, a, b)


def _power(a, b):
    if b.op == "num":
        e = b.args[0]
        if a.op == "num" and e.denominator == 1 and abs(e) <= 64 and (a.args[0] or e >= 0):
            return num(a.args[0] ** int(e))
        if e.denominator == 1 and abs(e) <= 12:
            n = abs(int(e))
            r = ONE
            for _ in range(n):
                r = _mul(r, a)
            return inv(r) if e < 0 else r
        if e == Fraction(1, 2):
            return mk("sqrt", a)
    return mk("pow", a, b)


def absval(a):
    def f(x):
        if x.op == "num":
            return num(abs(x.args[0]))
        p = to_poly(x)
        if not p:
            return ZERO
        cm = _content(p)
        if len(p) == 1 and len(cm) == 1 and cm[0][1] in (1, -1):
            (_, c), = p.items()
            return mul(num(abs(c)), _abs_atom(*cm[0]))
        if cm:
            p = _pmul(p, {_mono_inv(cm): Fraction(1)})
        c, q = _monic(p)
        r = num(abs(c))
        for at, e in cm:
            r = mul(r, _abs_atom(at, e))
        return r if q == {(): Fraction(1)} else mul(r, mk("abs", from_poly(q)))

    return lift(f, a)


def _abs_atom(at, e):
    if e % 2 == 0 or at.op in ("pi", "abs", "sqrt", "exp"):
        return power(at, num(e))
    if at.op == "inv":
        return inv(absval(at.args[0])) if e == 1 else power(inv(absval(at.args[0])), num(e))
    return power(mk("abs", at), num(e))


def minmax(op, xs):
    """op in ('min', 'max')"""
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.args)
        else:
            flat.append(x)
    nums = [x.args[0] for x in flat if x.op == "num"]
    rest = sorted({x for x in flat if x.op != "num"}, key=lambda t: t.id)
    if nums:
        rest.append(num(min(nums) if op == "min" else max(nums)))
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


def diff(t, v):
    """Formal partial derivative of a rational function with respect to atom v."""
    p = to_poly(t)
    out = {}
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = None
            if a is v:
                da = {(): Fraction(1)}
            elif a.op == "inv":
                # d(1/P) = -P'/P^2
                dp = to_poly(diff(a.args[0], v))
                da = _pmul(dp, {((a, 2),): Fraction(-1)})
            elif v in subterms(a):
                raise ValueError(f"not a rational function: {pretty(a, 3)}")
            if not da:
                continue
            rest = tuple(x for j, x in enumerate(m) if j != i)
            base = {_mono_mul(rest, ((a, e - 1),) if e != 1 else ()): c * e}
            out = _padd(out, _pmul(base, da))
    return from_poly(out)


def rat_equal(a, b):
    """Equality of two rational functions, by clearing denominators."""
    d = sub(a, b)
    if d is ZERO:
        return True
    for _ in range(6):
        p = to_poly(d)
        invs = sorted({x for m in p for x, e in m if x.op == "inv"}, key=lambda x: x.id)
        if not invs:
            return not p
        a0 = invs[0]
        k = max(dict(m).get(a0, 0) for m in p)
        q = to_poly(a0.args[0])
        acc = {}
        for m, c in p.items():
            e = dict(m).get(a0, 0)
            rest = tuple(x for x in m if x[0] is not a0)
            term = {rest: c}
            for _i in range(k - e):
                term = _pmul(term, q)
            acc = _padd(acc, term)
        if not acc:
            return True
        d = from_poly(acc)
    return False


# ---------------------------------------------------------------- strings
def fmt(parts):
    """Concatenation of the string forms of parts."""
    out = []

    def push(x):
        if x.op == "fmt":
            for y in x.args:
                push(y)
            return
        if x.op == "num":
            v = pyval(x)
            x = None if isinstance(v, float) else st(str(v))
            if x is None:
                out.append(st(repr(v)))
                return
        if x.op == "str":
            if not x.args[0]:
                return
            if out and out[-1].op == "str":
                out[-1] = st(out[-1].args[0] + x.args[0])
                return
        out.append(x)

    for p in parts:
        push(p)
    if not out:
        return st("")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    return mk("fmt", *out)


# ------------------------------------------------------------ comparisons
def truth(x):
    if is_bool(x):
        return x
    return lift(_truth, x)


def elem_truth(x):
    """The truth of each element"""
    if x.op in ("list", "tuple", "set"):
        return mk("truth", mk("unknown", "elements of a list as conditions", "", 0))
    return truth(x)


def _truth(x):
    if is_bool(x):
        return x
    if x.op == "num":
        return TRUE if x.args[0] else FALSE
    if x.op == "str":
        return TRUE if x.args[0] else FALSE
    if x.op == "none":
        return FALSE
    if x.op in ("tuple",):
        return TRUE if x.args else FALSE
    if x.op in ("list", "set"):
        return nonempty(x)
    if x.op == "len":
        return nonempty(x.args[0])
    if x.op in ("setdiff", "setof", "keys", "union", "inter"):
        return nonempty(x)
    if x.op in ("dict",):
        return TRUE if x.args[1] else mk("truth", x)
    if x.op in ("func", "lib", "module"):
        return TRUE
    if x.op == "sym" and len(x.args) > 1 and x.args[1] in ("num", "int"):
        return not_(eq(x, ZERO))
    if x.op == "sym" and len(x.args) > 1 and x.args[1] == "str":
        return not_(eq(x, st("")))
    return mk("truth", x)


def _cmp_nums(a, b):
    return a.op == "num" and b.op == "num"


def _sides(x, y):
    """The two sides of a comparison of polynomials, in a normal form"""
    if x.op != "poly" and y.op != "poly":
        return x, y
    for z in (x, y):
        if z.op in ("str", "none", "tuple", "list", "dict", "fmt", "bool", "nan", "inf", "where", "set") or is_bool(z):
            return x, y
    d = dict(to_poly(_add(y, _mul(num(-1), x))))
    k = d.pop((), Fraction(0))
    if not d:
        return num(-k), ZERO
    c, q = _monic(d)
    k = k / abs(c)
    if len(q) == 2 and not k and set(q.values()) == {Fraction(1), Fraction(-1)}:
        pos = [m for m, v in q.items() if v == 1][0]
        neg = [m for m, v in q.items() if v == -1][0]
        a, b = from_poly({neg: Fraction(1)}), from_poly({pos: Fraction(1)})
        return (a, b) if c > 0 else (b, a)
    return (num(-k), from_poly(q)) if c > 0 else (from_poly(q), num(k))


def lt(a, b):
    def f(x, y):
        x, y = _sides(x, y)
        if _cmp_nums(x, y):
            return TRUE if x.args[0] < y.args[0] else FALSE
        if x.op == "str" and y.op == "str":
            return TRUE if x.args[0] < y.args[0] else FALSE
        if x is ZERO and y.op == "len":
            return nonempty(y.args[0])
        if x.op == "len" and y is ONE:
            return not_(nonempty(x.args[0]))
        if x.op == "len" and y is ZERO:
            return FALSE
        return mk("lt", x, y)

    return lift(f, a, b)


def le(a, b):
    def f(x, y):
        x, y = _sides(x, y)
        if _cmp_nums(x, y):
            return TRUE if x.args[0] <= y.args[0] else FALSE
        if x is ONE and y.op == "len":
            return nonempty(y.args[0])
        if x.op == "len" and y is ZERO:
            return not_(nonempty(x.args[0]))
        if x is ZERO and y.op == "len":
            return TRUE
        if never_missing[0](x, y):
            return not_(lt(y, x))
        return mk("le", x, y)

    return lift(f, a, b)


def _copied(x):
    """The dimensions or shape a list is made of, entry by entry"""
    if len(x.args) == 1 and isinstance(x.args[0], Term) and x.args[0].op == "each":
        e = x.args[0].args
        if len(e) == 4 and e[2] is TRUE and isinstance(e[0], Term) and e[0].op == "attr" and e[0].args[1] in ("dims", "shape") and isinstance(e[3], Term) and e[3].op in ("bound", "bv"):
            return e[0]


DISTINCT = {"num", "str", "bool", "none", "tuple", "bytes", "func", "ellipsis"}


def eq(a, b):
    def f(x, y):
        x, y = _sides(x, y)
        if x is y:
            return TRUE if x.op not in ("nan",) else FALSE
        if x.op == "bool" and y.op == "num":
            x = num(int(x.args[0]))
        if y.op == "bool" and x.op == "num":
            y = num(int(y.args[0]))
        if x is y:
            return TRUE
        if x.op == "list" and y.op == "list":
            p, q = _copied(x), _copied(y)
            if p is not None and q is not None:
                return eq(p, q)
        if x.op == "tuple" and y.op == "tuple":
            if len(x.args) != len(y.args):
                return FALSE
            return and_(*[eq(p, q) for p, q in zip(x.args, y.args)])
        if x.op in DISTINCT and y.op in DISTINCT:
            return FALSE
        if x.op == "len" and y is ZERO:
            return not_(nonempty(x.args[0]))
        if y.op == "len" and x is ZERO:
            return not_(nonempty(y.args[0]))
        if x.op in ("ndim",) and y.op == "num" and y.args[0] < 0:
            return FALSE
        # booleans compared with constants
        if y.op == "bool" and is_bool(x):
            return x if y.args[0] else not_(x)
        if x.op == "bool" and is_bool(y):
            return y if x.args[0] else not_(y)
        if is_bool(x) and y.op == "num" or is_bool(y) and x.op == "num":
            if is_bool(y):
                x, y = y, x
            return x if y is ONE else not_(x) if y is ZERO else FALSE
        if x.id > y.id:
            x, y = y, x
        return mk("eq", x, y)

    return lift(f, a, b)


def is_(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        for p, q in ((x, y), (y, x)):
            if q.op in ("none", "bool"):
                if p.op in DISTINCT or p.op in ("poly", "fmt", "list", "dict", "dataset", "DataArray", "nan", "pi", "func", "lib"):
                    return FALSE
                if q.op == "none" and is_bool(p):
                    return FALSE
                if q.op == "bool" and is_bool(p):
                    return p if q.args[0] else not_(p)
        if x.id > y.id:
            x, y = y, x
        return mk("is", x, y)

    return lift(f, a, b)


# ----------------------------------------------------------- rebuilding
def rebuild(t, rec):
    """t with its child nodes replaced by rec(child), renormalised."""
    op = t.op
    if op in ("num", "str", "bool", "none", "nan", "inf", "pi", "sym", "ellipsis", "absent", "bound", "bv", "unknown", "lib", "func", "bytes"):
        return t
    if op == "poly":
        acc = ZERO
        for c, m in t.args[0]:
            term = num(c)
            for a, e in m:
                x = rec(a)
                term = mul(term, power(x, num(e)))
            acc = add(acc, term)
        return acc
    if op == "inv":
        return inv(rec(t.args[0]))
    if op == "ite":
        return ite(rec(t.args[0]), rec(t.args[1]), rec(t.args[2]))
    if op == "abs":
        return absval(rec(t.args[0]))
    if op in ("min", "max"):
        xs = [rec(a) for a in t.args]
        return lift(lambda *ys: minmax(op, ys), *xs)
    if op == "fmt":
        xs = [rec(a) for a in t.args]
        return lift(lambda *ys: fmt(ys), *xs)
    if op == "lt":
        return lt(rec(t.args[0]), rec(t.args[1]))
    if op == "le":
        return le(rec(t.args[0]), rec(t.args[1]))
    if op == "eq":
        return eq(rec(t.args[0]), rec(t.args[1]))
    if op == "is":
        return is_(rec(t.args[0]), rec(t.args[1]))
    if op == "truth":
        return truth(rec(t.args[0]))
    if op in ("pow",):
        return power(rec(t.args[0]), rec(t.args[1]))
    if op == "in":
        return member(rec(t.args[0]), rec(t.args[1]))
    if op == "nonempty":
        return nonempty(rec(t.args[0]))
    if op == "where":
        return where(rec(t.args[0]), rec(t.args[1]), rec(t.args[2]))

    def r(a):
        if isinstance(a, Term):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(r(x) for x in a)
        return a

    f = NORMAL.get(op)
    if f is not None:
        return f(*[r(a) for a in t.args])
    return mk(op, *[r(a) for a in t.args])


# constructors of the nodes that have a normal form of their own
NORMAL = {}
_RENORM = {}


def renorm(t):
    """The node rebuilt from normal forms"""
    r = _RENORM.get(t)
    if r is None:
        r = _RENORM[t] = rebuild(t, renorm)
    return r


def _under(c, x):
    """x, an alternative of a selection, given that c holds elementwise"""
    while x.op == "where":
        d = x.args[0]
        if and_(c, not_(d)) is FALSE:
            x = x.args[1]
        elif and_(c, d) is FALSE:
            x = x.args[2]
        else:
            break
    return x


# set by ops: the condition of a mask, where the masked value is not missing
mask_cond = [lambda c, a: c]
# set by ops: neither side is ever missing
never_missing = [lambda x, y: False]


def where(c, a, b):
    """Elementwise selection (a data operation, not a gate)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a = _under(c, a)
    b = _under(not_(c), b)
    if a is b:
        return a
    # where(x < k, k, x) is max(x, k) and where(k < x, k, x) is min(x, k), for
    # a number k and also for missing x
    if c.op in ("lt", "le"):
        x, k = c.args
        if k.op == "num" and a is k and b is x:
            return minmax("max", [x, k])
        if x.op == "num" and a is x and b is k:
            return minmax("min", [x, k])
    # nested masks
    if b is NAN and _masked(a):
        a2 = a.args[1] if a.args[2] is NAN else a.args[2]
        c2 = a.args[0] if a.args[2] is NAN else not_(a.args[0])
        return where(and_(c, c2), a2, NAN)
    if a is NAN:
        return where(not_(c), b, NAN)
    if b is NAN:
        c2 = mask_cond[0](c, a)
        return mk("where", c, a, b) if c2 is c else where(c2, a, b)
    # canonical polarity: the first gate of the condition is positive
    if c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE:
        return where(c.args[0], b, a)
    return mk("where", c, a, b)


def nonempty(x):
    def f(s):
        if s.op in ("list", "tuple", "set"):
            r = FALSE
            for e in s.args:
                if e.op == "gelem":
                    r = or_(r, e.args[0])
                elif e.op == "each":
                    r = or_(r, exists(e.args[0], e.args[1], e.args[2]))
                else:
                    return TRUE
            return r
        if s.op in ("str",):
            return TRUE if s.args[0] else FALSE
        if s.op in ("sorted", "aslist", "setof"):
            q = s.args[0]
            if q.op in ("setdiff", "union", "inter", "set", "setof", "sorted", "aslist"):
                return f(q)
        if s.op == "setdiff":
            r = _beyond(s.args[0], s.args[1])
            if r is not None:
                return r
        if s.op == "inter":
            for k, q in enumerate(s.args):
                rest = s.args[:k] + s.args[k + 1:]
                while q.op in ("setof", "aslist", "sorted"):
                    q = q.args[0]
                if q.op in ("set", "list", "tuple") and not any(e.op == "each" for e in q.args):
                    r = FALSE
                    for e in q.args:
                        g, v = (e.args[0], e.args[1]) if e.op == "gelem" else (TRUE, e)
                        r = or_(r, and_(g, *[member(v, o) for o in rest]))
                    return r
        if s.op in ("filter", "iterrows", "itertuples", "frame", "dropcols") and empty_table(s):
            return FALSE
        return mk("nonempty", s)

    return lift(f, x)


def exists(S, h, c):
    """Whether some element (bound variable h) of S fulfils c"""
    if c is FALSE:
        return FALSE
    if c is TRUE and S.op in ("setdiff", "inter", "union", "set", "setof", "sorted", "aslist", "list", "tuple"):
        return nonempty(S)
    return mk("exists", S, h, c)


def _beyond(s, others):
    """Whether s has elements that others does not have"""
    r = FALSE
    if s.op == "union":
        for p in s.args:
            q = _beyond(p, others)
            r = or_(r, q if q is not None else mk("nonempty", mk("setdiff", p, others)))
        return r
    if s.op == "setof" and (s.args[0].op in ("sym", "attr")):
        b = not_(member(mk("bound", 1), others))
        return mk("exists", s.args[0], 1, b)
    if s.op in ("set", "list", "tuple"):
        for e in s.args:
            if e.op == "gelem":
                r = or_(r, and_(e.args[0], not_(member(e.args[1], others))))
            elif e.op == "each":
                S, h, c, v = e.args
                b = and_(c, not_(member(v, others)))
                r = or_(r, mk("exists", S, h, b) if mk("bound", h) in subterms(b) else and_(nonempty(S), b))
            else:
                r = or_(r, not_(member(e, others)))
        return r
    return None


def empty_table(s):
    while s.op in ("iterrows", "itertuples", "frame", "dropcols"):
        s = s.args[0]
    return s.op == "filter" and (s.args[1] is FALSE or empty_table(s.args[0]))


DOMAIN = {}  # the set that a loop variable runs over


def member(x, s):
    """x in s"""

    def f(y, q):
        if y.op == "bv" and DOMAIN.get(y) is q:
            return TRUE
        if q.op in ("list", "tuple", "set"):
            r = FALSE
            for e in q.args:
                if e.op == "gelem":
                    r = or_(r, and_(e.args[0], eq(y, e.args[1])))
                elif e.op == "each":
                    S, h, c, v = e.args
                    b = mk("bound", h)
                    if v is b:
                        r = or_(r, and_(member(y, S), subst(c, {b: y})))
                    else:
                        r = or_(r, mk("exists", S, h, and_(c, eq(v, y))))
                else:
                    r = or_(r, eq(y, e))
            return r
        if q.op == "setdiff":
            return and_(member(y, q.args[0]), not_(member(y, q.args[1])))
        if q.op == "union":
            return or_(FALSE, *[member(y, a) for a in q.args])
        if q.op == "inter":
            return and_(*[member(y, a) for a in q.args])
        if q.op in ("setof", "aslist", "sorted"):
            return member(y, q.args[0])
        if q.op == "str" and y.op == "str":
            return TRUE if y.args[0] in q.args[0] else FALSE
        return mk("in", y, q)

    return lift(f, x, s)


def subst(t, mapping):
    memo = {}

    def rec(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, rec)
            memo[x] = r
        return r

    return rec(t)


# ----------------------------------------------------------------- printing
def pretty(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return "..."
    d = depth - 1
    P = lambda x: pretty(x, d)
    op, a = t.op, t.args
    if op == "num":
        v = pyval(t)
        return str(v)
    if op == "str":
        return repr(a[0])
    if op == "bool":
        return str(a[0])
    if op in ("none", "nan", "pi", "inf"):
        return {"none": "None"}.get(op, op)
    if op in ("sym", "lib"):
        return str(a[0])
    if op == "func":
        return str(a[0])
    if op == "ellipsis":
        return "..."
    if op == "bound":
        return f"_x{a[0]}"
    if op == "poly":
        out = []
        for c, m in a[0][:12]:
            fs = []
            if abs(c) != 1 or not m:
                fs.append(str(pyval(num(abs(c)))))
            for x, e in m:
                s = P(x)
                fs.append(s if e == 1 else f"{s}^{e}")
            out.append(("-" if c < 0 else "+") + "*".join(fs))
        s = " ".join(out)
        if len(a[0]) > 12:
            s += f" ... ({len(a[0])} terms)"
        return "(" + (s[1:] if s.startswith("+") else s) + ")"
    if op == "inv":
        return f"1/{P(a[0])}"
    if op == "item":
        return f"{P(a[0])}[{P(a[1])}]"
    if op == "attr":
        return f"{P(a[0])}.{a[1]}"
    if op == "meth":
        args = [P(x) for x in a[2]] + [f"{k}={P(v)}" for k, v in a[3]]
        return f"{P(a[1])}.{a[0]}({', '.join(args)})"
    if op == "call":
        args = [P(x) for x in a[1]] + [f"{k}={P(v)}" for k, v in a[2]]
        return f"{a[0]}({', '.join(args)})"
    if op == "ite":
        return f"if({P(a[0])} ? {P(a[1])} : {P(a[2])})"
    if op == "lt":
        return f"({P(a[0])} < {P(a[1])})"
    if op == "le":
        return f"({P(a[0])} <= {P(a[1])})"
    if op == "eq":
        return f"({P(a[0])} == {P(a[1])})"

    def show(x):
        if isinstance(x, Term):
            return pretty(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(show(y) for y in x) + ")"
        return str(x)

    return f"{op}({', '.join(show(x) for x in a)})"
