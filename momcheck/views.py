"""Views of nodes: which aspects of a result a property looks at."""
from . import terms as T
from . import ops
from .terms import Term, mk, TRUE, FALSE, NONE, ZERO, ONE

# labels only: neither the values nor the order of the axes change
LABEL = {"chunk", "rename", "resetcoords", "dropvars", "assign_coords", "named", "copy", "drop_coords"}
# operations whose meaning depends on the order of the axes
POSITIONAL = {"item", "store", "lane", "unlane", "npdot", "reshape", "attr", "tensor", "grid2", "axisreduce", "cumsum"}


def roots(*ts):
    """The input arrays a node is made from"""
    out = set()
    for t in ts:
        if not isinstance(t, Term):
            continue
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "sym" and len(x.args) > 1 and x.args[1] in T.ARRAY_KINDS:
                out.add(x)
                continue
            if x.op == "item" and x.args[0].op == "sym" and x.args[0].args[1:] == ("ds",):
                out.add(x)
                continue
            stack.extend(T.children(x))
    return tuple(sorted(out, key=lambda q: q.id))


def strip_labels(t):
    while t.op in LABEL:
        t = t.args[0]
    return t


class View:
    """value: layout and labels are dropped; labels of constructed arrays are
    reduced to the arrays they come from."""

    def __init__(self, keep_coords=False, labels=True, keep_names=False):
        self.memo = {}
        self.pmemo = {}
        self.keep_coords = keep_coords
        self.labels = labels
        self.keep_names = keep_names

    def __call__(self, t):
        return self.top(t)

    def top(self, t):
        r = self.value(t)
        return drop_ones(r)

    def value(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op in ops.LAYOUT or t.op in LABEL or t.op in ("outdims", "movedims"):
            if t.op == "assign_coords" and self.keep_coords or t.op == "rename" and self.keep_names:
                r = T.rebuild(t, self.value)
            else:
                r = self.value(t.args[0])
        elif t.op == "mkarr":
            r = self.mkarr(t, self.value)
        elif t.op == "reduce" and t.args[2].op == "setof" and ops.every_dim(self.value(t.args[1]), self.value(t.args[2])):
            r = ops.reduce(t.args[0], self.value(t.args[1]), ops.ALL, t.args[3])
        elif t.op in ("setdiff", "setof"):
            # a set of dimensions: neither their order nor those of length one matter
            r = T.rebuild(t, self.dimset)
        elif t.op == "dims" or t.op == "attr" and t.args[1] in T.META:
            r = T.rebuild(t, self.pos)
        elif t.op == "item" and T.is_array(t.args[0]) and t.args[1].op in ("num", "slice", "tuple", "ellipsis"):
            r = T.rebuild(t, self.pos)
        elif t.op in POSITIONAL and t.op not in ("item", "attr"):
            r = T.rebuild(t, self.pos)
        else:
            r = T.rebuild(t, self.value)
        self.memo[t] = r
        return r

    def dimset(self, t):
        if t.op == "attr" and t.args[1] == "dims":
            return ops.dims_of(self.value(t.args[0]))
        if t.op in ("setof", "setdiff", "list", "tuple", "aslist"):
            return T.rebuild(t, self.dimset)
        return self.pos(t)

    def mkarr(self, t, rec):
        data, coords, dims = t.args
        d = rec(data)
        if not self.labels:
            return d
        if data.op == "item" or data.op in ("grid2",):
            return mk("labelled", d, roots(coords, dims))
        return d

    def pos(self, t):
        r = self.pmemo.get(t)
        if r is not None:
            return r
        if t.op in LABEL:
            r = self.pos(t.args[0])
        elif t.op == "mkarr":
            r = self.mkarr(t, self.pos)
        else:
            r = T.rebuild(t, self.pos)
        self.pmemo[t] = r
        return r


def drop_ones(t):
    """Factors of one that only broadcast, in the elementwise part of a node"""
    if t.op == "poly":
        acc = ZERO
        for c, m in t.args[0]:
            term = T.num(c)
            for a, e in m:
                if a.op == "ones" and a.args[0].op == "attr":
                    continue
                term = T.mul(term, T.power(drop_ones(a) if a.op in ("inv", "where", "poly") else a, T.num(e)))
            acc = T.add(acc, term)
        return acc
    if t.op == "ones" and isinstance(t.args[0], Term) and t.args[0].op == "attr":
        return ONE
    if t.op in ("where", "ite"):
        return T.rebuild(t, lambda x: drop_ones(x) if x.op in ("poly", "ones", "where", "ite") and not T.is_bool(x) else x)
    if t.op == "inv":
        return T.inv(drop_ones(t.args[0]))
    return t


# ------------------------------------------------------------- comparison
UNMODELLED = {"unknown", "call", "meth", "obj", "partial", "method", "bigmul", "loopstate", "raised", "concatseq"}
# functions without a model of their own that are known to change their input
DISTINCT_CALLS = {
    "clip", "round", "around", "nan_to_num", "interp", "rolling", "shift", "roll", "bfill", "interpolate_na", "cumsum",
    "cumprod", "gradient", "trapz", "ediff1d", "flip", "rank", "quantile", "coarsen", "resample", "sortby", "dropna",
    "float32", "float16", "int32", "int64",
}
DISTINCT_METHODS = {"clip", "round", "rolling", "interpolate_na", "coarsen", "quantile", "rank", "cumprod", "zfill", "lower", "upper", "dropna", "drop_duplicates", "thin", "convert_calendar", "interp_calendar"}


def unmodelled(t):
    """First part of the node that the analysis has no meaning for, if any"""
    for x in T.subterms(t):
        if x.op in ("call", "meth"):
            name = str(x.args[0]).split(".")[-1]
            if name in (DISTINCT_CALLS if x.op == "call" else DISTINCT_METHODS):
                continue
            return x
        if x.op in UNMODELLED:
            return x
    return None


def rational(t):
    return t.op in ("poly", "num", "inv") or True


def localise(a, b, depth=0):
    """The smallest differing parts of two nodes"""
    if a is b:
        return None
    if depth < 40 and a.op == b.op and a.op not in ("poly", "num", "str", "sym") and len(a.args) == len(b.args):
        diffs = []
        ok = True
        for x, y in zip(a.args, b.args):
            if x is y or x == y:
                continue
            if isinstance(x, Term) and isinstance(y, Term):
                diffs.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(isinstance(q, Term) for q in x + y):
                diffs.extend((p, q) for p, q in zip(x, y) if p is not q)
            else:
                ok = False
        if ok and len(diffs) == 1:
            return localise(diffs[0][0], diffs[0][1], depth + 1)
    if depth < 40 and a.op == "poly" and b.op == "poly":
        pa, pb = T.to_poly(a), T.to_poly(b)
        da = {m: c for m, c in pa.items() if pb.get(m) != c}
        db = {m: c for m, c in pb.items() if pa.get(m) != c}
        aa = {x for m in da for x, e in m} - {x for m in db for x, e in m}
        bb = {x for m in db for x, e in m} - {x for m in da for x, e in m}
        if len(aa) == 1 and len(bb) == 1:
            x, y = aa.pop(), bb.pop()
            if x.op == y.op:
                return localise(x, y, depth + 1)
        return (T.from_poly(da), T.from_poly(db))
    return (a, b)


def equal(a, b, depth=0):
    """Semantic equality of two nodes, as far as the normal forms decide it"""
    if a is b:
        return True
    if depth > 12:
        return False
    if a.op == "ite" or b.op == "ite":
        return False
    if a.op in ("poly", "inv", "num") or b.op in ("poly", "inv", "num"):
        ia = any(x.op == "inv" for x in T.subterms(a))
        ib = any(x.op == "inv" for x in T.subterms(b))
        if (ia or ib) and T._arith(a) and T._arith(b):
            try:
                if T.rat_equal(a, b):
                    return True
            except (ValueError, RecursionError):
                pass
    if a.op != b.op or len(a.args) != len(b.args) or a.op == "poly":
        return False
    for x, y in zip(a.args, b.args):
        if isinstance(x, Term) and isinstance(y, Term):
            if not equal(x, y, depth + 1):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isinstance(p, Term) and isinstance(q, Term):
                    if not equal(p, q, depth + 1):
                        return False
                elif p != q:
                    return False
        elif x != y:
            return False
    return True


def has_bound(t):
    return any(x.op in ("bound", "bv") for x in T.subterms(t))


def compare(a, b, cond=TRUE, limit=4000):
    """[] if the nodes agree whenever cond holds, else [(condition, a, b)]"""
    if a is b:
        return []
    out = []
    memo = {}
    count = [0]

    def rec(x, y, c):
        if x is y or c is FALSE:
            return
        key = (x, y, c)
        if key in memo:
            return
        memo[key] = 1
        count[0] += 1
        if count[0] > limit or len(out) > 3:
            return
        tops = [z.args[0] for z in (x, y) if z.op == "ite"]
        if T.is_bool(x) and T.is_bool(y):
            d = T.and_(c, T.ite(x, T.not_(y), y))
            if d is not FALSE:
                out.append((d, x, y))
            return
        if tops:
            v = min(tops, key=T.order)
            for val, lit in ((True, v), (False, T.not_(v))):
                c2 = T.and_(c, lit)
                if c2 is not FALSE:
                    rec(T._cof(x, v, val), T._cof(y, v, val), c2)
            return
        xs, ys = T.assume(x, c), T.assume(y, c)
        if xs is ys or equal(xs, ys):
            return
        if xs.op == "ite" or ys.op == "ite":
            rec(xs, ys, c)
            return
        # conditions inside the nodes
        inner = {q.args[0] for z in (xs, ys) for q in T.subterms(z) if q.op == "ite"}
        inner = [q for q in inner if q.op != "ite" and not has_bound(q)]
        if inner and count[0] < limit:
            v = min(inner, key=T.order)
            for val, lit in ((True, v), (False, T.not_(v))):
                c2 = T.and_(c, lit)
                if c2 is not FALSE:
                    rec(T.restrict(xs, v, val), T.restrict(ys, v, val), c2)
            return
        out.append((c, xs, ys))

    rec(a, b, cond)
    return out
