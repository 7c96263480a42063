"""Convex polyhedra: exact case analysis of piecewise linear nodes.

A node built from linear arithmetic, min, max, abs and comparisons is split
into the (finitely many) polyhedra on which it is one linear form, or a
quotient of two; empty polyhedra are found by Fourier-Motzkin elimination."""
from fractions import Fraction

from . import terms as T
from .terms import Term, TRUE, FALSE

ONE = {(): Fraction(1)}


class Undecided(Exception):
    pass


def lin_add(a, b, k=1):
    out = dict(a)
    for v, c in b.items():
        c = out.get(v, 0) + k * c
        if c:
            out[v] = c
        else:
            out.pop(v, None)
    return out


def lin_mul(a, k):
    return {v: c * k for v, c in a.items()} if k else {}


def const_of(a):
    """the number, if the form is constant"""
    if not a:
        return Fraction(0)
    if set(a) == {()}:
        return a[()]
    return None


def feasible(cons):
    """cons: [(form, strict)], form >= 0 or form > 0"""
    cons = [(f, s) for f, s in cons]
    for _ in range(60):
        vs = {v for f, s in cons for v in f if v != ()}
        todo = []
        for f, s in cons:
            c = const_of(f)
            if c is None:
                todo.append((f, s))
            elif c < 0 or (s and c == 0):
                return False
        if not todo:
            return True
        best = min(vs, key=lambda v: sum(1 for f, s in todo if f.get(v, 0) > 0) * sum(1 for f, s in todo if f.get(v, 0) < 0))
        lo = [(f, s) for f, s in todo if f.get(best, 0) > 0]
        hi = [(f, s) for f, s in todo if f.get(best, 0) < 0]
        new = {}

        def put(f, s):
            k = frozenset(f.items())
            new[k] = (f, s or (k in new and new[k][1]))

        for f, s in todo:
            if not f.get(best, 0):
                put(f, s)
        for f, s in lo:
            for g, r in hi:
                put(lin_add(lin_mul(f, 1 / f[best]), lin_mul(g, -1 / g[best])), s or r)
        cons = list(new.values())
    raise Undecided("too many constraints")


def zero_on(cons, form):
    return not feasible(cons + [(form, True)]) and not feasible(cons + [(lin_mul(form, -1), True)])


class Cases:
    def __init__(self, fixed=()):
        # conditions with a fixed truth value (e.g. "is missing")
        self.fixed = dict(fixed)
        self.count = 0

    def split(self, cons, form):
        """the parts of the polyhedron where form is > 0, < 0, = 0"""
        self.count += 1
        if self.count > 20000:
            raise Undecided("too many cases")
        neg = lin_mul(form, -1)
        out = []
        for sign, extra in ((1, [(form, True)]), (-1, [(neg, True)]), (0, [(form, False), (neg, False)])):
            c = cons + extra
            if feasible(c):
                out.append((sign, c))
        return out

    def cond(self, t, cons):
        if t is TRUE or t is FALSE:
            yield cons, t is TRUE
        elif t in self.fixed:
            yield cons, self.fixed[t]
        elif t.op == "ite":
            for c, v in self.cond(t.args[0], cons):
                yield from self.cond(t.args[1 if v else 2], c)
        elif t.op == "isnull":
            for c, v in self.value(t.args[0], cons):
                yield c, v is None
        elif t.op in ("lt", "le", "eq"):
            for c, a in self.value(t.args[0], cons):
                for c2, b in self.value(t.args[1], c):
                    if a is None or b is None:
                        yield c2, False
                        continue
                    for c3, sg in self.sign(self.sub(b, a), c2):
                        yield c3, {"lt": sg > 0, "le": sg >= 0, "eq": sg == 0}[t.op]
        else:
            raise Undecided(T.pretty(t, 3))

    def sign(self, v, cons):
        n, d = v
        for sn, c in self.split(cons, n):
            if const_of(d) is not None:
                yield c, sn * (1 if const_of(d) > 0 else -1)
                continue
            for sd, c2 in self.split(c, d):
                if sd == 0:
                    raise Undecided("division by zero")
                yield c2, sn * sd

    def sub(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a[1] == b[1]:
            return lin_add(a[0], b[0], -1), a[1]
        if a[1] == lin_mul(b[1], -1):
            return lin_add(a[0], b[0], 1), a[1]
        for x, y, k in ((a, b, 1), (b, a, -1)):
            v = const_of(x[0])
            if const_of(x[1]) == 1 and v is not None:
                return lin_mul(lin_add(lin_mul(y[1], v), y[0], -1), k), y[1]
        raise Undecided("quotients with different denominators")

    def norm(self, a):
        k = const_of(a[1])
        if k is not None and k != 1:
            if k == 0:
                raise Undecided("division by zero")
            return lin_mul(a[0], 1 / k), ONE
        return a

    def value(self, t, cons):
        """[(polyhedron, value)], value None (missing) or (numerator, denominator)"""
        op = t.op
        if op == "num":
            yield cons, ({(): t.args[0]} if t.args[0] else {}, ONE)
        elif op == "nan":
            yield cons, None
        elif op in ("where", "ite"):
            for c, v in self.cond(t.args[0], cons):
                yield from self.value(t.args[1 if v else 2], c)
        elif op in ("min", "max"):
            yield from self.extreme(list(t.args), op, cons)
        elif op == "abs":
            for c, v in self.value(t.args[0], cons):
                if v is None:
                    yield c, None
                    continue
                for c2, s in self.sign(v, c):
                    yield c2, (lin_mul(v[0], s if s else 1), v[1])
        elif op == "poly":
            yield from self.poly(list(t.args[0]), cons)
        elif op == "inv":
            for c, v in self.value(t.args[0], cons):
                if v is None:
                    yield c, None
                    continue
                yield c, (v[1], v[0])
        else:
            n = self.fixed.get(T.mk("isnull", t))
            if n:
                yield cons, None
            else:
                yield cons, ({t: Fraction(1)}, ONE)

    def extreme(self, xs, op, cons):
        if len(xs) == 1:
            yield from self.value(xs[0], cons)
            return
        for c, a in self.value(xs[0], cons):
            for c2, b in self.extreme(xs[1:], op, c):
                if a is None or b is None:
                    yield c2, None
                    continue
                for c3, s in self.sign(self.sub(a, b), c2):
                    yield c3, (a if (s <= 0) == (op == "min") else b)

    def poly(self, monos, cons):
        if not monos:
            yield cons, ({}, ONE)
            return
        k, m = monos[0]
        for c, v in self.mono(list(m), cons):
            for c2, w in self.poly(monos[1:], c):
                if v is None or w is None:
                    yield c2, None
                    continue
                v1 = (lin_mul(v[0], k), v[1])
                if not w[0]:
                    yield c2, v1
                elif not v1[0]:
                    yield c2, w
                else:
                    yield c2, self.sub(v1, (lin_mul(w[0], -1), w[1]))

    def mono(self, atoms, cons):
        if not atoms:
            yield cons, (ONE, ONE)
            return
        a, e = atoms[0]
        for c, v in self.value(a, cons):
            for c2, w in self.mono(atoms[1:], c):
                if v is None or w is None:
                    yield c2, None
                    continue
                r = w
                for _ in range(abs(int(e))):
                    r = self.mul(r, v if e > 0 else (v[1], v[0]))
                yield c2, r

    def mul(self, a, b):
        return self.prod(a[0], b[0], a[1], b[1]), self.prod(a[1], b[1], None, None)

    def prod(self, x, y, dx, dy):
        for p, q in ((x, y), (y, x)):
            k = const_of(p)
            if k is not None:
                return lin_mul(q, k)
        raise Undecided("product of two linear forms")


def differences(a, b, cons, fixed=()):
    """The polyhedra on which the nodes a and b differ: [(polyhedron, value a, value b)]"""
    K = Cases(fixed)
    out = []
    for c, v in K.value(a, list(cons)):
        for c2, w in K.value(b, c):
            if v is None or w is None:
                if v is not w:
                    out.append((c2, v, w))
                continue
            d = K.sub(v, w)
            if not zero_on(c2, d[0]):
                out.append((c2, v, w))
    return out, K.count


def show(form):
    parts = []
    for v, c in sorted(form.items(), key=lambda p: str(p[0])):
        n = "" if v == () else T.pretty(v, 3)
        if n and abs(c) == 1:
            parts.append(("-" if c < 0 else "+") + n)
        else:
            parts.append(f"{'+' if c > 0 else ''}{c}{'*' + n if n else ''}")
    return " ".join(parts) or "0"


def show_value(v):
    if v is None:
        return "missing"
    return show(v[0]) if const_of(v[1]) == 1 else f"({show(v[0])})/({show(v[1])})"
