"""Abstract values, heap objects and states of the dataflow analysis."""
from . import terms as T
from .terms import Term, mk, TRUE, FALSE, NONE, ite, and_, or_, not_


class PathDead(Exception):
    """The current path ended (in an exception of the analysed program)."""


class Obj:
    """Identity of a mutable object; its contents are in the state."""

    __slots__ = ("id", "kind")
    n = 0

    def __init__(self, kind):
        Obj.n += 1
        self.id = Obj.n
        self.kind = kind

    def __repr__(self):
        return f"<{self.kind}#{self.id}>"


class TupleVal:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"TupleVal{self.items}"


class FuncVal:
    def __init__(self, node, module, scope, defaults, kwdefaults, qualname):
        self.node = node
        self.module = module
        self.scope = scope
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname
        self.generator = None
        self.cached = False

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundMethod:
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Partial:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class LibRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<lib {self.name}>"


class ModuleVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class Accessor:
    """x.loc, x.iloc, x.dt, x.str, x.coords, ... with a reference to x"""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Choice:
    """Values of different kinds, selected by a gate."""

    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b

    def __repr__(self):
        return f"Choice({self.cond}, {self.a}, {self.b})"


class Tensor:
    """Array with some axes of known length: entries per index of those axes.

    axes: tuple of int (known length) or "*" (the elements of the data)."""

    __slots__ = ("axes", "entries")

    def __init__(self, axes, entries):
        self.axes = tuple(axes)
        self.entries = entries  # dict: index tuple over known axes -> Term


ARRAYS = ("da", "nd", "ds", "df", "series")


class State:
    __slots__ = ("heap", "pc", "gate", "dead")

    def __init__(self, heap=None, pc=TRUE, gate=TRUE, dead=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.gate = gate
        self.dead = dead

    def fork(self, cond=TRUE):
        return State(dict(self.heap), and_(self.pc, cond), and_(self.gate, cond), self.dead)


# list elements: ("one", guard, value) or ("each", S, bv, guard, value)
def one(v, guard=TRUE):
    return ("one", guard, v)


class Merger:
    """Joins two states under the gate that selects the first."""

    def __init__(self, c, s1, s2):
        self.c = c
        self.s1 = s1
        self.s2 = s2
        self.out = None
        self.phi = {}

    def run(self):
        s1, s2 = self.s1, self.s2
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        self.out = State(dict(s2.heap), or_(s1.pc, s2.pc), or_(s1.gate, s2.gate))
        todo = []
        for i, r1 in s1.heap.items():
            r2 = s2.heap.get(i)
            if r2 is None:
                self.out.heap[i] = r1
            elif r1 is not r2:
                todo.append((i, r1, r2))
        for i, r1, r2 in todo:
            self.out.heap[i] = self.rec(r1, r2)
        return self.out

    def rec(self, r1, r2):
        out = {}
        if "vars" in r1 and "vars" in r2 and (r1["vars"] is not r2["vars"] or r1.get("undef") is not r2.get("undef")):
            # names bound on one side only, and when they are not
            u = {}
            a, b = r1["vars"], r2["vars"]
            ua, ub = r1.get("undef") or {}, r2.get("undef") or {}
            for n in {**a, **b}:
                x = ua.get(n, FALSE) if n in a else TRUE
                y = ub.get(n, FALSE) if n in b else TRUE
                if x is not FALSE or y is not FALSE:
                    z = ite(self.c, x, y)
                    if z is not FALSE:
                        u[n] = z
            out["undef"] = u
            r1 = {k: v for k, v in r1.items() if k != "undef"}
            r2 = {k: v for k, v in r2.items() if k != "undef"}
        if r1.get("removed", r2.get("removed")) != r2.get("removed"):
            # a key removed on one side only is one of its own on the other
            gone = r1["removed"] | r2["removed"]
            r1, r2 = self.explicit(r1, gone), self.explicit(r2, gone)
        for k in set(r1) | set(r2):
            if k not in r1:
                out[k] = r2[k]
            elif k not in r2:
                out[k] = r1[k]
            elif r1[k] is r2[k]:
                out[k] = r1[k]
            else:
                out[k] = self.field(k, r1[k], r2[k])
        return out

    def explicit(self, r, gone):
        items = dict(r["items"])
        src = []
        if r["base"] is not None:
            src.append(lambda k: (T.member(k, mk("keys", r["base"])), mk("item", r["base"], k)))
        for S, bv, g, kk, v in r.get("each", ()):
            if kk is bv and isinstance(v, Term):
                src.append(lambda k, S=S, bv=bv, g=g, v=v: (and_(T.member(k, S), T.subst(g, {bv: k})), T.subst(v, {bv: k})))
        for k in sorted(gone - r["removed"], key=lambda t: t.id):
            has = v = None
            for f in src:
                c, x = f(k)
                has, v = (c, x) if has is None else (or_(c, has), ite(c, x, v))
            if has is None:
                continue
            if k not in items:
                items[k] = (has, v)
            elif items[k][0] is not TRUE:
                g, w = items[k]
                items[k] = (or_(g, has), ite(g, w, v) if isinstance(w, Term) else w)
        return {**r, "items": items, "removed": gone}

    def field(self, k, a, b):
        if k == "vars":
            out = {}
            for n in list(a) + [x for x in b if x not in a]:
                if n not in a:
                    out[n] = b[n]
                elif n not in b:
                    out[n] = a[n]
                else:
                    out[n] = self.val(a[n], b[n])
            return out
        if k == "items":
            out = {}
            for n in list(a) + [x for x in b if x not in a]:
                if n not in a:
                    g, v = b[n]
                    out[n] = (and_(g, not_(self.c)), v)
                elif n not in b:
                    g, v = a[n]
                    out[n] = (and_(g, self.c), v)
                else:
                    out[n] = (ite(self.c, a[n][0], b[n][0]), self.val(a[n][1], b[n][1]))
            return out
        if k == "elems":
            return self.elems(a, b)
        if k in ("origin", "borigin"):
            return a | b
        if k == "each":
            out = list(a)
            for e in b:
                if e not in out:
                    out.append(e)
            return tuple(out)
        if k == "symitems":
            out = dict(a)
            out.update(b)
            return out
        if isinstance(a, (Term, Obj, TupleVal, Choice, FuncVal, LibRef)) or isinstance(
            b, (Term, Obj, TupleVal, Choice, FuncVal, LibRef)
        ):
            if a is None:
                a = T.ABSENT
            if b is None:
                b = T.ABSENT
            return self.val(a, b)
        return a if a is not None else b

    def elems(self, a, b):
        if len(a) == len(b) and all(
            x[0] == "one" and y[0] == "one" and x[1] is y[1] for x, y in zip(a, b)
        ):
            return tuple(("one", x[1], self.val(x[2], y[2])) for x, y in zip(a, b))
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        m = 0
        while m < len(a) - n and m < len(b) - n and a[len(a) - 1 - m] == b[len(b) - 1 - m]:
            m += 1
        out = list(a[:n])
        for e in a[n : len(a) - m]:
            out.append(self.guard(e, self.c))
        for e in b[n : len(b) - m]:
            out.append(self.guard(e, not_(self.c)))
        out.extend(a[len(a) - m :] if m else [])
        return tuple(out)

    def guard(self, e, c):
        if e[0] == "one":
            return ("one", and_(e[1], c), e[2])
        return ("each", e[1], e[2], and_(e[3], c), e[4])

    def val(self, a, b):
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(self.c, a, b)
        if isinstance(a, TupleVal) and isinstance(b, TupleVal) and len(a.items) == len(b.items):
            return TupleVal([self.val(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.id == b.id:
                return a
            if a.kind == b.kind:
                return self.make_phi(a, b)
        if isinstance(a, ModuleVal) and isinstance(b, ModuleVal) and a.name == b.name:
            return a
        if isinstance(a, LibRef) and isinstance(b, LibRef) and a.name == b.name:
            return a
        if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node and a.module == b.module:
            return a
        if isinstance(a, Choice) and a.cond is self.c:
            a = a.a
        if isinstance(b, Choice) and b.cond is self.c:
            b = b.b
        if a is b:
            return a
        return Choice(self.c, a, b)

    def make_phi(self, a, b):
        key = (a.id, b.id)
        p = self.phi.get(key)
        if p is None:
            p = Obj(a.kind)
            self.phi[key] = p
            self.out.heap[p.id] = {}
            r1 = self.s1.heap.get(a.id)
            r2 = self.s2.heap.get(b.id)
            if r1 is None or r2 is None:
                self.out.heap[p.id] = r1 or r2
            else:
                self.out.heap[p.id] = self.rec(r1, r2)
        return p


def merge(c, s1, s2):
    return Merger(c, s1, s2).run()
