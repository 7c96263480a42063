"""Flow-sensitive, interprocedural dataflow analysis over the syntax tree.

Builds the gated value graph of a routine (with the calls to other routines of
the package resolved and expanded) and the log of its effects.  Branches are
joined (gated phi nodes), loops are summarised; no code of the package is run.
"""
import ast
import os

from . import terms as T
from .terms import (
    Term, mk, TRUE, FALSE, NONE, NAN, ZERO, ONE, ite, and_, or_, not_, st, num,
    truth, eq, lt, le, is_, member, subst, subterms, fmt,
)
from .values import (
    PathDead, Obj, TupleVal, FuncVal, BoundMethod, Partial, LibRef, ModuleVal,
    Accessor, Choice, Tensor, State, merge, one, ARRAYS, Merger,
)

MAX_DEPTH = 40
MAX_UNROLL = 120
MAX_STEPS = 400000

EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "AttributeError": "Exception", "RuntimeError": "Exception", "Exception": "BaseException",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError",
    "StopIteration": "Exception", "ImportError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "UnicodeError": "ValueError",
}

BINDERS = {"each", "exists", "fold", "sumover", "last", "eachkv"}


def exc_matches(exc, handler):
    while exc is not None:
        if exc == handler:
            return True
        exc = EXC_PARENTS.get(exc, "Exception" if exc not in ("Exception", "BaseException") else None)
    return False


class Effect:
    __slots__ = ("kind", "pc", "loc", "data")

    def __init__(self, kind, pc, loc, data):
        self.kind = kind
        self.pc = pc
        self.loc = loc
        self.data = data

    def __repr__(self):
        return f"{self.kind} {self.data} at {self.loc}"


def height(t):
    return max((x.args[1] for x in subterms(t) if x.op in BINDERS), default=0)


_bv = [0]


def fresh_bv():
    _bv[0] += 1
    return mk("bv", _bv[0])


def close(bv, *ts):
    """Canonical names for a bound variable: (height, closed terms)"""
    h = 1 + max([height(t) for t in ts] + [0])
    b = mk("bound", h)
    return (h,) + tuple(subst(t, {bv: b}) for t in ts)


def deindex(S, bv, *ts):
    """A loop over the indices of A that only uses A[i] is a loop over A."""
    if S.op == "range0" and S.args[0].op == "len":
        A = S.args[0].args[0]
        it = mk("item", A, bv)
        new = [subst(t, {it: mk("bv", -1)}) for t in ts]
        if all(bv not in subterms(t) for t in new):
            return A, [subst(t, {mk("bv", -1): bv}) for t in new]
    return S, list(ts)


def mk_each(S, bv, cond, val):
    S, (cond, val) = deindex(S, bv, cond, val)
    h, c, v = close(bv, cond, val)
    return mk("each", S, h, c, v)


def mk_exists(S, bv, cond):
    if cond is FALSE:
        return FALSE
    S, (cond,) = deindex(S, bv, cond)
    if bv not in subterms(cond):
        return and_(T.nonempty(S), cond)
    h, c = close(bv, cond)
    return T.exists(S, h, c)


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.frame = None
        self.state = 0


class Program:
    """The parsed source files of a package."""

    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, _, files in os.walk(base):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__") or rel == "__init__"
                name = rel[: -len(".__init__")] if is_pkg else rel
                try:
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    tree = ast.parse(src, path)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.errors.append((path, str(e)))
                    continue
                self.modules[name] = Module(name, path, tree, is_pkg)

    def add_file(self, name, path):
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        self.modules[name] = Module(name, path, tree, False)


from .lib import LibMixin  # noqa: E402


class SymTypes:
    """Kinds of the symbolic arguments"""

    def get(self, t, default=None):
        return t.args[1] if t.op == "sym" and len(t.args) > 1 else default

    __getitem__ = get


class Interp(LibMixin):
    def __init__(self, program):
        self.program = program
        self.st = State()
        self.effects = []
        self.handlers = []
        self.callstack = []
        self.functions = set()
        self.symtypes = SymTypes()
        # loop variables that range over names
        self.namevars = set()
        self.steps = 0
        self.notes = []
        self.node = None
        self.lazy_roots = None
        self.builtin_frame = None
        self.opaque = {}
        self.loopctl = []
        self.loop_depth = 0

    # ------------------------------------------------------------- heap
    def new(self, kind, **rec):
        o = Obj(kind)
        self.st.heap[o.id] = rec
        return o

    def rec(self, o):
        return self.st.heap[o.id]

    def upd(self, o, **ch):
        r = dict(self.st.heap[o.id])
        r.update(ch)
        self.st.heap[o.id] = r

    def new_list(self, vals):
        return self.new("list", elems=tuple(one(v) for v in vals), origin=frozenset())

    def new_list_elems(self, elems):
        return self.new("list", elems=tuple(elems), origin=frozenset())

    def new_dict(self, items=None, base=None, origin=frozenset()):
        return self.new(
            "dict", base=base, items={k: (TRUE, v) for k, v in (items or {}).items()}, each=(),
            removed=frozenset(), origin=origin,
        )

    def new_arr(self, kind, term, attrs=None, name=NONE, origin=frozenset(), borigin=frozenset(), enc=None):
        if attrs is None:
            attrs = self.new_dict({})
        if enc is None:
            enc = self.new_dict({})
        return self.new(kind, term=term, attrs=attrs, enc=enc, name=name, origin=origin, borigin=borigin)

    def new_ds(self, base=None, attrs=None, origin=frozenset()):
        return self.new(
            "ds", base=base, items={}, symitems={}, each=(), attrs=attrs or self.new_dict({}),
            enc=self.new_dict({}), origin=origin,
        )

    # ------------------------------------------------------- symbolic inputs
    def sym(self, name, kind):
        """A symbolic argument of the given kind."""
        t = mk("sym", name, kind)
        og = frozenset([name])
        if kind in ("da", "nd", "df", "series"):
            a = self.new_dict(base=mk("attr", t, "attrs"), origin=og)
            e = self.new_dict(base=mk("attr", t, "encoding"), origin=og)
            return self.new_arr(kind, t, a, mk("attr", t, "name"), og, og, e)
        if kind == "ds":
            a = self.new_dict(base=mk("attr", t, "attrs"), origin=og)
            d = self.new_ds(base=t, attrs=a, origin=og)
            e = self.new_dict(base=mk("attr", t, "encoding"), origin=og)
            self.upd(d, enc=e)
            return d
        if kind == "dict":
            return self.new_dict(base=t, origin=og)
        if kind == "list":
            bv = fresh_bv()
            return self.new("list", elems=(("each", t, bv, TRUE, bv),), origin=og)
        return t

    # ------------------------------------------------------------- logging
    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        f, q = self.callstack[-1] if self.callstack else ("?", "<module>")
        return (f, q, getattr(n, "lineno", 0))

    def log(self, kind, data, node=None, pc=None):
        if self.callstack and self.callstack[-1][0].startswith("<spec"):
            pass
        self.effects.append(Effect(kind, self.st.pc if pc is None else pc, self.loc(node), data))

    def unknown(self, why):
        f, q, l = self.loc()
        self.notes.append(f"{why} ({os.path.basename(str(f))}:{l} {q})")
        return mk("unknown", why, q, l)

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        m = self.program.modules.get(name)
        if m is None:
            return None
        if m.frame is None:
            parent = name.rpartition(".")[0]
            if parent and parent in self.program.modules:
                self.import_module(parent)
            m = self.program.modules[name]
            if m.frame is not None:
                return m
            m.frame = self.new("frame", vars={"__name__": st(name)})
            for k in ("__doc__", "__file__", "__builtins__", "__spec__", "__loader__", "__package__", "__path__"):
                self.rec(m.frame)["vars"].setdefault(k, mk("modattr", name, k))
            self.callstack.append((m.path, "<module>"))
            saved = (self.st.pc, self.st.gate)
            try:
                self.exec_block(m.tree.body, [m.frame], m)
            except PathDead:
                self.notes.append(f"module {name} ends in an exception")
            finally:
                self.callstack.pop()
            self.st.pc, self.st.gate = saved
            self.st.dead = None
            if parent and parent in self.program.modules:
                self.setvar(self.program.modules[parent].frame, name.rpartition(".")[2], ModuleVal(name))
        return m

    def module_attr(self, name, attr):
        m = self.import_module(name)
        if m is not None:
            v = self.rec(m.frame)["vars"].get(attr)
            if v is not None:
                return v
            if name + "." + attr in self.program.modules:
                self.import_module(name + "." + attr)
                return ModuleVal(name + "." + attr)
        return None

    def lookup_function(self, dotted):
        """FuncVal of a dotted name such as momlevel.derived.calc_dz, or None."""
        mod, _, attr = dotted.rpartition(".")
        if mod not in self.program.modules:
            return None
        v = self.module_attr(mod, attr)
        return v if isinstance(v, (FuncVal, Partial, Choice)) else None

    # ------------------------------------------------------------- frames
    def setvar(self, frame, name, value):
        r = self.rec(frame)
        v = dict(r["vars"])
        v[name] = value
        u = r.get("undef")
        if u and name in u:
            self.upd(frame, vars=v, undef={k: c for k, c in u.items() if k != name})
        else:
            self.upd(frame, vars=v)

    def getvar(self, scope, name):
        for fr in reversed(scope):
            v = self.rec(fr)["vars"].get(name)
            if v is not None:
                return v
        return None

    # ---------------------------------------------------------- statements
    def exec_block(self, body, scope, module):
        for s in body:
            if self.st.dead:
                return
            self.exec(s, scope, module)

    def exec(self, s, scope, module):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise RuntimeError("analysis budget exceeded")
        self.node = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unknown(f"statement {type(s).__name__}")
            if any(isinstance(n, (ast.Return, ast.Raise, ast.Assert)) for n in ast.walk(s)):
                raise RuntimeError(f"{type(s).__name__} outside the model")
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setvar(scope[-1], n.id, self.unknown(f"assigned in {type(s).__name__}"))
            return
        m(s, scope, module)

    def x_Pass(self, s, scope, m):
        pass

    def x_Expr(self, s, scope, m):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, scope, m)

    def x_Import(self, s, scope, m):
        for a in s.names:
            if a.name.split(".")[0] == self.program.package:
                self.import_module(a.name)
                target = a.name if a.asname else a.name.split(".")[0]
                v = ModuleVal(target)
            else:
                v = LibRef(self.libname(a.name if a.asname else a.name.split(".")[0]))
            self.setvar(scope[-1], a.asname or a.name.split(".")[0], v)

    def x_ImportFrom(self, s, scope, m):
        mod = s.module or ""
        if s.level:
            base = m.name if m.is_pkg else m.name.rpartition(".")[0]
            for _ in range(s.level - 1):
                base = base.rpartition(".")[0]
            mod = base + ("." + mod if mod else "")
        for a in s.names:
            if mod.split(".")[0] == self.program.package and mod in self.program.modules:
                if a.name == "*":
                    mm = self.import_module(mod)
                    for k, v in self.rec(mm.frame)["vars"].items():
                        if not k.startswith("_"):
                            self.setvar(scope[-1], k, v)
                    continue
                v = self.module_attr(mod, a.name)
                if v is None:
                    v = self.unknown(f"import of {mod}.{a.name}")
            elif mod.split(".")[0] == self.program.package and mod + "." + a.name in self.program.modules:
                self.import_module(mod + "." + a.name)
                v = ModuleVal(mod + "." + a.name)
            else:
                v = self.lib_attr(self.libname(mod), a.name)
            self.setvar(scope[-1], a.asname or a.name, v)

    def x_FunctionDef(self, s, scope, m):
        f = self.make_func(s, scope, m, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, scope, m)
            f = self.decorate(dv, f)
        self.setvar(scope[-1], s.name, f)

    def x_ClassDef(self, s, scope, m):
        self.setvar(scope[-1], s.name, self.unknown(f"class {s.name}"))

    def decorate(self, dv, f):
        name = dv.name if isinstance(dv, LibRef) else None
        if isinstance(dv, Term) and dv.op == "deco":
            name = dv.args[0]
        if name in ("functools.lru_cache", "functools.cache"):
            self.log("cache", f.qualname if isinstance(f, FuncVal) else "?")
            f.cached = True
            return f
        if name in ("functools.wraps", "builtins.staticmethod"):
            return f
        if isinstance(dv, (FuncVal, Partial, BoundMethod)):
            return self.call(dv, [f], {})
        return self.unknown("decorator")

    def make_func(self, node, scope, m, name):
        a = node.args
        defaults = [self.ev(d, scope, m) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, scope, m) for d in a.kw_defaults]
        f = FuncVal(node, m, list(scope), defaults, kwd, name)
        # the module-level qualified name of a nested function
        if len(scope) > 1 and self.callstack:
            f.qualname = self.callstack[-1][1] + "." + name
        return f

    def x_Return(self, s, scope, m):
        v = NONE if s.value is None else self.ev(s.value, scope, m)
        self.setvar(scope[-1], "$ret", v)
        self.returns[-1].append(self.st)
        self.st = State(dict(self.st.heap), self.st.pc, self.st.gate, "return")

    def x_If(self, s, scope, m):
        c = self.cond(s.test, scope, m)
        self.branch(
            c,
            lambda: self.exec_block(s.body, scope, m),
            lambda: self.exec_block(s.orelse, scope, m),
        )

    def x_Match(self, s, scope, m):
        """As the chain of comparisons it stands for"""
        pre, subj = [], s.subject
        if isinstance(subj, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in subj.elts):
            parts = []
            for i, e in enumerate(subj.elts):
                nm = f"_match_{s.lineno}_{i}"
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
                parts.append(ast.Name(nm, ast.Load()))
            subj = ast.Tuple(parts, ast.Load())
        elif not isinstance(subj, (ast.Name, ast.Constant)):
            nm = f"_match_{s.lineno}"
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], subj))
            subj = ast.Name(nm, ast.Load())

        def pat(p, v):
            """condition (None: always), bindings"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(v, [ast.Eq()], [p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(v, [ast.Is()], [ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchOr):
                cs = [pat(q, v) for q in p.patterns]
                if any(b for _, b in cs):
                    raise NotImplementedError
                return (None if any(c is None for c, _ in cs) else ast.BoolOp(ast.Or(), [c for c, _ in cs])), []
            if isinstance(p, ast.MatchAs):
                c, b = pat(p.pattern, v) if p.pattern is not None else (None, [])
                return c, b + ([ast.Assign([ast.Name(p.name, ast.Store())], v)] if p.name else [])
            if isinstance(p, ast.MatchSequence) and isinstance(v, ast.Tuple) and len(p.patterns) == len(v.elts):
                cs, bs = [], []
                for q, e in zip(p.patterns, v.elts):
                    if isinstance(q, ast.MatchStar):
                        raise NotImplementedError
                    c, b = pat(q, e)
                    bs += b
                    if c is not None:
                        cs.append(c)
                return (ast.BoolOp(ast.And(), cs) if len(cs) > 1 else cs[0] if cs else None), bs
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(ast.Name("isinstance", ast.Load()), [v, p.cls], []), []
            raise NotImplementedError

        try:
            tail = []
            for c in reversed(s.cases):
                test, binds = pat(c.pattern, subj)
                if c.guard is not None:
                    if binds:
                        raise NotImplementedError
                    test = c.guard if test is None else ast.BoolOp(ast.And(), [test, c.guard])
                body = binds + c.body
                tail = body if test is None else [ast.If(test, body, tail)]
        except NotImplementedError:
            # anything may happen
            self.unknown("match statement")
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setvar(scope[-1], n.id, self.unknown("assigned in match"))
            if any(isinstance(n, (ast.Return, ast.Raise, ast.Assert)) for n in ast.walk(s)):
                raise RuntimeError("match statement outside the model")
            return
        for n in pre + tail:
            for x in ast.walk(n):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, s)
                    x.lineno, x.end_lineno, x.col_offset, x.end_col_offset = s.lineno, s.end_lineno, s.col_offset, s.end_col_offset
        self.exec_block(pre + tail, scope, m)

    def feasible(self, c):
        return and_(self.st.pc, c) is not FALSE

    def branch(self, c, fa, fb):
        """Runs fa under c and fb under not c, and joins."""
        if c is TRUE or not self.feasible(not_(c)):
            return fa()
        if c is FALSE or not self.feasible(c):
            return fb()
        base = self.st
        self.st = base.fork(c)
        try:
            fa()
        except PathDead:
            self.st.dead = self.st.dead or "raise"
        s1 = self.st
        self.st = base.fork(not_(c))
        try:
            fb()
        except PathDead:
            self.st.dead = self.st.dead or "raise"
        s2 = self.st
        self.join(c, s1, s2, base)

    def join(self, c, s1, s2, base):
        if s1.dead and not s2.dead:
            if s1.dead == "raise":
                s2.gate = base.gate
            self.st = s2
        elif s2.dead and not s1.dead:
            if s2.dead == "raise":
                s1.gate = base.gate
            self.st = s1
        elif s1.dead and s2.dead:
            dead = "raise" if s1.dead == s2.dead == "raise" else "return"
            self.st = s2
            self.st.dead = dead
        else:
            self.st = merge(c, s1, s2)
            if self.st.gate is not base.gate and or_(self.st.gate, not_(base.gate)) is TRUE:
                self.st.gate = base.gate

    def fork_val(self, c, fa, fb):
        """Value of fa() under c and fb() under not c."""
        c = truth(c)
        if c is TRUE or not self.feasible(not_(c)):
            return fa()
        if c is FALSE or not self.feasible(c):
            return fb()
        tmp = self.new("frame", vars={})

        def run(f):
            def g():
                self.setvar(tmp, "v", f())

            return g

        self.branch(c, run(fa), run(fb))
        if self.st.dead:
            raise PathDead()
        v = self.rec(tmp)["vars"].get("v")
        return v

    def x_Assert(self, s, scope, m):
        c = self.cond(s.test, scope, m)
        if c is TRUE or not self.feasible(not_(c)):
            return
        msg = (lambda: self.ev(s.msg, scope, m)) if s.msg is not None else (lambda: NONE)
        self.raise_if(not_(c), "AssertionError", msg, s)

    def x_Raise(self, s, scope, m):
        exc, msg = "Exception", NONE
        if s.exc is not None:
            v = self.ev(s.exc, scope, m)
            exc, msg = self.exc_info(v)
        else:
            exc = "reraise"
            cur = getattr(self, "current_exc", None)
            if cur:
                exc = cur[-1]
        self.do_raise(exc, msg, s)
        raise PathDead()

    def exc_info(self, v):
        if isinstance(v, LibRef):
            return v.name.split(".")[-1], NONE
        if isinstance(v, Obj) and v.kind == "exc":
            r = self.rec(v)
            return r["type"], r["msg"]
        return "Exception", NONE

    def raise_if(self, c, exc, msg, node):
        """The program raises exc when c holds."""
        c = truth(c)
        if c is FALSE or not self.feasible(c):
            return
        base = self.st
        caught = self.find_handler(exc)
        self.st = base.fork(c)
        try:
            mv = msg() if callable(msg) else msg
        except PathDead:
            mv = NONE
        try:
            self.do_raise(exc, mv, node)
        except PathDead:
            pass
        self.st = base
        if not self.feasible(not_(c)):
            self.st.dead = "raise"
            raise PathDead()
        self.st.pc = and_(self.st.pc, not_(c))
        if caught:
            self.st.gate = and_(self.st.gate, not_(c))

    def find_handler(self, exc):
        for h in reversed(self.handlers):
            for types in h["types"]:
                if any(exc_matches(exc, t) for t in types):
                    return h
        return None

    def do_raise(self, exc, msg, node=None):
        h = self.find_handler(exc)
        if h is not None:
            e = self.new("exc", type=exc, msg=msg)
            h["caught"].append((exc, e, self.st))
            self.st = State(dict(self.st.heap), self.st.pc, self.st.gate, "return")
        else:
            self.log("raise", (exc, self.to_term(msg)), node)
            self.st.dead = "raise"

    def x_Try(self, s, scope, m):
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append(["BaseException"])
            else:
                hs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = []
                for x in hs:
                    v = self.ev(x, scope, m)
                    names.append(v.name.split(".")[-1] if isinstance(v, LibRef) else "Exception")
                types.append(names)
        H = {"types": types, "caught": []}
        base_gate = self.st.gate
        base_pc = self.st.pc
        self.handlers.append(H)
        try:
            self.exec_block(s.body, scope, m)
        except PathDead:
            self.st.dead = self.st.dead or "raise"
        finally:
            self.handlers.pop()
        if not self.st.dead:
            try:
                self.exec_block(s.orelse, scope, m)
            except PathDead:
                self.st.dead = self.st.dead or "raise"
        if not H["caught"] and s.handlers and not self.st.dead:
            # exceptions that are not modelled may occur
            if not self.benign(s.body):
                for h, tys in zip(s.handlers, types):
                    if tys == ["AssertionError"]:
                        continue
                    c = mk("raised", s.lineno)
                    self.notes.append(f"exception handler without modelled exception at line {s.lineno}")
                    self.branch(c, lambda h=h: self.run_handler(h, None, "Exception", scope, m), lambda: None)
        normal = self.st
        for exc, e, state in H["caught"]:
            h = None
            for hh, tys in zip(s.handlers, types):
                if any(exc_matches(exc, t) for t in tys):
                    h = hh
                    break
            self.st = state
            try:
                self.run_handler(h, e, exc, scope, m)
            except PathDead:
                self.st.dead = self.st.dead or "raise"
            hs = self.st
            c = T.assume(state.gate, base_gate)
            if normal.dead and not hs.dead:
                if normal.dead == "raise":
                    pass
                normal = hs
            elif hs.dead and not normal.dead:
                if hs.dead == "raise":
                    normal.gate = or_(normal.gate, state.gate)
            elif not hs.dead:
                normal = merge(c, hs, normal)
        self.st = normal
        if not self.st.dead and or_(self.st.gate, not_(base_gate)) is TRUE:
            self.st.gate = base_gate
        if s.finalbody:
            dead = self.st.dead
            self.st.dead = None
            self.exec_block(s.finalbody, scope, m)
            self.st.dead = self.st.dead or dead

    x_TryStar = x_Try

    def benign(self, body):
        return all(isinstance(b, (ast.Pass, ast.Import, ast.ImportFrom)) for b in body)

    def run_handler(self, h, e, exc, scope, m):
        if h.name:
            self.setvar(scope[-1], h.name, e if e is not None else self.unknown("exception object"))
        self.current_exc = getattr(self, "current_exc", []) + [exc]
        try:
            self.exec_block(h.body, scope, m)
        finally:
            self.current_exc = self.current_exc[:-1]

    filters = ()  # for each enclosing catch_warnings, whether warnings are suppressed

    def x_With(self, s, scope, m):
        before, options = self.filters, self.keep_option
        try:
            for it in s.items:
                mark = len(self.effects)
                v = self.ev(it.context_expr, scope, m)
                if isinstance(v, Term) and v.op == "options":
                    # taken back at the end of the block
                    self.effects[mark:] = [e for e in self.effects[mark:] if e.kind != "globalwrite"]
                    if v.args[0] is not NONE:
                        self.keep_option = v.args[0]
                if isinstance(v, Term) and v.op == "catch_warnings":
                    self.filters = self.filters + (v.args[0] is TRUE,)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, scope, m)
            self.exec_block(s.body, scope, m)
        finally:
            self.filters, self.keep_option = before, options

    keep_option = None

    def x_Global(self, s, scope, m):
        for n in s.names:
            self.globals_decl.setdefault(id(scope[-1]), {})[n] = scope[0]

    def x_Nonlocal(self, s, scope, m):
        for n in s.names:
            for fr in reversed(scope[1:-1]):
                if n in self.rec(fr)["vars"]:
                    self.globals_decl.setdefault(id(scope[-1]), {})[n] = fr
                    break

    globals_decl = {}

    def x_Delete(self, s, scope, m):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, scope, m)
                k = self.ev(t.slice, scope, m)
                self.del_item(o, k)
            elif isinstance(t, ast.Name):
                pass

    def x_Assign(self, s, scope, m):
        v = self.ev(s.value, scope, m)
        for t in s.targets:
            self.assign(t, v, scope, m)

    def x_AnnAssign(self, s, scope, m):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, scope, m), scope, m)

    def x_AugAssign(self, s, scope, m):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), scope, m)
            r = self.ev(s.value, scope, m)
            self.assign(s.target, self.inplace(op, old, r), scope, m)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, scope, m)
            k = self.ev_slice(s.target.slice, scope, m)
            r = self.ev(s.value, scope, m)
            old = self.getitem(o, k)
            self.setitem(o, k, self.binop(op, old, r))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, scope, m)
            r = self.ev(s.value, scope, m)
            self.setattr_(o, s.target.attr, self.inplace(op, self.getattr_(o, s.target.attr), r))

    def inplace(self, op, old, r):
        old = self.resolve(old)
        if isinstance(old, Obj):
            if old.kind == "list" and op == "Add":
                self.mutated(old, "extend")
                self.upd(old, elems=self.rec(old)["elems"] + tuple(self.elems_of(r)))
                return old
            if old.kind in ("da", "nd", "series"):
                v = self.binop(op, old, r)
                self.mutate_data(old, f"in-place {op}")
                self.upd(old, term=self.to_term(v))
                return old
            if old.kind in ("dict", "set") and op == "BitOr":
                self.mutated(old, "update")
                if old.kind == "dict":
                    self.dict_update(old, r)
                else:
                    self.upd(old, term=self.set_union(self.rec(old)["term"], self.to_set(r)))
                return old
            if old.kind in ("ds", "df"):
                self.mutate_data(old, f"in-place {op}")
        return self.binop(op, old, r)

    def assign(self, t, v, scope, m):
        if isinstance(t, ast.Name):
            fr = scope[-1]
            g = self.globals_decl.get(id(scope[-1]), {})
            if t.id in g:
                fr = g[t.id]
                if len(scope) > 1 and fr is scope[0]:
                    self.log("globalwrite", t.id, t)
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, scope, m)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, scope, m)
            k = self.ev_slice(t.slice, scope, m)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, scope, m)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, scope, m)

    def unpack(self, v, t):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        v = self.resolve(v)
        if isinstance(v, Choice):
            a = self.unpack(v.a, t)
            b = self.unpack(v.b, t)
            return [self.choose(v.cond, x, y) for x, y in zip(a, b)]
        items = None
        if isinstance(v, TupleVal):
            items = list(v.items)
        elif isinstance(v, Obj) and v.kind == "list":
            es = self.rec(v)["elems"]
            if all(e[0] == "one" and e[1] is TRUE for e in es):
                items = [e[2] for e in es]
        elif isinstance(v, Term) and v.op == "tuple":
            items = list(v.args)
        elif isinstance(v, Term) and v.op == "ite":
            ls = T.leaves(v)
            if all(x.op == "tuple" and len(x.args) == n for x in ls):
                return [T.lift(lambda x, i=i: x.args[i], v) for i in range(n)]
        elif isinstance(v, Tensor) and v.axes and isinstance(v.axes[0], int):
            items = [self.tensor_index(v, 0, i) for i in range(v.axes[0])]
        if items is not None:
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                mid = self.new_list(items[i : i + k])
                return items[:i] + [mid] + items[i + k :]
            if len(items) == n:
                return items
            self.raise_if(TRUE, "ValueError", st("unpack"), t)
        if star:
            # from the front up to the star, from the back after it
            i, last = star[0], n - 1 - star[0]
            lo = num(i) if i else T.NONE
            hi = num(-last) if last else T.NONE
            mid = self.getitem(v, self.mk_slice(lo, hi, T.NONE))
            return [self.getitem(v, num(k)) for k in range(i)] + [mid] + [self.getitem(v, num(k - last)) for k in range(last)]
        return [self.getitem(v, num(i)) for i in range(n)]

    def choose(self, c, a, b):
        """phi value in the current state"""
        mg = Merger(c, self.st, self.st)
        mg.out = self.st
        return mg.val(a, b)

    # ----------------------------------------------------------- loops
    def x_For(self, s, scope, m):
        it = self.ev(s.iter, scope, m)

        def body(x):
            self.assign(s.target, x, scope, m)
            self.exec_block(s.body, scope, m)

        self.run_loop(it, body, s)
        if s.orelse and not self.st.dead:
            self.exec_block(s.orelse, scope, m)

    x_AsyncFor = x_For

    def x_While(self, s, scope, m):
        # loops with a constant bound on the iterations are unrolled, others
        # are not analysed
        for _ in range(MAX_UNROLL):
            mark = len(self.effects)
            c = self.cond(s.test, scope, m)
            if c is FALSE or not self.feasible(c):
                return
            if c is not TRUE and self.feasible(not_(c)):
                break
            self.loopctl.append({"break": [], "continue": []})
            try:
                self.exec_block(s.body, scope, m)
            finally:
                ctl = self.loopctl.pop()
            if ctl["break"] or ctl["continue"] or self.st.dead:
                break
        self.unknown("while loop")
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(scope[-1], n.id, self.unknown("assigned in while loop"))

    def x_Break(self, s, scope, m):
        if self.loopctl:
            self.loopctl[-1]["break"].append(self.st)
        self.st = State(dict(self.st.heap), self.st.pc, self.st.gate, "return")

    def x_Continue(self, s, scope, m):
        if self.loopctl:
            self.loopctl[-1]["continue"].append(self.st)
        self.st = State(dict(self.st.heap), self.st.pc, self.st.gate, "return")

    def run_loop(self, it, body, node):
        """Runs body(x) for the elements of it."""
        segs = self.elems_of(it)
        breaks = []
        entry_gate = self.st.gate
        for seg in segs:
            if self.st.dead:
                break
            if seg[0] == "one":
                g = seg[1]

                def run(seg=seg):
                    self.loopctl.append({"break": [], "continue": []})
                    try:
                        body(seg[2])
                    except PathDead:
                        self.st.dead = self.st.dead or "raise"
                    finally:
                        ctl = self.loopctl.pop()
                    self.rejoin(ctl["continue"])
                    for b in ctl["break"]:
                        breaks.append(b)

                self.branch(g, run, lambda: None)
            else:
                self.sym_loop(seg, body, node)
        if breaks:
            dead = self.st.dead
            states = list(breaks)
            if not dead:
                states.append(self.st)
            cur = states[-1]
            for b in reversed(states[:-1]):
                cur = merge(T.assume(b.gate, entry_gate), b, cur)
            cur.dead = None
            self.st = cur
            if or_(self.st.gate, not_(entry_gate)) is TRUE:
                self.st.gate = entry_gate
        if self.st.dead == "raise":
            raise PathDead()

    def rejoin(self, states):
        for b in states:
            if self.st.dead:
                keep = self.st.dead
                self.st = b
                self.st.dead = None
            else:
                self.st = merge(b.gate, b, self.st)

    def sym_loop(self, seg, body, node):
        _, S, bv0, guard0, val0 = seg
        bv = fresh_bv()
        T.DOMAIN[bv] = S.args[0] if S.op in ("setof", "sorted", "aslist") else S
        if bv0 in self.namevars or S.op == "attr" and S.args[1] in ("coords", "dims", "variables", "data_vars"):
            self.namevars.add(bv)
        x = self.subst_val(val0, {bv0: bv})
        guard = subst(guard0, {bv0: bv})
        base = self.st
        mark = len(self.effects)
        self.loop_depth += 1

        def once(state):
            self.st = state
            self.loopctl.append({"break": [], "continue": []})
            try:
                self.branch(guard, lambda: body(x), lambda: None)
            except PathDead:
                self.st.dead = self.st.dead or "raise"
            finally:
                ctl = self.loopctl.pop()
            self.rejoin(ctl["continue"])
            if ctl["break"]:
                self.unknown("break in a loop over data")
                self.rejoin(ctl["break"])
            return self.st

        s1 = once(State(dict(base.heap), base.pc, base.gate))
        dead1 = s1.dead
        if dead1 in ("return",):
            # return inside a loop over data
            self.unknown("return in a loop over data")
        changed = self.loop_changes(base, s1)
        carry = {}
        if changed["vars"] or changed["terms"]:
            del self.effects[mark:]
            st2 = State(dict(base.heap), base.pc, base.gate)
            self.st = st2
            for (fid, name) in changed["vars"]:
                old = base.heap[fid]["vars"][name]
                c = mk("bv", -1000 - fresh_bv().args[0])
                kind = old.kind if isinstance(old, Obj) else None
                if kind in ("da", "nd", "series", "df"):
                    r = base.heap[old.id]
                    v = self.new_arr(kind, c, r.get("attrs"), r.get("name", NONE))
                    carry[(fid, name)] = (c, self.to_term_in(old, base))
                elif isinstance(old, Term):
                    v = c
                    carry[(fid, name)] = (c, old)
                else:
                    continue
                vs = dict(st2.heap[fid]["vars"])
                vs[name] = v
                r = dict(st2.heap[fid])
                r["vars"] = vs
                st2.heap[fid] = r
            for oid in changed["terms"]:
                c = mk("bv", -1000 - fresh_bv().args[0])
                r = dict(st2.heap[oid])
                carry[(oid, None)] = (c, r["term"])
                r["term"] = c
                st2.heap[oid] = r
            st2base = State(dict(st2.heap), st2.pc, st2.gate)
            s1 = once(st2)
            changed = self.loop_changes(base, s1)
        self.loop_depth -= 1
        out = State(dict(base.heap), base.pc, base.gate)
        for i, r in s1.heap.items():
            if i not in out.heap:
                out.heap[i] = r
        self.st = out

        def fin(c, init, new):
            if c is not None and c in subterms(new):
                d = T.sub(new, c)
                if c not in subterms(d):
                    h, f = close(bv, d)
                    S2, (d2,) = deindex(S, bv, d)
                    h, f = close(bv, d2)
                    return T.add(init, mk("sumover", S2, h, f))
                h0 = 1 + max(height(new), 0)
                step = subst(new, {bv: mk("bound", h0), c: mk("carried", h0)})
                return mk("fold", S, h0, init, step)
            S2, (n2,) = deindex(S, bv, new)
            if bv not in subterms(n2):
                return ite(T.nonempty(S2), n2, init) if init is not T.ABSENT else n2
            h, f = close(bv, n2)
            return mk("last", S2, h, f, init)

        for i, r in s1.heap.items():
            r0 = base.heap.get(i)
            if r0 is None or r0 is r:
                continue
            if "vars" in r:
                vs = dict(r0["vars"])
                for n, v in r["vars"].items():
                    v0 = r0["vars"].get(n)
                    if v0 is v:
                        continue
                    ci = carry.get((i, n))
                    if v0 is not None and ci is None and isinstance(v0, Obj) and v is v0:
                        continue
                    c, init = ci if ci else (None, T.ABSENT if v0 is None else self.to_term_in(v0, base))
                    if ci and isinstance(v, Term) and v is c:
                        continue
                    if isinstance(v, Obj) and v.kind in ("da", "nd", "series", "df"):
                        t = self.to_term_in(v, s1)
                        if t is c:
                            continue
                        rr = s1.heap[v.id]
                        vs[n] = self.new_arr(v.kind, fin(c, init, t), rr.get("attrs"), rr.get("name", NONE))
                    elif isinstance(v, Term):
                        vs[n] = fin(c, init, v)
                    elif isinstance(v, (FuncVal, LibRef, ModuleVal)):
                        vs[n] = v
                    elif v0 is None:
                        vs[n] = v  # a temporary of the loop body
                    else:
                        vs[n] = v if not self.mentions(v, bv, s1) else self.unknown(f"{n} after a loop")
                out.heap[i] = {**r0, "vars": vs}
                continue
            nr = dict(r0)
            for k, v in r.items():
                v0 = r0.get(k)
                if v is v0:
                    continue
                if k == "elems":
                    n = len(v0)
                    if tuple(v[:n]) == tuple(v0):
                        es = []
                        for e in v[n:]:
                            if e[0] == "one":
                                es.append(("each", S, bv, e[1], e[2]))
                            else:
                                u = self.unknown("nested loop appends")
                                es.append(("one", TRUE, u))
                        nr[k] = tuple(v0) + tuple(es)
                    else:
                        nr[k] = (("one", TRUE, self.unknown("list changed in a loop")),)
                elif k == "items":
                    its = dict(v0)
                    each = list(nr.get("each", ()))
                    for kk, gv in v.items():
                        if kk in v0 and v0[kk] is gv:
                            continue
                        if bv in subterms(kk):
                            each.append((S, bv, gv[0], kk, gv[1]))
                        elif self.mentions(gv[1], bv, s1) or bv in subterms(gv[0]):
                            its[kk] = (TRUE, self.unknown("item set in a loop"))
                        else:
                            its[kk] = gv
                    nr[k] = its
                    nr["each"] = tuple(each)
                elif k == "each":
                    nr[k] = tuple(nr.get("each", ())) + tuple(e for e in v if e not in nr.get("each", ()))
                elif k == "symitems":
                    nr[k] = {kk: vv for kk, vv in v.items() if bv not in subterms(kk)}
                elif k == "term":
                    ci = carry.get((i, None))
                    c, init = ci if ci else (None, v0)
                    if v is not c:
                        nr[k] = fin(c, init, v)
                elif isinstance(v, Term) and isinstance(v0, Term):
                    nr[k] = fin(None, v0, v)
                else:
                    nr[k] = v
            out.heap[i] = nr
        # quantify the conditions of what happened in the body
        for e in self.effects[mark:]:
            inner = TRUE
            if bv in subterms(e.pc):
                inner = T.cofactor(T.assume(e.pc, base.pc), base.pc)
                e.pc = and_(base.pc, mk_exists(S, bv, inner))
            else:
                e.pc = and_(e.pc, T.nonempty(S) if S.op != "range0" else TRUE)
            e.data = self.close_data(e.data, S, bv, inner)
        # conditions that hold after the loop: no iteration raised
        for e in self.effects[mark:]:
            if e.kind == "raise":
                out.pc = and_(out.pc, not_(e.pc))
        self.st = out

    def close_data(self, d, S, bv, cond):
        if isinstance(d, Term):
            if bv in subterms(d):
                return mk_each(S, bv, cond, d)
            return d
        if isinstance(d, tuple):
            return tuple(self.close_data(x, S, bv, cond) for x in d)
        return d

    def mentions(self, v, bv, state):
        try:
            return bv in subterms(self.to_term_in(v, state))
        except Exception:
            return True

    def to_term_in(self, v, state):
        cur = self.st
        self.st = state
        try:
            return self.to_term(v)
        finally:
            self.st = cur

    def loop_changes(self, base, s1):
        ch = {"vars": [], "terms": []}
        for i, r in s1.heap.items():
            r0 = base.heap.get(i)
            if r0 is None or r0 is r:
                continue
            if "vars" in r:
                for n, v in r["vars"].items():
                    if n in r0["vars"] and r0["vars"][n] is not v and n != "$ret":
                        ch["vars"].append((i, n))
            elif "term" in r and r["term"] is not r0.get("term"):
                ch["terms"].append(i)
        return ch

    def subst_val(self, v, mp):
        if isinstance(v, Term):
            return subst(v, mp)
        if isinstance(v, TupleVal):
            return TupleVal([self.subst_val(x, mp) for x in v.items])
        if isinstance(v, Obj) and v.kind in ("da", "nd", "series", "df"):
            r = self.rec(v)
            t = subst(r["term"], mp)
            if t is r["term"]:
                return v
            o = self.new(v.kind, **{**r, "term": t})
            at = self.rec(r["attrs"]) if isinstance(r.get("attrs"), Obj) else None
            if at is not None and at.get("base") is not None:
                self.upd(o, attrs=self.new("dict", **{**at, "base": subst(at["base"], mp)}))
            return o
        if isinstance(v, Obj) and v.kind == "ds":
            r = self.rec(v)
            t = subst(self.to_term(v), mp)
            return self.new_ds(base=t, attrs=r["attrs"])
        if isinstance(v, Obj) and v.kind == "list":
            r = self.rec(v)
            es = []
            for e in r["elems"]:
                if e[0] == "one":
                    es.append(("one", subst(e[1], mp), self.subst_val(e[2], mp)))
                else:
                    es.append(("each", subst(e[1], mp), e[2], subst(e[3], mp), self.subst_val(e[4], mp)))
            return self.new_list_elems(es)
        if isinstance(v, Choice):
            return Choice(subst(v.cond, mp), self.subst_val(v.a, mp), self.subst_val(v.b, mp))
        return v

    # -------------------------------------------------------- expressions
    def cond(self, node, scope, m):
        return self.truthy(self.ev(node, scope, m))

    def truthy(self, v):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.truthy(v.a), self.truthy(v.b))
        if isinstance(v, Obj):
            if v.kind in ("da", "nd", "series", "ds", "df"):
                if v.kind in ("da", "nd", "series"):
                    self.log("force", ("bool", self.to_term(v)))
                    t = self.rec(v)["term"]
                    return truth(t)
                return mk("truth", self.to_term(v))
            if v.kind == "list":
                return truth(self.to_term(v))
            if v.kind == "dict":
                r = self.rec(v)
                c = or_(FALSE, *[g for g, _ in r["items"].values()])
                if r["base"] is not None:
                    c = or_(c, mk("truth", r["base"]))
                return c
            if v.kind == "set":
                return truth(self.rec(v)["term"])
            return TRUE
        if isinstance(v, TupleVal):
            return TRUE if v.items else FALSE
        if isinstance(v, Term):
            return truth(v)
        return TRUE

    def resolve(self, v):
        """Drops the alternatives that the path condition excludes."""
        while isinstance(v, Choice):
            if and_(self.st.pc, v.cond) is FALSE:
                v = v.b
            elif and_(self.st.pc, not_(v.cond)) is FALSE:
                v = v.a
            else:
                return v
        if isinstance(v, Term) and v.op == "ite" and self.st.pc is not TRUE:
            return self.restrict_pc(v)
        return v

    def restrict_pc(self, v):
        while v.op == "ite":
            c = v.args[0]
            if and_(self.st.pc, c) is FALSE:
                v = v.args[2]
            elif and_(self.st.pc, not_(c)) is FALSE:
                v = v.args[1]
            else:
                break
        return v

    def ev(self, n, scope, m):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise RuntimeError("analysis budget exceeded")
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            return self.unknown(f"expression {type(n).__name__}")
        prev = self.node
        if hasattr(n, "lineno"):
            self.node = n
        try:
            return f(n, scope, m)
        finally:
            self.node = prev

    def ev_slice(self, n, scope, m):
        return self.ev(n, scope, m)

    def e_Constant(self, n, scope, m):
        v = n.value
        if isinstance(v, float) and repr(v).startswith("3.14159265358979"):
            return T.PI
        return T.const(v)

    def e_Name(self, n, scope, m):
        v = self.getvar(scope, n.id)
        if v is None:
            v = self.builtin(n.id)
        if v is None:
            if self.star_import(m):
                return self.unknown(f"name {n.id}")
            self.raise_if(TRUE, "NameError", st(n.id), n)
            raise PathDead()
        for fr in reversed(scope):
            r = self.rec(fr)
            if n.id in r["vars"]:
                c = (r.get("undef") or {}).get(n.id)
                if c is not None and not T.contains(c, lambda x: x.op in ("bv", "bound", "raised", "exists", "unknown")):
                    self.raise_if(c, "NameError", st(n.id), n)
                break
        return self.resolve(v)

    def star_import(self, m):
        """Whether names may come from elsewhere"""
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) and (s.module or "").split(".")[0] != self.program.package:
                return True
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ("globals", "exec", "eval", "vars", "locals", "setattr"):
                return True
        return False

    def e_NamedExpr(self, n, scope, m):
        v = self.ev(n.value, scope, m)
        self.assign(n.target, v, scope, m)
        return v

    def e_Tuple(self, n, scope, m):
        out = []
        sym = False
        for e in n.elts:
            if isinstance(e, ast.Starred):
                for s in self.elems_of(self.ev(e.value, scope, m)):
                    if s[0] == "one" and s[1] is TRUE:
                        out.append(s[2])
                    else:
                        sym = True
                        out.append(s)
            else:
                out.append(self.ev(e, scope, m))
        if sym:
            es = [x if isinstance(x, tuple) else one(x) for x in out]
            return self.new_list_elems(es)
        return TupleVal(out)

    def e_List(self, n, scope, m):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.elems_of(self.ev(e.value, scope, m)))
            else:
                out.append(one(self.ev(e, scope, m)))
        return self.new_list_elems(out)

    def e_Set(self, n, scope, m):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [self.to_set(self.ev(e.value, scope, m)) for e in n.elts if isinstance(e, ast.Starred)]
            ones = [self.to_term(self.ev(e, scope, m)) for e in n.elts if not isinstance(e, ast.Starred)]
            return self.new_set(self.set_union(*parts, mk("set", *sorted(set(ones), key=lambda t: t.id))))
        return self.new_set(mk("set", *sorted({self.to_term(self.ev(e, scope, m)) for e in n.elts}, key=lambda t: t.id)))

    def new_set(self, term):
        return self.new("set", term=term, origin=frozenset())

    def e_Dict(self, n, scope, m):
        d = self.new_dict({})
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, scope, m))
            else:
                kv = self.ev(k, scope, m)
                self.setitem(d, kv, self.ev(v, scope, m))
        return d

    def e_Attribute(self, n, scope, m):
        return self.getattr_(self.ev(n.value, scope, m), n.attr)

    def e_Subscript(self, n, scope, m):
        o = self.ev(n.value, scope, m)
        return self.getitem(o, self.ev_slice(n.slice, scope, m))

    def e_Slice(self, n, scope, m):
        def g(x):
            return NONE if x is None else self.to_term(self.ev(x, scope, m))

        return self.mk_slice(g(n.lower), g(n.upper), g(n.step))

    def mk_slice(self, a, b, c):
        if c is ONE:
            c = NONE
        if a is ZERO and c is NONE:
            a = NONE
        return mk("slice", a, b, c)

    def e_UnaryOp(self, n, scope, m):
        v = self.ev(n.operand, scope, m)
        if isinstance(n.op, ast.Not):
            return not_(self.truthy(v))
        if isinstance(n.op, ast.USub):
            return self.binop("Mult", num(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.invert(v)

    def e_BinOp(self, n, scope, m):
        a = self.ev(n.left, scope, m)
        b = self.ev(n.right, scope, m)
        return self.binop(type(n.op).__name__, a, b)

    def e_BoolOp(self, n, scope, m):
        def rec(i):
            v = self.ev(n.values[i], scope, m)
            if i == len(n.values) - 1:
                return v
            c = self.truthy(v)
            if isinstance(n.op, ast.And):
                return self.fork_val(c, lambda: rec(i + 1), lambda: v if not isinstance(v, Term) or not T.is_bool(v) else FALSE)
            return self.fork_val(c, lambda: v if not isinstance(v, Term) or not T.is_bool(v) else TRUE, lambda: rec(i + 1))

        return rec(0)

    def e_IfExp(self, n, scope, m):
        c = self.cond(n.test, scope, m)
        return self.fork_val(c, lambda: self.ev(n.body, scope, m), lambda: self.ev(n.orelse, scope, m))

    def e_Compare(self, n, scope, m):
        left = self.ev(n.left, scope, m)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, scope, m)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = self.binop("BitAnd", res, c) if not (isinstance(res, Term) and isinstance(c, Term)) else and_(res, c)
            left = right
        return res

    def e_JoinedStr(self, n, scope, m):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(st(v.value))
            else:
                parts.append(self.e_FormattedValue(v, scope, m))
        return T.lift(lambda *xs: fmt(xs), *parts) if len(parts) <= 6 else fmt(parts)

    def e_FormattedValue(self, n, scope, m):
        v = self.ev(n.value, scope, m)
        spec = None
        if n.format_spec is not None:
            spec = self.ev(n.format_spec, scope, m)
            if spec.op == "str" and spec.args[0] == "":
                spec = None
        if isinstance(v, Obj) and v.kind in ("da", "nd", "ds", "df"):
            self.log("format", (self.to_term(v),))
        t = self.str_of(v)
        if spec is not None:
            return self.format_spec(self.to_term(v), spec)
        if n.conversion not in (-1, 115):
            return mk("conv", t, n.conversion)
        return t

    def e_Lambda(self, n, scope, m):
        return self.make_func(n, scope, m, "<lambda>")

    def e_Starred(self, n, scope, m):
        return self.ev(n.value, scope, m)

    def e_Call(self, n, scope, m):
        f = self.ev(n.func, scope, m)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if name in ("assign_attrs", "set_options", "map", "update", "setattr") or any(k.arg is None or k.arg in ("keep_attrs", "combine_attrs", "attrs") for k in n.keywords):
            self.log("attrcall", (name,))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                for s in self.elems_of(self.ev(a.value, scope, m)):
                    if s[0] == "one" and s[1] is TRUE:
                        args.append(s[2])
                    else:
                        args.append(mk("starred", self.seg_term(s)))
            else:
                args.append(self.ev(a, scope, m))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, scope, m))
                if isinstance(d, Obj) and d.kind == "dict":
                    r = self.rec(d)
                    for kk, (g, v) in r["items"].items():
                        if kk.op == "str":
                            kwargs[kk.args[0]] = v
                        else:
                            kwargs.setdefault("**sym", []).append((kk, v))
                    if r["base"] is not None:
                        kwargs["**"] = self.to_term(d)
                    for e in r["each"]:
                        kwargs["**"] = self.to_term(d)
                else:
                    kwargs["**"] = self.to_term(d)
            else:
                kwargs[k.arg] = self.ev(k.value, scope, m)
        self.node = n
        return self.call(f, args, kwargs)

    # comprehensions ----------------------------------------------------
    def comp(self, n, scope, m, emit):
        # a comprehension has its own scope
        fr = self.new("frame", vars={})
        sc = list(scope) + [fr]

        def gen(i):
            if i == len(n.generators):
                emit(sc)
                return
            g = n.generators[i]
            it = self.ev(g.iter, sc if i else scope, m)

            def body(x):
                self.assign(g.target, x, sc, m)

                def conds(j):
                    if j == len(g.ifs):
                        gen(i + 1)
                        return
                    c = self.cond(g.ifs[j], sc, m)
                    self.branch(c, lambda: conds(j + 1), lambda: None)

                conds(0)

            self.run_loop(it, body, n)

        gen(0)

    def e_ListComp(self, n, scope, m):
        out = self.new_list([])

        def emit(sc):
            v = self.ev(n.elt, sc, m)
            self.upd(out, elems=self.rec(out)["elems"] + (one(v),))

        self.comp(n, scope, m, emit)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, scope, m):
        return self.new_set(self.to_set(self.e_ListComp(n, scope, m)))

    def e_DictComp(self, n, scope, m):
        out = self.new_dict({})

        def emit(sc):
            k = self.ev(n.key, sc, m)
            v = self.ev(n.value, sc, m)
            self.setitem(out, k, v)

        self.comp(n, scope, m, emit)
        return out

    def e_Yield(self, n, scope, m):
        v = NONE if n.value is None else self.ev(n.value, scope, m)
        g = self.getvar(scope, "$gen")
        if g is not None:
            self.upd(g, elems=self.rec(g)["elems"] + (one(v),))
        return NONE

    def e_YieldFrom(self, n, scope, m):
        g = self.getvar(scope, "$gen")
        es = self.elems_of(self.ev(n.value, scope, m))
        if g is not None:
            self.upd(g, elems=self.rec(g)["elems"] + tuple(es))
        return NONE

    def e_Await(self, n, scope, m):
        return self.unknown("await")

    # --------------------------------------------------------------- calls
    returns = []

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.fork_val(f.cond, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, LibRef):
            return self.lib_call(f.name, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call_method(f.recv, f.name, args, kwargs)
        if isinstance(f, Term) and f.op == "deco":
            return self.decorate(f, args[0])
        if isinstance(f, Obj):
            # calling an instance
            return self.generic_call(self.to_term(f), "__call__", args, kwargs)
        if isinstance(f, Term):
            if f.op == "unknown":
                for a in args:
                    self.escape(a)
                return self.unknown("call of an unknown function")
            return mk("meth", "__call__", f, tuple(self.to_term(a) for a in args), self.kw_terms(kwargs))
        return self.unknown("call of an unknown value")

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            vals[a.vararg.arg] = TupleVal(extra)
        elif extra:
            self.raise_if(TRUE, "TypeError", st(f"too many arguments for {f.qualname}"), self.node)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        base = kwargs.pop("**", None)
        symkw = kwargs.pop("**sym", None)
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.raise_if(TRUE, "TypeError", st(f"multiple values for {k}"), self.node)
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            d = self.new_dict({st(k): v for k, v in rest.items()}, base=base)
            vals[a.kwarg.arg] = d
        elif rest:
            self.raise_if(TRUE, "TypeError", st(f"unexpected argument {sorted(rest)[0]} of {f.qualname}"), self.node)
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[nme] = f.defaults[j]
                elif base is not None:
                    vals[nme] = mk("item", base, st(nme))
                else:
                    self.raise_if(TRUE, "TypeError", st(f"missing argument {nme} of {f.qualname}"), self.node)
        for i, nme in enumerate(kwonly):
            if nme not in vals:
                if f.kwdefaults[i] is not None:
                    vals[nme] = f.kwdefaults[i]
                else:
                    self.raise_if(TRUE, "TypeError", st(f"missing argument {nme} of {f.qualname}"), self.node)
        return vals

    def call_func(self, f, args, kwargs):
        key = f"{f.module.name}.{f.qualname}"
        self.functions.add(key)
        if key in self.opaque:
            return self.opaque[key](self, f, args, kwargs)
        if len(self.callstack) > MAX_DEPTH or sum(1 for c in self.callstack if c == (f.module.path, f.qualname)) > 2:
            return self.unknown(f"recursion in {f.qualname}")
        vals = self.bind(f, args, kwargs)
        fr = self.new("frame", vars=dict(vals))
        scope = list(f.scope) + [fr]
        caller_node = self.node
        self.callstack.append((f.module.path, f.qualname))
        base_gate = self.st.gate
        self.returns = self.returns + [[]]
        saved_ctl, self.loopctl = self.loopctl, []
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, scope, f.module)
                return v
            isgen = f.generator
            if isgen is None:
                isgen = any(
                    isinstance(x, (ast.Yield, ast.YieldFrom))
                    for x in self.own_nodes(f.node)
                )
                f.generator = isgen
            if isgen:
                self.setvar(fr, "$gen", self.new_list([]))
            try:
                self.exec_block(f.node.body, scope, f.module)
            except PathDead:
                self.st.dead = self.st.dead or "raise"
            rets = self.returns[-1]
            if not self.st.dead:
                self.setvar(fr, "$ret", NONE)
                rets.append(self.st)
            if not rets:
                self.st.dead = "raise"
                raise PathDead()
            cur = rets[-1]
            for r in reversed(rets[:-1]):
                cur = merge(T.assume(r.gate, base_gate), r, cur)
            self.st = cur
            self.st.dead = None
            if or_(self.st.gate, not_(base_gate)) is TRUE:
                self.st.gate = base_gate
            elif len(rets) > 1 or self.st.gate is not base_gate:
                # paths that did not return raised: they do not narrow the gate
                self.st.gate = base_gate if not self.handlers else self.st.gate
            v = self.rec(fr)["vars"]["$ret"]
            if isgen:
                v = self.rec(fr)["vars"]["$gen"]
            return self.resolve(v)
        finally:
            self.callstack.pop()
            self.returns = self.returns[:-1]
            self.loopctl = saved_ctl
            self.node = caller_node

    def own_nodes(self, fn):
        stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))

    def kw_terms(self, kwargs):
        out = []
        for k in sorted(kwargs):
            if k == "**sym":
                for kk, v in kwargs[k]:
                    out.append(("**", mk("tuple", kk, self.to_term(v))))
            else:
                out.append((k, self.to_term(kwargs[k])))
        return tuple(out)
