"""Obligations: what is compared, how differences are reported."""
import ast
import os

from . import terms as T
from . import ops
from .terms import Term, mk, TRUE, FALSE, NONE, and_, or_, not_
from .values import Obj, TupleVal, Choice
from .runner import Analysis, Missing, Run
from .views import View, compare, unmodelled, localise

SPECS = os.path.join(os.path.dirname(__file__), "specs")
VALUE = "value"
EOS = ("wright", "linear")
EOS_FUNCS = ("density", "drho_dtemp", "drho_dsal", "alpha", "beta")


def eos_node(name, func, *args):
    return mk("eosfn", name, func, *args)


def _eos_handler(name, func):
    def h(I, f, args, kwargs):
        vals = I.bind(f, args, kwargs)
        order = [vals[p] for p in list(vals)[:3]]
        extra = [v for p, v in list(vals.items())[3:] if v is not NONE]
        if extra:
            order = order + extra
        return I.ew(lambda *ts: T.lift(lambda *us: eos_node(name, func, *us), *ts), order)

    return h


def exists(c):
    """c for some truth values of the conditions without a model"""
    for a in sorted((a for a in T.atoms_of(c) if unmodelled(a) is not None), key=lambda a: a.id):
        c = or_(T.restrict(c, a, True), T.restrict(c, a, False))
    return c


class Obligation:
    def __init__(self, key, rule, where, status, detail=""):
        self.key = key
        self.rule = rule
        self.where = where
        self.status = status
        self.detail = detail


class Ctx:
    """One property's check"""

    strict = bool(os.environ.get("MOMCHECK_STRICT"))

    def __init__(self, prop, A):
        self.prop = prop
        self.A = A
        self.obligations = []
        self.notes = []

    # --------------------------------------------------------- reporting
    def place(self, func):
        """file:function of a dotted name"""
        mod, _, name = func.rpartition(".")
        m = self.A.program.modules.get(mod)
        if m is None:
            return func
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return f"{os.path.relpath(m.path, '/repo')}:{n.lineno} {name}"
        return f"{os.path.relpath(m.path, '/repo')} {name}"

    def add(self, key, rule, func, status, detail=""):
        self.obligations.append(Obligation(key, rule, self.place(func) if func and "." in func and " " not in func else func, status, detail))

    def ok(self, key, rule, func, detail=""):
        self.add(key, rule, func, "ok", detail)

    def bad(self, key, rule, func, detail):
        self.add(key, rule, func, "violation", detail)

    def unsure(self, key, rule, func, detail):
        self.add(key, rule, func, "inconclusive", detail)

    # ------------------------------------------------------------- running
    def opaque_eos(self, on=True):
        self.A.I.opaque = {}
        if on:
            for e in EOS:
                for f in EOS_FUNCS:
                    self.A.I.opaque[f"momlevel.eos.{e}.{f}"] = _eos_handler(e, f)

    def run(self, func, build, assume=TRUE):
        return self.A.run(func, build, assume)

    # ---------------------------------------------------------- obligations
    def same(self, key, rule, func, a, b, cond=TRUE, view=None, what="result"):
        """The nodes a (of the code) and b (of the rule) agree when cond holds."""
        view = view or View()
        try:
            va, vb = view(a), view(b)
            diffs = compare(va, vb, cond)
        except RecursionError:
            self.unsure(key, rule, func, "too deep to compare")
            return False
        if not diffs:
            self.ok(key, rule, func, what)
            return True
        real, maybe = [], []
        for c, x, y in diffs:
            p = localise(x, y)
            u = None
            if p is not None:
                u = unmodelled(p[0])
            if u is None and unmodelled(c) is None:
                real.append((c, p))
            elif u is None:
                maybe.append((c, p))
            else:
                self.notes.append(f"{key}: not decided, because of {T.pretty(u, 3)[:200]}")
        if maybe and not real:
            # different whatever the conditions without a model turn out to be
            d = or_(*[c for c, _ in maybe])
            sure = and_(exists(cond), not_(exists(and_(cond, not_(d)))))
            if sure is not FALSE:
                real = [(sure, maybe[0][1])]
            else:
                self.notes.append(f"{key}: not decided, because of {T.pretty(unmodelled(maybe[0][0]), 3)[:200]}")
        if not real:
            self.unsure(key, rule, func, "contains operations without a model")
            return False
        c, p = real[0]
        cs = "" if c is TRUE else f" when {T.pretty(c, 4)[:300]}"
        self.bad(key, rule, func, f"{what}: code has {T.pretty(p[0], 5)[:500]} ; expected {T.pretty(p[1], 5)[:500]}{cs}")
        return False

    def accepts(self, key, rule, func, run, cond):
        """The function returns (does not raise) whenever cond holds."""
        gap = and_(cond, not_(run.pc))
        if gap is FALSE:
            self.ok(key, rule, func, "returns on every path")
            return True
        u = unmodelled(gap)
        if u is not None or any(a.op in ("isinstance", "raised", "hasattr", "callable") for a in set(T.atoms_of(gap)) - set(T.atoms_of(cond))):
            self.unsure(key, rule, func, f"conditions not decided: {T.pretty(gap, 4)[:300]}")
            return False
        r = [e for e in run.raises if and_(e.pc, gap) is not FALSE]
        at = f" (raised at line {r[0].loc[2]}: {r[0].data[0]})" if r else ""
        self.bad(key, rule, func, f"raises for accepted input, when {T.pretty(gap, 5)[:400]}{at}")
        return False

    def refuses(self, key, rule, func, run, cond, pc=None):
        """The function returns only when cond holds."""
        gap = and_(run.pc if pc is None else pc, not_(cond))
        if gap is FALSE:
            self.ok(key, rule, func, "returns only then")
            return True
        u = unmodelled(gap)
        if u is not None or any(a.op in ("isinstance", "raised", "hasattr", "callable") for a in T.atoms_of(gap)):
            self.unsure(key, rule, func, f"conditions not decided: {T.pretty(gap, 4)[:300]}")
            return False
        self.bad(key, rule, func, f"does not reject the input when {T.pretty(gap, 6)[:500]}")
        return False

    def attempt(self, key, rule, func, f):
        """Runs one step; a failure of the analysis itself decides nothing."""
        try:
            return f()
        except Missing as e:
            self.bad("missing/" + str(e), "public interface", str(e), f"{e} is not defined (any more)")
        except TimeoutError:
            raise
        except Exception as e:
            if self.strict:
                raise
            self.notes.append(f"{key}: the analysis failed: {type(e).__name__} {e}")
            self.unsure(key, rule, func, "the analysis failed")
        return None

    def against(self, key, rule, func, *a, **k):
        return self.attempt(key, rule, func, lambda: self._against(key, rule, func, *a, **k))

    def _against(self, key, rule, func, spec, build, sel=None, view=None, assume=TRUE, domain=True, under=None, sbuild=None, norm=None):
        """func and the reference function spec agree on all inputs.

        sel: {label: selector(I, value) -> node}; domain: also the inputs that
        the reference function accepts are accepted."""
        r = self.run(func, build, assume)
        sel = sel or {"result": lambda I, v: I.to_term(v)}
        I = r.at()
        got = {k: self._sel(f, I, r.value) for k, f in sel.items()} if r.pc is not FALSE else {}
        s = self.run(spec, sbuild or build, assume)
        I = s.at()
        want = {k: self._sel(f, I, s.value) for k, f in sel.items()}
        if norm is not None:
            r.pc, s.pc = norm(r.pc), norm(s.pc)
        if s.pc is FALSE:
            raise AssertionError(f"reference function {spec} never returns")
        cond = and_(r.pc, s.pc)
        if under is not None:
            cond = and_(cond, under)
        good = True
        if domain:
            good = self.accepts(key + "/accepts", rule, func, r, and_(s.pc, assume if under is None else and_(assume, under)))
        if r.pc is FALSE:
            return r, s
        for k in sel:
            if want[k] is None:
                raise AssertionError(f"{spec}: nothing selected for {k}")
            if got[k] is None:
                self.bad(f"{key}/{k}", rule, func, f"{k} is not returned")
                continue
            self.same(f"{key}/{k}", rule, func, got[k], want[k], cond, view, what=k)
        return r, s

    def _sel(self, f, I, v):
        try:
            return f(I, v)
        except (KeyError, IndexError):
            return None


# ------------------------------------------------------------- selectors
def pick(*path):
    """Selector of a part of the result: tuple index, or dataset/dict key"""

    def f(I, v):
        for p in path:
            v = I.resolve(v)
            if isinstance(p, int) and isinstance(v, TupleVal):
                v = v.items[p]
            elif isinstance(p, str) and p.startswith("."):
                v = I.getattr_(v, p[1:])
            else:
                v = I.getitem(v, T.const(p) if not isinstance(p, Term) else p)
            if v is None:
                raise KeyError(p)
        return I.to_term(v)

    return f


def part(i):
    return lambda I, v: I.to_term(I.resolve(v).items[i])
