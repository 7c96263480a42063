"""Analyses one function of the program for given symbolic arguments."""
import warnings

from . import terms as T
from . import ops
from .terms import mk, TRUE, FALSE, NONE, and_, not_, or_, num, st
from .values import Obj, TupleVal, Choice, PathDead, State, FuncVal, Partial, LibRef
from .interp import Interp, Program


class Missing(Exception):
    """The function to analyse is not there."""


class Run:
    """Outcome of one analysis: the returned value, when it returns, what it did."""

    def __init__(self, an, value, pc, effects, notes, state):
        self.an = an
        self.value = value
        self.pc = pc
        self.effects = effects
        self.notes = notes
        self.state = state

    @property
    def raises(self):
        return [e for e in self.effects if e.kind == "raise"]

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def at(self):
        """Makes the final state of this run current."""
        self.an.I.st = State(dict(self.state.heap), self.state.pc, self.state.gate)
        return self.an.I

    def term(self, v=None):
        I = self.at()
        return I.to_term(self.value if v is None else v)


class Analysis:
    def __init__(self, root="/repo/src", package="momlevel"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.program = Program(root, package)
        self.I = Interp(self.program)
        self.I.import_module(package)
        for m in sorted(self.program.modules):
            self.I.import_module(m)
        self.import_effects = list(self.I.effects)
        self.import_notes = list(self.I.notes)
        self.base = State(dict(self.I.st.heap))
        self.I.static_ids = frozenset(self.base.heap)
        self.runs = 0
        self.functions = set()

    def add_spec(self, name, path):
        self.I.st = State(dict(self.base.heap))
        self.program.add_file(name, path)
        self.I.import_module(name)
        self.base = State(dict(self.I.st.heap))

    def start(self):
        self.I.st = State(dict(self.base.heap))
        self.I.effects = []
        self.I.notes = []
        self.I.functions = set()
        self.I.handlers = []
        self.I.callstack = []
        self.I.loopctl = []
        self.I.loop_depth = 0
        self.I.steps = 0

    def find(self, dotted):
        self.I.st = State(dict(self.base.heap))
        f = self.I.lookup_function(dotted)
        if f is None:
            raise Missing(dotted)
        return f

    def run(self, func, build, assume=TRUE):
        """build(I) -> (args, kwargs); func: dotted name, or function of the interpreter."""
        f = self.find(func) if isinstance(func, str) else func
        self.start()
        I = self.I
        args, kwargs = build(I)
        I.st.pc = assume
        I.st.gate = TRUE
        I.effects = []
        I.notes = []
        try:
            v = I.call(f, args, kwargs)
            pc = I.st.pc
        except PathDead:
            v, pc = NONE, FALSE
        self.runs += 1
        self.functions |= I.functions
        return Run(self, v, T.renorm(pc), I.effects, I.notes, I.st)
