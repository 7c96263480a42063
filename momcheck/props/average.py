"""C19: time averages"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import S, args, arr, ds
from ..views import View

U, P = "momlevel.util.", "specs.average."


class AxisView(View):
    """The time axis is one-dimensional: its size and its length are the same"""

    def __init__(self, tc):
        super().__init__(keep_coords=True, keep_names=True)
        self.tc = tc

    def __call__(self, t):
        return lengths(super().__call__(t), self.tc)

    def value(self, t):
        if t.op == "dataset" and not t.args[2] and t.args[0] is not NONE and all(k is self.tc and v.op != "gelem" for k, v in t.args[1]):
            # setting the variable named like the axis
            t = mk("assign_coords", t.args[0], t.args[1])
        return super().value(t)


def lengths(t, tc):
    m = {}
    for x in T.subterms(t):
        if x.op == "attr" and x.args[1] == "size" and x.args[0].op == "item" and x.args[0].args[1] is tc:
            m[x] = mk("len", x.args[0])
        elif x.op == "item" and x.args[1] in (tc, T.ZERO) and x.args[0].op == "attr" and x.args[0].args[1] in ("sizes", "shape"):
            a = x.args[0].args[0]
            if x.args[1] is tc and x.args[0].args[1] == "sizes":
                m[x] = mk("len", a if a.op == "item" and a.args[1] is tc else mk("item", a, tc))
            elif x.args[1] is T.ZERO and a.op == "item" and a.args[1] is tc:
                m[x] = mk("len", a)
    return T.subst(t, m) if m else t


def c19(ctx):
    tc = S("tc")
    year = mk("sym", "year", "num")
    fm = mk("sym", "func", "str")
    kinds = {"array": arr("x"), "dataset": ds("x")}
    for kl, x in kinds.items():
        rule = "annual mean = days-weighted mean of the twelve values of each year, stamped with the middle of the year"
        for f, r in (("annual", rule), ("monthly", "monthly mean = mean of the values of each month of each year, stamped with the middle of the month")):
            F = U + f + "_average"
            ctx.against(f"{f}/{kl}", r, F, P + f"{f}_{kl}", args(x, tcoord=tc), sbuild=args(x, tc), view=AxisView(tc), norm=lambda t: lengths(t, tc))
            ctx.against(f"{f}/{kl}/default", r, F, P + f"{f}_{kl}", args(x), sbuild=args(x, st("time")), view=AxisView(st("time")), norm=lambda t: lengths(t, st("time")))

        def refuse():
            r = ctx.run(U + "annual_average", args(x, tcoord=tc))
            s = ctx.run(P + f"annual_{kl}", args(x, tc))
            r.pc = lengths(r.pc, tc)
            ctx.refuses(f"annual/{kl}/incomplete", "years without twelve values are refused", U + "annual_average", r, s.pc)

        ctx.attempt(f"annual/{kl}/incomplete", "years without twelve values are refused", U + "annual_average", refuse)
        F = U + "annual_cycle"
        rule = "climatology = statistic over all values of each calendar month, stamped with the middle of the month of the middle (or the requested) year"
        for fn in ("mean", "min", "max", "std", None):
            k = f"cycle/{kl}/{fn or 'default'}"
            w = st(fn or "mean")
            o = dict(func=st(fn)) if fn else {}
            ctx.against(k, rule, F, P + f"cycle_{kl}", args(x, tcoord=tc, **o), sbuild=args(x, tc, w), view=AxisView(tc), norm=lambda t: lengths(t, tc))
            ctx.against(k + "/year", rule, F, P + f"cycle_{kl}_in", args(x, tcoord=tc, time_axis_year=year, **o), sbuild=args(x, tc, w, year), view=AxisView(tc), norm=lambda t: lengths(t, tc))

        def unknown():
            r = ctx.run(F, args(x, tcoord=tc, func=fm))
            ctx.refuses(f"cycle/{kl}/unknown", "unknown statistics are rejected", F, r, or_(*[T.eq(fm, st(n)) for n in ("mean", "min", "max", "std")]))

        ctx.attempt(f"cycle/{kl}/unknown", "unknown statistics are rejected", F, unknown)
    steric_means(ctx)


def steric_means(ctx):
    """The annual option of the steric routines"""
    from .steric import options, F, VARIANTS

    rule = "with annual=True the result is the annual mean of the result without it"
    ctx.opaque_eos()
    view = View(keep_coords=True, keep_names=True)
    for domain in ("local", "global"):
        for variant in VARIANTS:
            for ref in (True, False):
                key = f"steric/{domain}/{variant}/{'given' if ref else 'derived'}"

                def go():
                    o = options(domain, variant, "Wright", ref)
                    r = ctx.run(F, args(ds(), annual=TRUE, **o))
                    s = ctx.run(P + "annual_steric", args(ds(), mk("sym", "tc", "str"), **o))
                    if r.pc is FALSE or s.pc is FALSE:
                        ctx.unsure(key, rule, F, "never returns")
                        return
                    ctx.same(key, rule, F, r.term(), s.term(), and_(r.pc, s.pc), view)

                ctx.attempt(key, rule, F, go)
    ctx.opaque_eos(False)
