"""C01-C04, C26: equations of state"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, not_
from ..checks import EOS, pick
from ..contexts import args
from ..views import View, unmodelled, equal, compare

E = "momlevel.eos."
D = "momlevel.derived."


def syms(*names, kind="nd"):
    return lambda I: ([I.sym(n, kind) for n in names], {})


def with_kw(kind, names, **kw):
    return lambda I: ([I.sym(n, kind) for n in names], {k: (v(I) if callable(v) else v) for k, v in kw.items()})


def differentiate(t, v):
    """Formal derivative, also of elementwise alternatives"""
    if t.op in ("where", "ite"):
        f = T.where if t.op == "where" else T.ite
        return f(t.args[0], differentiate(t.args[1], v), differentiate(t.args[2], v))
    return T.diff(t, v)


def c01(ctx):
    rule = "formal differentiation of the analysed density expression"
    for e in EOS:
        for kind in ("nd", "num"):
            m = f"{E}{e}."
            b = syms("T", "S", "p", kind=kind)
            rho = ctx.run(m + "density", b).term()
            tt, ss = mk("sym", "T", kind), mk("sym", "S", kind)
            try:
                view = View()
                rho = view(rho)
                d = {"T": differentiate(rho, tt), "S": differentiate(rho, ss)}
            except ValueError as x:
                ctx.unsure(f"{e}/{kind}/density", rule, m + "density", str(x))
                continue
            want = {
                "drho_dtemp": d["T"],
                "drho_dsal": d["S"],
                "alpha": T.neg(T.div(d["T"], rho)),
                "beta": T.div(d["S"], rho),
            }
            for fn, w in want.items():
                r = ctx.run(m + fn, b)
                if ctx.accepts(f"{e}/{kind}/{fn}/accepts", rule, m + fn, r, TRUE):
                    ctx.same(f"{e}/{kind}/{fn}", rule, m + fn, r.term(), w, r.pc)
        # the xarray front end
        for fn, base in (("calc_alpha", "alpha"), ("calc_beta", "beta")):
            w = ctx.run(f"{E}{e}.{base}", syms("T", "S", "p", kind="da")).term()
            r = ctx.run(D + fn, with_kw("da", ["T", "S", "p"], eos=st(e)))
            if ctx.accepts(f"{e}/{fn}/accepts", rule, D + fn, r, TRUE):
                ctx.same(f"{e}/{fn}", "the front end applies that coefficient pointwise", D + fn, r.term(), w, r.pc)


def c02(ctx):
    rule = "the analysed expression is the published rational function"
    S = "specs.eos."
    for kind in ("nd", "num", "da"):
        ctx.against(f"wright/{kind}", rule, E + "wright.density", S + "wright_density", syms("T", "S", "p", kind=kind))
        ctx.against(f"linear/{kind}", rule, E + "linear.density", S + "linear_density", syms("T", "S", "p", kind=kind))
        ctx.against(f"linear/ref/{kind}", rule, E + "linear.density", S + "linear_density",
                    with_kw(kind, ["T", "S", "p"], rho_ref=lambda I: I.sym("rho_ref", "num")))
        ctx.against(f"linear/nop/{kind}", rule, E + "linear.density", S + "linear_density", syms("T", "S", kind=kind))
    for e in EOS:
        for ks in (("da", "da", "da"), ("da", "da", "num")):
            def b(I, ks=ks):
                return [I.sym(n, k) for n, k in zip(("T", "S", "p"), ks)], {"eos": st(e)}

            def sb(I, ks=ks):
                return [I.sym(n, k) for n, k in zip(("T", "S", "p"), ks)], {}

            ctx.against(f"calc_rho/{e}/{ks[2]}", rule, D + "calc_rho", S + e + "_density", b, sbuild=sb)
        b = with_kw("da", ["T", "S"], eos=st(e), level=lambda I: I.sym("level", "num"), patm=lambda I: I.sym("patm", "num"))
        sb = with_kw("da", ["T", "S"], level=lambda I: I.sym("level", "num"), patm=lambda I: I.sym("patm", "num"))
        ctx.against(f"calc_pdens/{e}", rule, D + "calc_pdens", S + "pdens_" + e, b, sbuild=sb)


def c26(ctx):
    rule = "the analysed expression is the published polynomial"
    for kind in ("nd",):
        ctx.against(f"spice/{kind}", rule, "momlevel.spice.flament.spice", "specs.eos.spice", syms("T", "S", kind=kind), under=T.eq(
            mk("attr", mk("sym", "T", kind), "shape"), mk("attr", mk("sym", "S", kind), "shape")))
    for a, b in ((10, 35.5), (10.5, 35)):
        # numbers, whole or not
        one = lambda I, v: (lambda t: t.args[0] if t.op in ("list", "tuple") and len(t.args) == 1 else t)(I.to_term(v))
        ctx.against(f"spice/numbers/{a},{b}", rule, "momlevel.spice.flament.spice", "specs.eos.spice", args(num(a), num(b)), sel={"result": one})
    ctx.against("calc_spice", rule, D + "calc_spice", "specs.eos.spice", syms("T", "S", kind="da"), under=T.eq(
        mk("attr", mk("sym", "T", "da"), "shape"), mk("attr", mk("sym", "S", "da"), "shape")))
