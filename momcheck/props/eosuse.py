"""C03, C04: which equation of state, at which pressure"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..checks import EOS, EOS_FUNCS, pick
from ..contexts import S, names, args, arr, ds, lit, steric_args
from ..views import View, unmodelled

D = "momlevel.derived."
NAMES = {
    "wright": ["wright", "Wright", "WRIGHT", "wRIGHT"],
    "linear": ["linear", "Linear", "LINEAR", "lINEAR"],
}
UNKNOWN = ["teos10", "", "wright97", "lin", "UNESCO", "jackett_mcdougall", " wright", "wright ", "linear_", "wrigh", "inear"]


def entry_points():
    """(label, function, name of the option, arguments)"""
    T3 = [arr("T"), arr("S"), arr("p")]
    out = [
        ("calc_alpha", D + "calc_alpha", "eos", T3, {}),
        ("calc_beta", D + "calc_beta", "eos", T3, {}),
        ("calc_rho", D + "calc_rho", "eos", T3, {}),
        ("calc_pdens", D + "calc_pdens", "eos", T3[:2], dict(level=S("level"), patm=S("patm"))),
        ("calc_n2", D + "calc_n2", "eos", T3[:2], dict(patm=S("patm"), zcoord=S("zc"), gravity=S("gravity"))),
        ("calc_n2/adjust", D + "calc_n2", "eos", T3[:2], dict(patm=S("patm"), zcoord=S("zc"), adjust_negative=TRUE)),
        ("calc_n2/interfaces", D + "calc_n2", "eos", T3[:2], dict(patm=S("patm"), zcoord=S("zc"), interfaces=arr("ifc"))),
        ("calc_stability_angle", D + "calc_stability_angle", "eos", T3, dict(zcoord=S("zc"))),
        ("setup_reference_state", "momlevel.reference.setup_reference_state", "eos", [ds()], dict(coord_names=names, patm=S("patm"))),
        ("inverse_barometer", "momlevel.dynamic.inverse_barometer", "equation_of_state", T3, dict(gravity=S("gravity"))),
    ]
    for domain in ("local", "global"):
        for v in ("steric", "thermosteric", "halosteric"):
            for ref in (False, True):
                kw = dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"), domain=st(domain), variant=st(v))
                if ref:
                    kw["reference"] = ds("ref")
                out.append((f"steric/{domain}/{v}/{'given' if ref else 'derived'}", "momlevel.steric.steric", "equation_of_state", [ds()], kw))
        for w in ("thermosteric", "halosteric"):
            kw = dict(coord_names=names, domain=st(domain))
            out.append((f"{w}/{domain}", f"momlevel.steric.{w}", "equation_of_state", [ds()], kw))
    return out


def swap_eos(t, src, dst):
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is None:
            if x.op == "eosfn" and x.args[0] == src:
                r = mk("eosfn", dst, x.args[1], *[rec(a) for a in x.args[2:]])
            else:
                r = T.rebuild(x, rec)
            memo[x] = r
        return r

    return rec(t)


def eos_calls(t):
    return [x for x in T.subterms(t) if x.op == "eosfn"]


def c03(ctx):
    ctx.opaque_eos()
    r1 = "every equation-of-state call in the result is one of the selected equation of state"
    r2 = "the result with one equation of state is that with the other, with only the equation of state exchanged"
    for label, func, opt, pos, kw in entry_points():
        ctx.attempt(label, r1, func, lambda: one(ctx, label, func, opt, pos, kw, r1, r2))
    rej = "an unknown name ends in a ValueError"
    for label, func, opt, pos, kw in entry_points():
        if label.startswith("steric") and ("given" in label or "local" in label):
            continue
        for bad in UNKNOWN[:2] if label not in ("calc_rho", "calc_alpha") else UNKNOWN:
            def go():
                r = ctx.run(func, args(*pos, **kw, **{opt: st(bad)}))
                k = f"{label}/reject/{bad}"
                if r.pc is not FALSE:
                    u = unmodelled(r.pc) or unmodelled(r.term())
                    if u is not None:
                        ctx.unsure(k, rej, func, T.pretty(u, 3))
                    else:
                        ctx.bad(k, rej, func, f"accepts the equation of state {bad!r}")
                    return
                other = [e for e in r.raises if e.data[0] not in ("ValueError",) and e.loc[1] in ("eos_func_from_str",)]
                vals = [e for e in r.raises if e.data[0] == "ValueError"]
                if other or not vals:
                    ctx.bad(k, rej, func, f"{bad!r} ends in {[e.data[0] for e in (other or r.raises)][:3]}, not in a ValueError")
                else:
                    ctx.ok(k, rej, func)
            ctx.attempt(f"{label}/reject/{bad}", rej, func, go)
    # the helper that maps names to functions
    sel = "the function of that name of the module of that name"
    f = "momlevel.util.eos_func_from_str"
    for e in EOS:
        for n in NAMES[e]:
            for fn in EOS_FUNCS:
                def go():
                    r = ctx.run(f, args(st(n), func_name=st(fn)))
                    t = r.term() if r.pc is not FALSE else None
                    k = f"select/{n}/{fn}"
                    if t is not None and t.op == "func" and t.args[0] == f"momlevel.eos.{e}.{fn}":
                        ctx.ok(k, sel, f)
                    elif t is None:
                        ctx.bad(k, sel, f, f"rejects {n!r}")
                    elif t.op == "func":
                        if t.args[0].split(".")[-1] != fn or EOS[1 - EOS.index(e)] in t.args[0]:
                            ctx.bad(k, sel, f, f"{n!r}, {fn!r} selects {t.args[0]}")
                        else:
                            ctx.unsure(k, sel, f, f"selects {t.args[0]}")
                    else:
                        ctx.unsure(k, sel, f, T.pretty(t, 3))
                ctx.attempt(f"select/{n}/{fn}", sel, f, go)
    ctx.opaque_eos(False)


def one(ctx, label, func, opt, pos, kw, r1, r2):
    view = View()
    base = {}
    for e in EOS:
        for n in NAMES[e] if not label.startswith("steric") else NAMES[e][:2]:
            r = ctx.run(func, args(*pos, **kw, **{opt: st(n)}))
            key = f"{label}/{n}"
            if r.pc is FALSE:
                ctx.bad(key, r1, func, f"rejects {n!r}")
                continue
            t = r.term()
            calls = eos_calls(t)
            wrong = [c for c in calls if c.args[0] != e]
            if wrong:
                ctx.bad(key, r1, func, f"with {opt}={n!r} evaluates {wrong[0].args[0]}.{wrong[0].args[1]}")
            elif not calls:
                u = unmodelled(t)
                ctx.unsure(key, r1, func, "no call of an equation of state in the result")
            else:
                ctx.ok(key, r1, func, f"{len(calls)} calls of {e}")
            base[n] = (t, r.pc)
    for a, b, src, dst in (("Wright", "linear", "wright", "linear"), ("wright", "Wright", "wright", "wright"), ("linear", "Linear", "linear", "linear")):
        if a in base and b in base:
            x = swap_eos(base[a][0], src, dst)
            cond = and_(base[a][1], base[b][1])
            ctx.same(f"{label}/{a}-{b}", r2, func, x, base[b][0], cond, view, what=f"result for {a!r} against {b!r}")


# ------------------------------------------------------------------- C04
def pressures(t):
    return [(c, c.args[4]) for c in eos_calls(t) if len(c.args) > 4]


def depth_pressure(coord, patm):
    return T.add(T.mul(coord, num(10000)), patm)


def c04(ctx):
    ctx.opaque_eos()
    rule = "every equation-of-state call in the result gets the pressure depth * 1e4 + patm"
    P = S("patm")
    view = View()
    for label, func, opt, pos, kw in entry_points():
        if label in ("calc_alpha", "calc_beta", "calc_rho", "calc_stability_angle", "inverse_barometer"):
            continue
        if label.startswith(("thermosteric", "halosteric")):
            kw = dict(kw, patm=P)
        for e in EOS:
            for dflt in (False, True):
                ctx.attempt(f"{label}/{e}", rule, func, lambda: press(ctx, label, func, opt, pos, dict(kw), e, rule, view, dflt))
    ctx.opaque_eos(False)


def press(ctx, label, func, opt, pos, kw, e, rule, view, dflt):
    key = f"{label}/{e}" + ("/default" if dflt else "")
    P = S("patm")
    if dflt:
        kw.pop("patm", None)
        P = num(101325)
    r = ctx.run(func, args(*pos, **kw, **{opt: st(e)}))
    if r.pc is FALSE:
        ctx.bad(key, rule, func, "never returns")
        return
    t = r.term()
    if label.startswith("calc_pdens"):
        want = depth_pressure(S("level"), P)
    elif label == "calc_n2/interfaces":
        ifc = mk("sym", "ifc", "da")
        want = None
    elif label.startswith("calc_n2"):
        want = depth_pressure(mk("item", mk("sym", "T", "da"), S("zc")), P)
    else:
        want = depth_pressure(mk("item", mk("sym", "ds", "ds"), S("zc")), P)
    ps = pressures(t)
    if not ps:
        ctx.unsure(key, rule, func, "no call of an equation of state in the result")
        return
    allowed = [want]
    if label.startswith("calc_n2") and want is not None:
        allowed.append(depth_pressure(mk("item", mk("sym", "S", "da"), S("zc")), P))
    for n, (c, p) in enumerate(sorted(set(ps), key=lambda q: q[0].id)):
        p = view(p)
        if want is None:
            # coordinate of the transformed field along the interfaces
            ok = interface_pressure(p, P)
            if ok:
                ctx.ok(f"{key}/{n}", rule, func)
            elif unmodelled(p):
                ctx.unsure(f"{key}/{n}", rule, func, T.pretty(p, 4))
            else:
                ctx.bad(f"{key}/{n}", rule, func, f"{c.args[1]} is evaluated at {T.pretty(p, 5)[:300]}")
            continue
        if any(p is view(w) for w in allowed):
            ctx.ok(f"{key}/{n}", rule, func, T.pretty(p, 4))
            continue
        ctx.same(f"{key}/{n}", rule, func, p, want, r.pc, view, what=f"pressure of {c.args[1]}")


def interface_pressure(p, patm):
    """1e4 * (a coordinate of the transformed field, or the interfaces) + patm"""
    rest = T.sub(p, patm)
    q = T.to_poly(rest)
    if len(q) != 1:
        return False
    (m, c), = q.items()
    if c != 10000 or len(m) != 1 or m[0][1] != 1:
        return False
    x = m[0][0]
    ifc = mk("sym", "ifc", "da")
    if x is ifc:
        return True
    if x.op == "item" and x.args[1] is mk("attr", ifc, "name"):
        return True
    return False
