"""C10: layer thickness"""
from .. import terms as T
from .. import ops, poly
from ..terms import mk, st, num, TRUE, FALSE, NONE, ZERO, and_, or_, not_
from ..contexts import args, arr
from ..views import View, unmodelled

F = "momlevel.derived.calc_dz"
TOP, BOT, DEPTH = mk("sym", "top", "num"), mk("sym", "bottom", "num"), mk("sym", "depth", "da")
ZT, ZB = mk("sym", "cell_top", "da"), mk("sym", "cell_bottom", "da")
KNOWN = "min(cell bottom - top, sea floor - cell top) where top and sea floor lie in the same cell"


def cells(t):
    """interfaces[:-1] and interfaces[1:] as the cell's top and bottom"""
    z = mk("sym", "interfaces", "da")
    m = {}
    for x in T.subterms(t):
        if x.op == "item" and x.args[0] is z and x.args[1].op == "slice":
            a, b, c = x.args[1].args
            if c in (NONE, num(1)) and a in (NONE, ZERO) and b is num(-1):
                m[x] = ZT
            elif c in (NONE, num(1)) and a is num(1) and b is NONE:
                m[x] = ZB
        if x.op == "isel" and x.args[0] is z and len(x.args[1]) == 1 and x.args[1][0][1].op == "slice":
            a, b, c = x.args[1][0][1].args
            if c in (NONE, num(1)) and a in (NONE, ZERO) and b is num(-1):
                m[x] = ZT
            elif c in (NONE, num(1)) and a is num(1) and b is NONE:
                m[x] = ZB
        if x.op == "diff" and x.args[0] is z:
            m[x] = T.sub(ZB, ZT)
    return T.subst(t, m)


def lin(*terms):
    out = {}
    for c, v in terms:
        out = poly.lin_add(out, {v: c})
    return out


def c10(ctx):
    rule = "thickness = length of the overlap of cell, water column and range"
    known = rule + " (range top and sea floor in the same cell)"
    view = View(labels=False)
    options = []
    for fr in (False, True):
        for top in (False, True):
            for bottom in (False, True):
                kw = {}
                if top:
                    kw["top"] = TOP
                if bottom:
                    kw["bottom"] = BOT
                if fr:
                    kw["fraction"] = TRUE
                options.append((f"{'fraction' if fr else 'length'}{'/top' if top else ''}{'/bottom' if bottom else ''}", fr, top, bottom, kw))
    for key, fr, top, bottom, kw in options:
        def go():
            r = ctx.run(F, args(arr("levels"), arr("interfaces"), arr("depth"), **kw))
            if r.pc is FALSE:
                ctx.bad(key, rule, F, "never returns")
                return
            t = cells(view(r.term()))
            u = unmodelled(t)
            if u is not None:
                ctx.unsure(key, rule, F, f"not modelled: {T.pretty(u, 3)}")
                return
            t = T.assume(t, r.pc)
            sargs = [arr("cell_top"), arr("cell_bottom"), arr("depth"), TOP if top else ZERO] + ([BOT] if bottom else [])
            spec = lambda n: view(ctx.run(f"specs.dz.{n}{'' if bottom else '_open'}", args(*sargs)).term())
            want = spec("fraction" if fr else "overlap")
            cur = spec("same_cell_fraction" if fr else "same_cell") if top else None
            for miss in (False, True):
                cons = [(lin((1, ZT)), False), (lin((1, ZB), (-1, ZT)), False)]
                if not miss:
                    cons.append((lin((1, DEPTH)), False))
                if top:
                    cons.append((lin((1, TOP)), False))
                if bottom:
                    cons.append((lin((1, BOT), (-1, TOP)) if top else lin((1, BOT)), False))
                one(ctx, f"{key}{'/missing depth' if miss else ''}", rule, known, t, want, cur, cons, miss, top, bottom)

        try:
            ctx.attempt(key, rule, F, go)
        except poly.Undecided as e:
            ctx.unsure(key, rule, F, str(e))

    def checks():
        a = ctx.run(F, args(arr("levels"), arr("interfaces"), arr("depth")))
        s = ctx.run("specs.dz.checks", args(arr("levels"), arr("interfaces"), arr("depth")))
        reject = "negative depths, levels or interfaces are rejected, all others accepted"
        ctx.accepts("accepts", reject, F, a, s.pc)
        ctx.refuses("rejects", reject, F, a, s.pc)

    ctx.attempt("checks", "negative input is rejected", F, checks)


def one(ctx, key, rule, known, t, want, cur, cons, miss, top, bottom):
    fixed = {mk("isnull", DEPTH): miss}
    for x in T.subterms(mk("tuple", t, want)):
        if x.op == "isnull" and x.args[0] in (ZT, ZB):
            fixed[x] = False
    try:
        diffs, n = poly.differences(t, want, cons, fixed)
    except poly.Undecided as e:
        ctx.unsure(key, rule, F, f"not decided: {e}")
        return
    if not diffs:
        ctx.ok(key, rule, F, f"{n} cases")
        return
    same = []
    if top and not miss:
        # where top > cell top and the floor of the range is above the cell bottom
        cond = [(lin((1, TOP), (-1, ZT)), True)]
        floors = [DEPTH] + ([BOT] if bottom else [])
        known_diffs = []
        for fl in floors:
            d2, _ = poly.differences(t, want, cons + cond + [(lin((1, ZB), (-1, fl)), True)], fixed)
            c2, _ = poly.differences(t, cur, cons + cond + [(lin((1, ZB), (-1, fl)), True)], fixed)
            known_diffs += d2
            if c2:
                ctx.bad(key + "/same cell", known, F, describe(c2[0]))
        outside, _ = [], 0
        for extra in ([(lin((1, ZT), (-1, TOP)), False)], cond + [(lin((1, fl), (-1, ZB)), False) for fl in floors]):
            d3, _ = poly.differences(t, want, cons + extra, fixed)
            outside += d3
        if outside:
            ctx.bad(key, rule, F, describe(outside[0]))
        else:
            ctx.ok(key, rule, F, f"{n} cases, outside the same-cell case")
        if known_diffs and not any(o.key == key + "/same cell" for o in ctx.obligations):
            ctx.bad(key + "/same cell", known, F, KNOWN)
        return
    ctx.bad(key, rule, F, describe(diffs[0]))


def describe(d):
    c, v, w = d
    return (f"code gives {poly.show_value(v)} ; expected {poly.show_value(w)} when "
            + ", ".join(f"{poly.show(f)} {'>' if s else '>='} 0" for f, s in c)[:600])
