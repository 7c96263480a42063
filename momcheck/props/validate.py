"""C15: invalid datasets are rejected before anything is computed"""
from .. import terms as T
from ..terms import mk, st, num, TRUE, FALSE, NONE, and_, or_, not_
from ..contexts import S, args, ds, names, steric_args
from ..views import unmodelled

U, P = "momlevel.util.", "specs.validate."


def plain(t):
    """The sums that are compared skip missing values"""
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is None:
            r = T.rebuild(x, rec)
            if r.op == "le":
                r = not_(T.lt(r.args[1], r.args[0]))
            r = two_sided(r)
            if r.op == "fmt" and len(r.args) == 1 and r.args[0].op == "bound":
                r = r.args[0]  # names are strings
            memo[x] = r
        return r

    return rec(t)


def two_sided(r):
    """|x| < k is -k < x < k"""
    if r.op == "ite":
        return T.ite(two_sided(r.args[0]), r.args[1], r.args[2])
    if r.op == "lt":
        x, k = r.args
        if k.op == "num":
            p = T.to_poly(x)
            if len(p) == 1:
                (m, c), = p.items()
                if c > 0 and len(m) == 1 and m[0][0].op == "abs" and m[0][1] == 1:
                    y = T.mul(num(c), m[0][0].args[0])
                    return and_(T.lt(y, k), T.lt(T.neg(k), y))
    return r


def agree(ctx, key, rule, F, r, want, assume=TRUE):
    r.pc = plain(r.pc)
    want = plain(want)
    ctx.accepts(key + "/accepts", rule, F, r, and_(assume, want))
    ctx.refuses(key + "/rejects", rule, F, r, or_(want, not_(assume)))


def c15(ctx):
    F = U + "validate_dataset"
    rule = "raises iff a variable is missing, has the wrong rank, a reference has time, or (strict) the area is off"
    strict = S("strict")
    word = mk("sym", "word", "str")
    extras = {
        "none": ({}, None),
        "explicit none": (dict(additional_vars=NONE), None),
        "list": (dict(additional_vars=lambda I: I.sym("addl", "list")), lambda I: I.sym("addl", "list")),
        "one name": (dict(additional_vars=word), lambda I: I.new_list([word])),
        "names": (dict(additional_vars=lambda I: I.new_list([word, st("deptho")])), lambda I: I.new_list([word, st("deptho")])),
    }
    for rl, rkw, ref in (("input", {}, False), ("input, explicit", dict(reference=FALSE), False), ("reference", dict(reference=TRUE), True)):
        for sl, skw, s in (("default", {}, TRUE), ("strict", dict(strict=strict), strict)):
            for el, (ekw, more) in extras.items():
                key = f"{rl}/{sl}/{el}"

                def go():
                    r = ctx.run(F, args(ds(), **rkw, **skw, **ekw))
                    if more is None:
                        w = ctx.run(P + ("valid_reference" if ref else "valid_input"), args(ds(), s))
                    else:
                        w = ctx.run(P + ("reference_with" if ref else "input_with"), args(ds(), s, more))
                    agree(ctx, key, rule, F, r, w.pc)
                    for e in r.raises:
                        if e.data[0] != "ValueError":
                            ctx.bad(key + "/error", rule, F, f"raises {e.data[0]} (line {e.loc[2]}) instead of ValueError")
                    off = plain(and_(ctx.run(P + "area_off", args(ds())).term(), not_(T.truth(s))))
                    warned(ctx, key, F, r, off)

                ctx.attempt(key, rule, F, go)
    steric(ctx)


def warned(ctx, key, F, r, off):
    rule = "an area that is off gives a warning when not strict"
    pc = or_(FALSE, *[plain(e.pc) for e in r.of("warn")])
    gap = or_(and_(pc, not_(off)), and_(off, not_(pc)))
    if gap is FALSE:
        ctx.ok(key + "/warning", rule, F)
    elif unmodelled(gap) is not None:
        ctx.unsure(key + "/warning", rule, F, "conditions not decided")
    else:
        ctx.bad(key + "/warning", rule, F, f"warning differs when {T.pretty(gap, 5)[:300]}")


def steric(ctx):
    rule = "input and reference are validated, with the caller's strictness, before anything is computed"
    strict = S("strict")
    for f in ("steric", "thermosteric", "halosteric"):
        F = "momlevel.steric." + f
        for dom in ("local", "global"):
            for sl, skw, s in (("default", {}, TRUE), ("strict", dict(strict=strict), strict)):
                for rl, ref in (("derived", False), ("supplied", True)):
                    key = f"{f}/{dom}/{sl}/{rl}"

                    def go():
                        r = ctx.run(F, steric_args(reference=ref, domain=st(dom), verbose=mk("sym", "verbose", "bool"), **skw))
                        ok = plain(ctx.run(P + "steric_" + dom, args(ds(), s, S("patm"), st("Wright"), names, S("zb"))).pc)
                        if ref:
                            good = plain(ctx.run(P + "valid_reference", args(ds("ref"), s)).pc)
                        else:
                            good = plain(ctx.run(P + "derived", args(ds(), s, S("patm"), st("Wright"), names, S("zb"))).pc)
                        r.pc = plain(r.pc)
                        ctx.refuses(key + "/input", rule, F, r, ok)
                        ctx.refuses(key + "/reference", rule, F, r, good)
                        bad = not_(and_(ok, good) if ref else ok)
                        for e in r.raises:
                            late = and_(plain(e.pc), bad)
                            p = and_(plain(e.pc), ok, good)
                            if e.data[0] == "ValueError" and p is not FALSE and unmodelled(p) is None and not any(a.op == "anyof" for a in T.atoms_of(p)):
                                ctx.bad(key + "/valid", rule, F, f"valid input is rejected (line {e.loc[2]}) when {T.pretty(p, 5)[:300]}")
                            if e.data[0] != "ValueError" and late is not FALSE and unmodelled(late) is None:
                                ctx.bad(key + "/first", rule, F, f"{e.data[0]} raised (line {e.loc[2]}) before the input is validated")
                                break
                        else:
                            ctx.ok(key + "/first", rule, F)

                    ctx.attempt(key, rule, F, go)
