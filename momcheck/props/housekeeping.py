"""C30: resetting encodings and sorting variables touch only what they name"""
import ast
import re

from .. import terms as T
from ..terms import mk, st, TRUE, FALSE, NONE, and_
from ..contexts import args, arr, ds

U = "momlevel.util."


def owner(t, x):
    """Whose encoding: 'self', or the collection of x's variables looped over"""
    if t is x:
        return "self"
    if t.op == "each" and t.args[2] is TRUE:
        src, h, _, val = t.args
        b = mk("bound", h)
        while src.op in ("aslist", "keys", "setof") and src.args:
            src = src.args[0]
        if src.op == "meth" and src.args[0] in ("keys", "values") and not src.args[2] and not src.args[3]:
            src = src.args[1]
        if src is x:
            src = mk("attr", x, "data_vars")
        if src.op == "attr" and src.args[0] is x and src.args[1] in ("variables", "data_vars", "coords"):
            if val in (b, mk("item", x, b), mk("item", src, b), mk("item", mk("attr", x, "variables"), b)):
                return src.args[1]
    return None


def present(pc, meta, own, k):
    """The entry is removed whenever it is there"""
    if pc is TRUE or pc.op == "nonempty":
        return True
    at = T.atoms_of(pc)
    return all(a.op in ("nonempty", "member", "in") for a in at)


def guarded(ctx, loc):
    """Exceptions may be caught in the function at this place or in reset_encoding"""
    m = ctx.A.program.modules.get("momlevel.util")
    line = int(re.search(r":(\d+)", str(loc))[1]) if re.search(r":(\d+)", str(loc)) else 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and (n.name == "reset_encoding" or n.lineno <= line <= n.end_lineno):
            if any(isinstance(x, (ast.Try, ast.With)) for x in ast.walk(n)):
                return True
    return False


def reset(ctx, key, x, build, keys):
    F = U + "reset_encoding"
    rule = "exactly the named entries are removed from the encoding of the object and of every variable"

    def go():
        r = ctx.run(F, build)
        if r.pc is FALSE:
            ctx.bad(key, rule, F, "never returns")
            return
        if r.pc is not TRUE:
            if r.of("dropmeta") and all(a.op in ("member", "in", "haskey") for a in T.atoms_of(r.pc)):
                ctx.bad(key, rule, F, f"fails unless {T.pretty(r.pc, 4)[:120]}")
            else:
                ctx.unsure(key, rule, F, f"returns when {T.pretty(r.pc, 4)[:120]}")
            return
        got = set()
        drops = r.of("dropmeta")
        whole = [e for e in r.of("setmeta") if e.data[0] == "encoding" and e.data[2].op == "dict" and e.data[2].args[0] is NONE and not any(e.data[2].args[1:])]
        if whole:
            ctx.bad(key, rule, F, "the whole encoding is emptied")
            return
        if r.of("setmeta") or len(r.of("mutate")) != len(drops):
            ctx.unsure(key, rule, F, "entries are not removed one by one")
            return
        for e in drops:
            meta, own, k, strict = e.data
            w = owner(own, x)
            if w is None or not present(e.pc, meta, own, k) or k.op not in ("str", "sym", "none"):
                ctx.unsure(key, rule, F, f"not followed: {T.pretty(own, 3)[:100]}")
                return
            if meta != "encoding":
                ctx.bad(key, rule, F, f"entries of {meta} are removed, at {e.loc}")
                return
            if strict and not any(a.op in ("member", "in") for a in T.atoms_of(e.pc)):
                if guarded(ctx, e.loc):
                    ctx.unsure(key, rule, F, "removal inside try or with")
                else:
                    ctx.bad(key, rule, F, f"fails where {T.pretty(k)} is absent, at {e.loc}")
                return
            got.add((w, k))
        for k in {k for _, k in got} - set(keys):
            ctx.bad(key, rule, F, f"{T.pretty(k)} is removed")
            return
        is_ds = x.args[1] == "ds"
        for k in keys:
            has = {w for w, kk in got if kk is k}
            if "self" not in has:
                ctx.bad(key, rule, F, f"{T.pretty(k)} is not removed from the object's encoding")
                return
            if is_ds and "variables" not in has and not {"data_vars", "coords"} <= has:
                ctx.bad(key, rule, F, f"{T.pretty(k)} is not removed from every variable, only from {sorted(has - {'self'}) or 'none'}")
                return
        t = r.term()
        if t is x:
            ctx.ok(key, rule, F)
        elif t is NONE:
            ctx.bad(key, rule, F, "returns nothing")
        else:
            ctx.unsure(key, rule, F, "another object is returned")

    ctx.attempt(key, rule, F, go)


def c30(ctx):
    a, b, c = (mk("sym", n, "str") for n in ("first", "second", "third"))
    for kl in ("da", "ds"):
        x = mk("sym", "x", kl)
        for what, at, keys in (
            ("default", None, (st("chunks"), st("preferred_chunks"))), ("none", NONE, (st("chunks"), st("preferred_chunks"))),
            ("one", [a], (a,)), ("three", [a, b, c], (a, b, c)), ("empty", [], ()),
        ):
            o = {} if at is None else dict(attrs=(lambda I, at=at: I.new_list(list(at))) if isinstance(at, list) else at)
            reset(ctx, f"{'array' if kl == 'da' else 'dataset'}/{what}", x, args(arr("x", kl), **o), keys)
    F = U + "reset_encoding"
    rule = "anything but a Dataset or DataArray is rejected"
    for kind, v in (("number", mk("sym", "n", "num")), ("text", mk("sym", "s", "str")), ("list", lambda I: I.new_list([a])), ("nothing", NONE)):

        def refuse():
            r = ctx.run(F, args(v))
            if r.pc is FALSE:
                ctx.ok("type/" + kind, rule, F)
            elif r.pc is TRUE and not r.notes:
                ctx.bad("type/" + kind, rule, F, "returns")
            else:
                ctx.unsure("type/" + kind, rule, F, "not determined")

        ctx.attempt("type/" + kind, rule, F, refuse)

    F = U + "alphabetize_dataset"
    rule = "all variables are kept, in alphabetical order"

    def alpha():
        x = mk("sym", "x", "ds")
        r = ctx.run(F, args(ds("x")))
        t = r.term()
        if r.pc is not TRUE:
            ctx.unsure("sorted", rule, F, f"returns when {T.pretty(r.pc, 3)[:100]}")
            return
        if t.op == "item" and t.args[0] is x and t.args[1].op == "sorted":
            s = t.args[1].args[0]
            if len(t.args[1].args) == 2 and dict(t.args[1].args[1]).get("reverse") is TRUE:
                ctx.bad("sorted", rule, F, "the order is reversed")
            elif len(t.args[1].args) == 1 and s is mk("attr", x, "variables"):
                ctx.ok("sorted", rule, F)
            elif len(t.args[1].args) == 1 and s.op == "attr" and s.args[0] is x and s.args[1] in ("data_vars", "coords", "dims", "sizes") or s is x:
                ctx.bad("sorted", rule, F, f"only {T.pretty(s)} are put in order")
            else:
                ctx.unsure("sorted", rule, F, T.pretty(t, 3)[:120])
        elif t is x or t.op == "item" and t.args[0] is x and t.args[1] is mk("attr", x, "variables"):
            ctx.bad("sorted", rule, F, "the variables are left in their order")
        else:
            ctx.unsure("sorted", rule, F, T.pretty(t, 3)[:120])

    ctx.attempt("sorted", rule, F, alpha)
