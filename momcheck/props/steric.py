"""C05-C09, C11 (steric part): steric sea level and the reference state"""
from .. import terms as T
from .. import ops
from ..terms import mk, st, num, TRUE, FALSE, NONE, ZERO, NAN, and_, or_, not_
from ..checks import EOS, pick
from ..contexts import S, names, args, arr, ds, lit
from ..views import View, unmodelled, compare, localise

F = "momlevel.steric.steric"
VARIANTS = ("steric", "thermosteric", "halosteric")
REF_VARS = ("thetao", "so", "volcello", "areacello", "rho", "volo", "masso", "rhoga")


def options(domain, variant, eos, ref, **kw):
    o = dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"), domain=st(domain), variant=st(variant),
             equation_of_state=st(eos), strict=S("strict"))
    if ref:
        o["reference"] = ds("ref")
    o.update(kw)
    return o


def spec_args(domain, variant, eos, ref):
    pos = [ds()] + ([ds("ref")] if ref else [])
    kw = dict(coord_names=names, patm=S("patm"), equation_of_state=st(eos), variant=st(variant))
    if domain == "local":
        kw["rhozero"] = S("rhozero")
    return args(*pos, **kw)


def spec_name(domain, ref):
    return "specs.steric." + {"local": "local", "global": "global_"}[domain] if ref else f"specs.steric.{domain}_derived"


def combos():
    for domain in ("local", "global"):
        for variant in VARIANTS:
            for eos in EOS:
                for ref in (True, False):
                    yield domain, variant, eos, ref


def no_missing(t):
    """t where no value is missing"""
    for a in sorted({x for x in T.subterms(t) if x.op == "isnull"}, key=lambda x: x.id):
        t = T.restrict(t, a, False)
    for _ in range(4):
        left = [x for x in T.subterms(t) if x.op == "isnull"]
        if not left:
            break
        for a in left:
            t = T.restrict(t, a, False)
    return t


def drop_masks(t, where):
    """t without the conditions on missing values that cannot matter: those on
    a value the masked expression itself is made from (missing anyway, and
    left out of sums), and those of the fields where() names."""
    memo = {}

    def clean(s):
        for _ in range(6):
            atoms = sorted({x for x in T.subterms(s) if x.op == "isnull"}, key=lambda x: x.id)
            if not atoms:
                break
            bare = no_missing(s)
            todo = [a for a in atoms if where(a.args[0]) or a.args[0] in T.subterms(bare)]
            if not todo:
                break
            for a in todo:
                s = T.restrict(s, a, False)
        return s

    def rec(x):
        if x not in memo:
            y = T.rebuild(x, rec)
            memo[x] = clean(y) if y.op == "reduce" else y
        return memo[x]

    return clean(rec(t))


def held_volume(x):
    """The reference volume, or the bathymetry"""
    if x.op == "item" and x.args[1].op == "str":
        if x.args[1].args[0] == "deptho":
            return True
        return x.args[1].args[0] == "volcello" and x.args[0] is mk("sym", "ref", "ds")
    if x.op == "isel":
        return any(y.op == "item" and y.args[1] in (st("volcello"), st("deptho")) for y in T.subterms(x))
    return x.op in ops.LAYOUT and held_volume(x.args[0])


class Unmasked(View):
    """Missing reference volumes and bathymetry aside (C11)"""

    def top(self, t):
        return drop_masks(super().top(t), held_volume)


class Masked(View):
    def top(self, t):
        return drop_masks(super().top(t), lambda x: False)


def result(ctx, domain, variant, eos, ref, **kw):
    return ctx.run(F, args(ds(), **options(domain, variant, eos, ref, **kw)))


def compare_parts(ctx, domain, parts, rule, view, mask=False):
    """parts: {label: (variable of the result or None for the variant, variable of the reference definition)}"""
    for d, variant, eos, ref in combos():
        if d != domain:
            continue
        key = f"{domain}/{variant}/{eos}/{'given' if ref else 'derived'}"
        ctx.attempt(key, rule, F, lambda: _compare(ctx, key, d, variant, eos, ref, parts, rule, view))


def _compare(ctx, key, d, variant, eos, ref, parts, rule, view):
    r = result(ctx, d, variant, eos, ref)
    if r.pc is FALSE:
        ctx.bad(key, rule, F, "never returns")
        return
    I = r.at()
    got = {}
    for lab, (a, b) in parts.items():
        try:
            got[lab] = pick(0, variant if a is None else a)(I, r.value)
        except KeyError:
            got[lab] = None
    s = ctx.run(spec_name(d, ref), spec_args(d, variant, eos, ref))
    I = s.at()
    for lab, (a, b) in parts.items():
        want = pick(b)(I, s.value)
        if got[lab] is None:
            ctx.bad(f"{key}/{lab}", rule, F, f"the result has no {lab}")
            continue
        ctx.same(f"{key}/{lab}", rule, F, got[lab], want, and_(r.pc, s.pc), view(), what=lab)


def c05(ctx):
    ctx.opaque_eos()
    rule = "delta_rho = rho - rho_ref and height = -(1/rhozero) * sum over z of dz * delta_rho, where nothing is missing"
    compare_parts(ctx, "local", {"delta_rho": ("delta_rho", "delta_rho"), "sea level": (None, "sealevel")}, rule, Unmasked)
    defaults(ctx, "local", {"delta_rho": "delta_rho", "steric": "sealevel"}, rule)
    ctx.opaque_eos(False)


def c06(ctx):
    ctx.opaque_eos()
    rule = "height = V0/A * ln(rhoga0 / (sum of rho * V_ref / V0))"
    compare_parts(ctx, "global", {"reference height": ("reference_height", "reference_height"), "sea level": (None, "sealevel")}, rule, Masked)
    defaults(ctx, "global", {"reference_height": "reference_height", "steric": "sealevel"}, rule)
    ctx.opaque_eos(False)


def defaults(ctx, domain, parts, rule):
    """The options left at their defaults, and renamed variables"""
    vm = lambda I: I.sym("mapping", "dict")
    for label, kw, spec, sargs in (
        ("default", {}, f"specs.steric.{domain}_default", args(ds())),
        ("renamed", dict(reference=ds("ref"), varname_map=vm), "specs.steric.renamed", args(ds(), ds("ref"), vm, st(domain))),
    ):
        kw = dict(kw, domain=st(domain)) if domain == "global" or label != "default" else kw

        def go():
            r = ctx.run(F, args(ds(), **kw))
            if r.pc is FALSE:
                ctx.bad(f"{domain}/{label}", rule, F, "never returns")
                return
            I = r.at()
            got = {k: pick(0, k)(I, r.value) for k in parts}
            s = ctx.run(spec, sargs)
            I = s.at()
            for k, b in parts.items():
                ctx.same(f"{domain}/{label}/{k}", rule, F, got[k], pick(b)(I, s.value), and_(r.pc, s.pc), (Unmasked if domain == "local" else Masked)(), what=k)

        ctx.attempt(f"{domain}/{label}", rule, F, go)


# -------------------------------------------------------------------- C07
def c07(ctx):
    ctx.opaque_eos()
    r1 = "the equation of state gets temperature and salinity of the state or of the reference as the variant says"
    r2 = "the variants differ in the field held fixed only"
    r3 = "the wrappers equal the general routine with that variant"
    r4 = "any other variant ends in a ValueError"
    view = View()
    D, R = mk("sym", "ds", "ds"), mk("sym", "ref", "ds")
    it = lambda x, k: mk("item", x, st(k))
    held = {"thermosteric": "so", "halosteric": "thetao", "steric": None}
    for domain in ("local", "global"):
        for eos in EOS:
            base = {}
            for v in VARIANTS:
                key = f"{domain}/{eos}/{v}"

                def go():
                    r = result(ctx, domain, v, eos, True)
                    if r.pc is FALSE:
                        ctx.bad(key, r1, F, f"rejects the variant {v}")
                        return
                    I = r.at()
                    try:
                        t = pick(0, v)(I, r.value)
                    except KeyError:
                        ctx.bad(key, r1, F, f"the result is not stored under the name {v}")
                        return
                    others = {w for w in VARIANTS if w != v and has_var(I, r.value, w)}
                    if others:
                        ctx.bad(key + "/name", r1, F, f"the result of {v} has a variable {sorted(others)[0]}")
                    t = view(t)
                    extra = pick(0, "delta_rho")(I, r.value) if domain == "local" else None
                    base[v] = (t, r.pc, view(extra) if extra is not None else None)
                    calls = [x for x in T.subterms(mk("tuple", t, base[v][2] or NONE)) if x.op == "eosfn"]
                    if not calls:
                        ctx.unsure(key, r1, F, "no call of an equation of state in the result")
                        return
                    wt = it(R if held[v] == "thetao" else D, "thetao")
                    ws = it(R if held[v] == "so" else D, "so")
                    for n, c in enumerate(calls):
                        ctx.same(f"{key}/T{n}", r1, F, c.args[2], wt, r.pc, view, what="temperature")
                        ctx.same(f"{key}/S{n}", r1, F, c.args[3], ws, r.pc, view, what="salinity")

                ctx.attempt(key, r1, F, go)
            # exchange the held field in the general result
            for v, var in held.items():
                if var is None or v not in base or "steric" not in base:
                    continue
                key = f"{domain}/{eos}/{v}-steric"

                def go():
                    for i, what in ((0, "sea level"), (2, "delta_rho")):
                        if base["steric"][i] is None:
                            continue
                        x = T.subst(base["steric"][i], {it(D, var): it(R, var)})
                        ctx.same(f"{key}/{what}", r2, F, base[v][i], x, and_(base[v][1], base["steric"][1]), view, what=what)

                ctx.attempt(key, r2, F, go)
    for v in ("thermosteric", "halosteric"):
        for label, kw in wrapper_options():
            key = f"{v}/{label}"

            def go():
                a = ctx.run("momlevel.steric." + v, args(ds(), **kw))
                b = ctx.run(F, args(ds(), variant=st(v), **kw))
                ta, tb = a.term(), b.term()
                ctx.same(key, r3, "momlevel.steric." + v, ta, tb, and_(a.pc, b.pc), View(keep_coords=True), what="result")
                ctx.same(key + "/accepts", r3, "momlevel.steric." + v, a.pc, b.pc, TRUE, view, what="conditions")

            ctx.attempt(key, r3, "momlevel.steric." + v, go)
    for domain in ("local", "global"):
        for ref in (True, False):
            key = f"reject/{domain}/{'given' if ref else 'derived'}"

            def go():
                o = options(domain, "x", "Wright", ref)
                o["variant"] = lambda I: I.sym("variant", "str")
                r = ctx.run(F, args(ds(), **o))
                vs = mk("sym", "variant", "str")
                known = or_(*[T.eq(vs, st(v)) for v in VARIANTS])
                gap = and_(r.pc, not_(known))
                if gap is FALSE:
                    wrong = [e for e in r.raises if and_(e.pc, not_(known)) is not FALSE and and_(e.pc, known) is FALSE
                             and e.data[0] != "ValueError"]
                    if wrong:
                        ctx.bad(key, r4, F, f"ends in a {wrong[0].data[0]}")
                    else:
                        ctx.ok(key, r4, F)
                elif unmodelled(gap):
                    ctx.unsure(key, r4, F, T.pretty(gap, 4)[:300])
                else:
                    ctx.bad(key, r4, F, f"accepts other variants when {T.pretty(gap, 6)[:400]}")

            ctx.attempt(key, r4, F, go)
    for bad in NEAR:
        def go():
            key = f"reject/{bad!r}"
            r = ctx.run(F, args(ds(), **options("global", bad, "Wright", True)))
            if r.pc is FALSE:
                wrong = [e for e in r.raises if e.data[0] not in ("ValueError", "AssertionError")]
                if wrong:
                    ctx.bad(key, r4, F, f"ends in a {wrong[0].data[0]}")
                else:
                    ctx.ok(key, r4, F)
            elif unmodelled(r.pc):
                ctx.unsure(key, r4, F, T.pretty(r.pc, 4)[:300])
            else:
                ctx.bad(key, r4, F, f"accepts the variant {bad!r}")

        ctx.attempt(f"reject/{bad!r}", r4, F, go)
    ctx.opaque_eos(False)


# names close to a variant, none of them one
NEAR = ["thermo", "halo", "Steric", "THERMOSTERIC", "thermosteric ", "halosterics", "total", ""]


def wrapper_options():
    yield "local", dict(coord_names=names, patm=S("patm"), rhozero=S("rhozero"), strict=S("strict"))
    yield "given", dict(reference=ds("ref"), domain=st("global"), equation_of_state=st("linear"), dtype=st("float64"))
    yield "default", {}


def has_var(I, v, name):
    d = I.resolve(I.resolve(v).items[0])
    r = I.rec(d)
    e = r["items"].get(st(name))
    return e is not None


# -------------------------------------------------------------------- C08
REFF = "momlevel.reference.setup_reference_state"
REMOVES = {"resetcoords", "dropvars"}


def keeps_time(t, tc):
    """None if undecided, else whether the array carries the coordinate tc of its inputs"""
    memo = {}

    def removes(x):
        if x.op == "resetcoords":
            return x.args[1].op == "alldims" or tc in x.args[1].args
        return x.op == "dropvars" and x.args[1].op == "set" and tc in x.args[1].args

    def rec(x):
        if x in memo:
            return memo[x]
        memo[x] = False
        if x.op in REMOVES and removes(x):
            r = False
        elif x.op == "item" and x.args[0].op == "sym":
            r = x.args[1].op == "str" and x.args[1].args[0] in ("thetao", "so", "volcello")
        elif x.op in ("sym", "num", "str", "attr", "setdiff", "setof", "alldims"):
            r = False
        elif x.op in ("call", "meth", "unknown", "mkarr"):
            r = None
        else:
            rs = [rec(c) for c in T.children(x)]
            r = True if True in rs else None if None in rs else False
        memo[x] = r
        return r

    return rec(t)


def c08(ctx):
    ctx.opaque_eos()
    r1 = "each quantity of the reference state is that of the selected time level"
    r2 = "the reference state has no time coordinate"
    r3 = "without a supplied reference state, that of the same data and options is used and returned"
    r4 = "a supplied reference state is returned unchanged"
    sel = {v: pick(v) for v in REF_VARS}
    cases = []
    for eos in EOS:
        cases.append((f"options/{eos}", dict(patm=S("patm"), eos=st(eos), coord_names=names, time_index=S("ti")), None))
    cases.append(("default", {}, dict(patm=num(101325), eos=st("Wright"), time_index=num(0), coord_names=lambda I: I.new_dict(
        {st("t"): st("time"), st("z"): st("z_l"), st("zbounds"): st("z_i")}))))
    for key, kw, skw in cases:
        ctx.against(key, r1, REFF, "specs.steric.reference", args(ds(), **kw), sel=sel, view=View(), domain=False,
                    sbuild=args(ds(), **(skw or kw)))

        def go():
            r = ctx.run(REFF, args(ds(), **kw))
            I = r.at()
            tc = S("tc") if skw is None else st("time")
            for v in REF_VARS:
                k = keeps_time(pick(v)(I, r.value), tc)
                if k is None:
                    ctx.unsure(f"{key}/time/{v}", r2, REFF, "not decided")
                elif k:
                    ctx.bad(f"{key}/time/{v}", r2, REFF, f"{v} keeps the time coordinate")
                else:
                    ctx.ok(f"{key}/time/{v}", r2, REFF)

        ctx.attempt(key + "/time", r2, REFF, go)
    vm = lambda I: I.sym("mapping", "dict")
    for domain in ("local", "global"):
        for variant in VARIANTS:
            for eos in EOS:
                for ren in (False, True):
                    key = f"{domain}/{variant}/{eos}{'/renamed' if ren else ''}"
                    o = options(domain, variant, eos, False)
                    if ren:
                        o["varname_map"] = vm

                    def go():
                        r = ctx.run(F, args(ds(), **o))
                        I = r.at()
                        got = {v: pick(1, v)(I, r.value) for v in REF_VARS}
                        pos = (lambda I: I.call_method(I.sym("ds", "ds"), "rename", [I.sym("mapping", "dict")], {})) if ren else ds()
                        s = ctx.run(REFF, args(pos, patm=S("patm"), eos=st(eos), coord_names=names))
                        I = s.at()
                        for v in REF_VARS:
                            ctx.same(f"{key}/{v}", r3, F, got[v], pick(v)(I, s.value), and_(r.pc, s.pc), View(keep_coords=True), what=v)

                    ctx.attempt(key, r3, F, go)
                key = f"{domain}/{variant}/{eos}/given"

                def go():
                    r = result(ctx, domain, variant, eos, True)
                    I = r.at()
                    t = pick(1)(I, r.value)
                    ctx.same(key, r4, F, t, mk("sym", "ref", "ds"), r.pc, View(keep_coords=True), what="reference")

                ctx.attempt(key, r4, F, go)
    ctx.opaque_eos(False)


# -------------------------------------------------------------------- C09
def c09(ctx):
    ctx.opaque_eos()
    rule = "with the state replaced by the reference, density change and sea level are zero"
    view = View()
    it = lambda x, k: mk("item", x, st(k))
    D, R = mk("sym", "ds", "ds"), mk("sym", "ref", "ds")
    held = ("thetao", "so", "volcello", "areacello")
    for eos in EOS:
        try:
            s = ctx.run(REFF, args(ds(), patm=S("patm"), eos=st(eos), coord_names=names))
            I = s.at()
            refs = {v: view(pick(v)(I, s.value)) for v in REF_VARS}
        except Exception as e:
            if ctx.strict:
                raise
            ctx.unsure(eos, rule, REFF, f"the analysis failed: {e}")
            continue
        own = {refs[v]: it(R, v) for v in held}
        # the same fields inside dimension sets, where the layout is kept
        I = s.at()
        for v in held:
            own[view.pos(pick(v)(I, s.value))] = it(R, v)
        sub = {it(R, v): T.subst(refs[v], own) for v in REF_VARS if v not in held}
        sub.update({it(D, v): it(R, v) for v in held})
        for domain in ("local", "global"):
            for variant in VARIANTS:
                key = f"{domain}/{variant}/{eos}"

                def go():
                    r = result(ctx, domain, variant, eos, True)
                    I = r.at()
                    parts = {variant: pick(0, variant)(I, r.value)}
                    if domain == "local":
                        parts["delta_rho"] = pick(0, "delta_rho")(I, r.value)
                    for k, t in parts.items():
                        z = no_missing(T.subst(view(t), sub))
                        z = no_missing(view(z))
                        diffs = compare(z, ZERO, r.pc)
                        if not diffs:
                            ctx.ok(f"{key}/{k}", rule, F, "zero")
                        elif any(unmodelled(d[1]) is None for d in diffs):
                            d = [d for d in diffs if unmodelled(d[1]) is None][0]
                            ctx.bad(f"{key}/{k}", rule, F, f"{k} is {T.pretty(d[1], 8)[:700]}, not zero, for a state equal to the reference")
                        else:
                            ctx.unsure(f"{key}/{k}", rule, F, "contains operations without a model")

                ctx.attempt(key, rule, F, go)
    ctx.opaque_eos(False)
