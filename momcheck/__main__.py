"""python3 -m momcheck <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MOMCHECK_SRC", "/repo/src")

LAST = [None]
PROPS = {
    "C01": ("eos", "c01"), "C02": ("eos", "c02"), "C26": ("eos", "c26"), "C24": ("meta", "c24"), "C28": ("meta", "c28"),
    "C03": ("eosuse", "c03"), "C04": ("eosuse", "c04"),
    "C05": ("steric", "c05"), "C06": ("steric", "c06"), "C07": ("steric", "c07"), "C08": ("steric", "c08"), "C09": ("steric", "c09"),
    "C19": ("average", "c19"), "C14": ("names", "c14"), "C15": ("validate", "c15"), "C20": ("geo", "c20"), "C27": ("geo", "c27"),
    "C16": ("trend", "c16"), "C17": ("trend", "c17"), "C18": ("trend", "c18"),
    "C12": ("effects", "c12"), "C13": ("effects", "c13"), "C25": ("effects", "c25"),
    "C29": ("testdata", "c29"), "C30": ("housekeeping", "c30"), "C31": ("domain", "c31"), "C32": ("describe", "c32"), "C33": ("defaults", "c33"), "C34": ("layout", "c34"), "C35": ("messages", "c35"), "C10": ("dz", "c10"), "C11": ("strat", "c11"), "C21": ("strat", "c21"), "C22": ("strat", "c22"), "C23": ("strat", "c23"),
}


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def run(prop, tier):
    from .checks import Ctx, SPECS
    from .runner import Analysis, Missing

    mod, fn = PROPS[prop]
    A = Analysis(SRC, "momlevel")
    for f in sorted(os.listdir(SPECS)):
        if f.endswith(".py"):
            A.add_spec("specs." + f[:-3], os.path.join(SPECS, f))
    ctx = LAST[0] = Ctx(prop, A)
    ctx.tier = tier
    check = getattr(importlib.import_module("momcheck.props." + mod), fn)
    try:
        check(ctx)
    except Missing as e:
        ctx.bad("missing/" + str(e), "public interface", str(e), f"{e} is not defined (any more)")
    for path, err in A.program.errors:
        ctx.bad("syntax/" + path, "public interface", path, err)
    return ctx


def main():
    warnings.simplefilter("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    crash = None
    ctx = None


    def late(*_):
        raise TimeoutError("time limit of the analysis")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(700)
    try:
        ctx = run(a.property, a.tier)
    except TimeoutError:
        ctx = LAST[0]
        ctx.notes.append("time limit of the analysis reached")
    except Exception:
        crash = traceback.format_exc()
        ctx = LAST[0]
        if ctx is not None:
            ctx.notes.append("the analysis itself failed: " + crash.strip().splitlines()[-1])
        print(crash, file=sys.stderr)
    signal.alarm(0)
    obs, notes = (ctx.obligations, ctx.notes) if ctx else ([], ["the analysis could not start"])
    known = [k for k in known_findings() if k["property"] == a.property]
    viol, found = [], []
    for o in obs:
        if o.status != "violation":
            continue
        k = next((k for k in known if k["key"] == o.key and k["signature"] in o.detail), None)
        if k:
            o.status = "known"
            found.append(k)
        else:
            viol.append(o)
    done = [o for o in obs if o.status == "ok"]
    rules = sorted({o.rule for o in obs})
    A = ctx.A if ctx else None
    coverage = {
        "explanation": "static analysis: every listed function is interpreted abstractly over symbolic inputs (all "
        "paths, all inputs of the stated kinds); each obligation compares the resulting expression, effects or "
        "conditions with the rule",
        "obligations": len(obs),
        "discharged": len(done),
        "inconclusive": len([o for o in obs if o.status == "inconclusive"]),
        "known_findings": len(found),
        "runs": A.runs if A else 0,
        "functions_analysed": sorted(f for f in A.functions if not f.startswith("specs.")) if A else [],
        "rules": rules,
        "samples": [{"obligation": o.key, "where": o.where, "status": o.status, "detail": o.detail[:300]} for o in obs[:12]],
        "notes": notes[:20],
    }
    out = {
        "property": a.property,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": coverage,
        "wall_s": round(time.time() - t0, 3),
        "violations": [{"key": o.key, "rule": o.rule, "where": o.where, "detail": o.detail} for o in viol],
    }
    path = os.path.join(ev, a.property + ".json")
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    for k in {k["what"]: k for k in found}.values():
        print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    for n in notes[:20]:
        print("NOTE", n)
    if a.v:
        for o in obs:
            print(o.status, o.key, o.where, o.detail[:1000])
    print(f"{a.property}: {len(obs)} obligations, {len(done)} hold, {len(viol)} violated, "
          f"{coverage['inconclusive']} not decided, {out['wall_s']} s")
    if viol:
        rp = os.path.join(ev, a.property + ".violation.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write(f"{o.key}\n  rule: {o.rule}\n  at: {o.where}\n  {o.detail}\n")
        for o in viol[:5]:
            print(f"  {o.where}: [{o.rule}] {o.detail[:600]}")
        print(f"VIOLATION property={a.property} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
