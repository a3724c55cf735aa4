"""check <ID> [--replay FILE]"""
import importlib
import json
import os
import sys
import time

from . import engine

TIERS = ("quick", "thorough")


def load(prop):
    return importlib.import_module("rp.props." + prop.lower())


def evidence(prop, tier, seed, total, res, mod, wall, violations):
    cov = {
        "evaluations": total.evals,
        "distinct_nontrivial": len(total.nontrivial),
        "rule": mod.RULE,
        "samples": total.samples[:8],
        "cases": res["cases"],
        "parts": res["parts"],
        "distribution": dict(sorted(total.labels.items())),
        "discarded": res["discards"],
        "slow_but_terminating": res["slow"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2), "violations": violations,
    }
    d = os.path.join(engine.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


def show_violation(v):
    print("  " + v["msg"])
    for k, x in (v["case"] or {}).items():
        print("    %s: %s" % (k, str(x)[:1500]))


def replay(prop, path):
    with open(path) as f:
        body = json.load(f)
    tier = body.get("tier", "quick")
    mod = load(prop)
    fn = None
    for t in (tier,) + TIERS:
        for p in mod.parts(t):
            if p[0] == body["part"]:
                fn = fn or p[1]
    if fn is None:
        print("no part %r in %s" % (body["part"], prop))
        return 2
    sys.setrecursionlimit(12000)
    st, info, _ = engine.run_one(
        fn, lambda: engine.Src(given=body["choices"]), engine.Rec())
    if st == "violation":
        show_violation({"msg": info.msg, "case": info.case})
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay: %s" % st)
    return 0


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in TIERS:
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    mod = load(prop)
    total, res = engine.run_parts(prop, mod.parts(tier), seed)
    wall = time.monotonic() - t0
    if res["violation"] is not None:
        part, v = res["violation"]
        v["tier"] = tier
        path = engine.write_replay(prop, part, seed, v)
        evidence(prop, tier, seed, total, res, mod, wall, 1)
        print("%s: part %r, case %d, after %d evaluations" % (
            prop, part, v["index"], total.evals))
        show_violation(v)
        print("VIOLATION property=%s replay=%s" % (
            prop, os.path.relpath(path, engine.ROOT)))
        return 1
    if res["error"] is not None:
        print(res["error"])
        print("%s: harness error" % prop)
        return 2
    evidence(prop, tier, seed, total, res, mod, wall, 0)
    print("%s: held on %d evaluations (%d distinct non-trivial), %.1f s" % (
        prop, total.evals, len(total.nontrivial), wall))
    return 0
