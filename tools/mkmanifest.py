"""Writes MANIFEST.json."""
import json
import os

TECH = {
 "C01": "property-based testing: random and small-exhaustive grammars x inputs against a reference interpreter (differential oracle)",
 "C02": "property-based testing: reference interpreter of error positions and expected lists, plus invariants",
 "C03": "property-based testing: metamorphic plain/recovering pairs and recovery-stripped parsers",
 "C04": "property-based testing: reported edits applied to the input and derived by an independent context-free grammar oracle",
 "C05": "property-based testing: invariants over every error report of random recovered parses",
 "C06": "property-based testing: bounds on insertion runs in random histories and constructed gaps of known length",
 "C07": "property-based testing: reference enumeration of all candidate repairs (differential oracle)",
 "C08": "property-based testing: locations recomputed from scratch, instrumented get_loc/fmt_loc",
 "C09": "property-based testing: random lexer specifications and sources against a reference tokenizer and a hand-written scanner",
 "C10": "property-based testing: reference column oracle and an independent generator/recognizer of indented documents",
 "C11": "stateful property-based testing: random histories of parses, unwraps, mutations, re-entrancy, threads and injected exceptions",
 "C12": "stateful property-based testing: Delay histories against a model, unrolled recursion, delayed copies (metamorphic)",
 "C13": "property-based testing: derived combinators against their definitions, all spellings against each other (metamorphic)",
 "C14": "property-based testing: the same parse over other sequence types, renamed and unusual elements (metamorphic)",
 "C15": "property-based testing: independent rendering of random and parser-produced reports",
 "C16": "property-based testing: four realistic languages against independent implementations (json, hand-written parsers), repairs re-parsed",
 "C17": "property-based testing and fuzzing: long, hostile and ill-formed inputs with read counting, recursion-limit and divergence monitors",
 "C18": "stateful property-based testing: random trees of ParseResult.fmap against function application",
 "C19": "property-based testing: algebraic laws in random surroundings (metamorphic)",
 "C20": "property-based testing: recorded calls of user functions against those of the reference interpreter (differential oracle)",
}
NOTE = {
 "C01": "Exhaustive for grammars of the sizes given in the evidence over a two-letter alphabet and all inputs up to length 4; random beyond. Trusts the reference interpreter rp/model.py (written from the documentation, cross-checked by C04, C16 and C19, which do not use it as oracle).",
 "C17": "Divergence is decided by a deterministic count of executed lines on cases whose reference run is tiny; recovery with many ambiguous errors is exponential by design and outside the claim.",
 "C16": "Trusts the json module and the hand-written evaluators in rp/langs.py.",
 "C19": "No reference value is involved: both sides run in the code under test; the reference interpreter only bounds the size of cases.",
 "C18": "No reference value is involved beyond the first unwrap of the same result.",
}
DEFAULT = ("Random search: absence of a violation is evidence over the "
           "explored cases, not proof. A pure function of the code and "
           "VERIF_SEED. Trusts rp/ (generators, oracles).")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
with open(os.path.join(here, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f]
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": "./check %s" % i,
        "thorough_cmd": "./check %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": (NOTE.get(i, "") + " " + DEFAULT).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Pure Python; checks import /repo/src directly. No hooks in "
             "/repo. Replay a violation with ./check ID --replay FILE.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
