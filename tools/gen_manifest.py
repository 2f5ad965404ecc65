"""Writes MANIFEST.json from properties.jsonl: every property with contracts/<id>.py and a harness entry is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
notes = json.load(open(V + "/tools/level_notes.json"))
har = json.load(open(V + "/harness/harness.json"))
checks, rest = [], []
DEF = "Every obligation generated from /repo's current source by the contracts in contracts/%s.py must be discharged by z3 or cvc5 (all inputs, all iterations, no bound). Trusted: clang's AST, the VC generator cxv, the solvers, contracts assumed for libstdc++ and other external functions (listed in the evidence on every run). A model-based harness on the real code (bounded, ASan/UBSan) cross-checks and replays; it stands in, labelled bounded, where a function is outside the verifier's reach."
for p in props:
    i = p["id"]
    if i in na or not os.path.exists("%s/contracts/%s.py" % (V, i)) or i not in har:
        rest.append({"property": i, "reason": na.get(i, "not yet under contract")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 cxv/run.py %s" % i, "thorough_cmd": "python3 cxv/run.py %s thorough" % i,
                   "technique": notes.get(i, {}).get("technique", "contract-based deductive verification (cxv: clang AST of the real code -> verification conditions -> z3/cvc5)"),
                   "level": har[i].get("level", "proof"), "level_note": (DEF % i) + (" " + notes[i]["note"] if i in notes and "note" in notes[i] else "")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": rest,
     "notes": "No hooks: the contracts live in /verif/contracts and are attached to /repo's functions by name through clang's AST on every run; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(rest), "not")
