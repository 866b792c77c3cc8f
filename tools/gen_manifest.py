import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import props as PR
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PR.PROPS:
        continue
    c = PR.PROPS[i]
    full = c["level"] == "proof"
    tech = "contract-based deductive verification (Verus on text extracted from the clang AST)"
    if not c["roots"]:
        tech = "bounded differential check on the real code (stand-in for contracts)"
    elif not full:
        tech += " of part of the code path, plus bounded differential check on the real code"
    note = c.get("note") or (
        "Every function in the call closure is under contract and every obligation is discharged for all inputs; assumptions: "
        "contracts/prelude.rs primitives, the translator, Verus/Z3. A bounded search on the compiled code runs as well and is not counted as proof."
        if full else
        ("Some functions of the closure are proved (see the evidence file); the property as a whole is decided by a bounded differential "
         "check of the compiled code against an independent oracle." if c["roots"] else
         "Bounded: randomly generated cases against an independent oracle, compiled with ASan and UBSan; nothing is proved."))
    ch = dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
              evidence_file="evidence/%s.json" % i, technique=tech, level=c["level"], level_note=note)
    if full:
        ch["theorems"] = c.get("theorems", c["roots"])
    checks.append(ch)
na = [dict(property=i, reason=PR.NOT_APPLICABLE[i]) for i in ids if i not in PR.PROPS]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every commit in /repo is a fix. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
