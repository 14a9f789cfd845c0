"""writes MANIFEST.json from plan.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import plan
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []; na = []
for i in ids:
    c = plan.PROPS.get(i)
    if not c or not c["proofs"]:
        na.append(dict(property=i, reason=plan.NA.get(i, "no contract for it is discharged yet"))); continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {i}",
        technique=c.get("technique", "function contracts on the LLVM IR extracted from /repo's sources on every run, obligations discharged by z3; failed ones replayed by a bounded native harness"),
        level=c["level"], level_note=c.get("note", "") + ". Trusts clang's front end and the sroa/instsimplify/simplifycfg passes, /verif/vc (obligation generator), z3 and the contracts listed under assumptions in the evidence; the rest of the statement is covered by the bounded harness only, which is not counted as proved."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="No hooks: the checks read /repo's public headers and sources as they are."), open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
