"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NA = {}  # property -> reason
f = V / "tools" / "not_applicable.json"
if f.exists():
    NA = json.loads(f.read_text())


def doc_vars(path):
    out = {}
    for n in ast.parse(path.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    mod = V / "checks" / f"{i}.py"
    if mod.exists():
        dv = doc_vars(mod)
        checks.append(dict(
            property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
            technique=dv.get("TECHNIQUE", "property-based testing (Hypothesis, structured generators with shrinking)"),
            level="exploration",
            level_note=dv.get("LEVEL_NOTE", "Seeded random search over structured inputs against an independent oracle; no guarantee beyond the "
                              "cases explored. Trusts pymatgen's composition and entry arithmetic, numpy and Hypothesis."),
            evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo. Checks run rxn_network from /repo/src in-process; Ray is replaced by vp/fakeray.py where a "
               "schedule is explored. Known and fixed findings: known_findings.jsonl.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
