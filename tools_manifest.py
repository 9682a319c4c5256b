"""Regenerates MANIFEST.json from properties.jsonl and the existing checks."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
NOTES = {}
NA = {}
def main():
    checks, na = [], []
    for line in open(f"{ROOT}/properties.jsonl"):
        i = json.loads(line)["id"]
        if os.path.exists(f"{ROOT}/checks/{i.lower()}.py") and i not in NA:
            checks.append(dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
                technique="symbolic execution of the real PyTorch code at ATen-operator "
                "level, equivalence with a reference model decided by z3",
                level="model_checking",
                level_note="Holds for all real values of the symbolic inputs within the "
                "sizes, steps and symbol counts listed under 'bounds' in the evidence; "
                "trusts the operator encoding (cross-validated against native runs of "
                "each path) and z3; floating-point rounding is outside the claim.",
            ))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import torch'", checks=checks,
             not_applicable=na,
             notes="No hooks in /repo are needed. Repaired defects: known_findings.txt.")
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    open(f"{ROOT}/MANIFEST.json", "a").write("\n")
main()
