"""writes MANIFEST.json from vc/registry.py and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + "/vc/registry.py").read(), ns)
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
LATER = "contracts for this property are not written yet"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ns["SPECS"]:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification of the MIR of the current source (symbolic execution, loop invariants, z3 with cvc5 as second back end); failed obligations are replayed by a native search",
                       "level": "proof", "level_note": ns["NOTES"].get(i, {}).get("level_note") or "Every obligation generated from the current source is discharged for all inputs. Trusted: rustc's MIR, the MIR verifier in vc/, the solvers, and the assumed contracts of library functions listed in the evidence."})
    else: na.append({"property": i, "reason": NA.get(i, LATER)})
m = {"version": 1, "setup_cmd": "python3-vt check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the verifier reads the compiler's MIR of the unmodified source. Known and fixed defects: KNOWN_FINDINGS.txt. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
