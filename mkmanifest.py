import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
meta = json.load(open(H + "/meta.json"))
NA = {p: m["na"] for p, m in meta.items() if "na" in m}
checks, na = [], []
for p in props:
    if os.path.exists(f"{H}/contracts/{p}.py") and p in meta and p not in NA:
        m = meta[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "technique": "contract-based deductive verification of the real source (PyVC: contracts, loop invariants, z3/cvc5); "
                                    "failing inputs from contract-checked execution of the freshly built code (bounded, not counted as proof)",
                       "level": m.get("level", "proof"), "level_note": m.get("note", ""), "evidence_file": f"evidence/{p}.json"})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet (work in progress)")})
d = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(d, open(H + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(d, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed")
