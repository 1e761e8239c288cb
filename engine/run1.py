"""debug runner: run1.py CONTRACT [harness]"""
import sys, os, importlib, json
sys.path[:0] = [os.path.dirname(__file__), os.path.join(os.path.dirname(__file__), "..", "contracts")]
sys.setrecursionlimit(20000)
m = importlib.import_module(sys.argv[1])
for h in m.HARNESSES:
    if len(sys.argv) > 2 and sys.argv[2] not in ("-", "-v") and sys.argv[2] != h.name and (sys.argv[2] not in h.name or any(sys.argv[2] == x.name for x in m.HARNESSES)):
        continue
    d = h.run()
    bad = [o for o in d["obligations"] if o["ok"] != o["paths"]]
    print(f"== {h.name}: {len(d['obligations'])} obligations, {len(bad)} not discharged, paths {d['paths']}, queries {d['queries']}, solver {d['solver_s']}s wall {d['wall_s']}s covers {d['covers']} bounded {d['bounded']} loops {d['loops']}")
    for e in d["errors"][:2]:
        print("   ERROR", e)
    for o in bad:
        print("   FAIL", o["name"], "ok", o["ok"], "failed", o["failed"], "unknown", o["unknown"], "t", o["time"])
        if o["detail"] and "-v" in sys.argv:
            print("      goal", o["detail"]["goal"][:2500].replace("\n"," "))
            print("      model", " ".join(str(o["detail"]["model"]).split())[:2500])
            for p in o["detail"]["path"][-6:]:
                print("        ", " ".join(p.split())[:150])
    if "-a" in sys.argv or os.environ.get("A"):
        for o in d["obligations"]:
            print("     ", o["name"], o["paths"], o["time"], o["backend"])
