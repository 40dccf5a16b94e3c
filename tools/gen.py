#!/usr/bin/env python3
"""regenerate properties.jsonl, MANIFEST.json and bounds.json from tools/spec.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import spec
NOTE = "Bounded: the solver decides every listed assertion for all inputs within the stated bounds and says nothing outside them. Trusted: rustc's LLVM IR, the symx executor, z3, a sequential stand-in for rayon-core. Every reported violation is replayed natively first."
with open(f"{V}/properties.jsonl", "w") as f:
    for p in spec.P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("observe", ["return values of the public functions"]), "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
           "technique": "symbolic execution of the compiled LLVM IR, decided by z3 within stated bounds", "level": "model_checking",
           "level_note": NOTE + " Bounds: " + "; ".join(p["bounds"]) + ("." if not p.get("outside") else ". Outside: " + "; ".join(p["outside"]) + ".")} for p in spec.P if not p.get("na")]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in spec.P if p.get("na")],
     "notes": "No hooks in /repo: every harness drives the public API. Genuine defects repaired in /repo or recorded are listed in known_findings.json."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
json.dump({p["id"]: {"bounds": p["bounds"], "outside": p.get("outside", []), "assumptions": p.get("assume", []), "cost": p.get("cost", {})} for p in spec.P if not p.get("na")}, open(f"{V}/bounds.json", "w"), indent=1)

kf = json.load(open(f"{V}/known_findings.json"))
d = open(f"{V}/tools/design_head.md").read()
for e in kf:
    d += f"* {e['entry']}\n" if e["status"] == "fixed" else f"* known: property={e['property']} ({e['label']}) {e['what']}\n"
d += "\n## Properties\n"
for p in spec.P:
    d += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    if p.get("na"): d += f"Not applicable: {p['na']}\n"; continue
    d += f"* Symbolic: {p['q']}.\n* Bounds: {'; '.join(p['bounds'])}.\n"
    if p.get("how"): d += f"* Oracle: {p['how']}\n"
    if p.get("outside"): d += f"* Outside: {'; '.join(p['outside'])}.\n"
    if p.get("assume"): d += f"* Assumed: {'; '.join(p['assume'])}.\n"
    d += f"* What tests cannot settle: {p['why']}.\n* Code: {', '.join(p['files'])} ({'; '.join(a + ': ' + b for a, b in p['mech'])}).\n"
d += open(f"{V}/tools/design_tail.md").read()
open(f"{V}/DESIGN.md", "w").write(d)
