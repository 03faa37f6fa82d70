#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the entries below (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__)); P = []; NA = []
ALL = "the solver decides each assertion for every real value of the symbolic inputs (frequencies, weights, parameters in stated intervals) and every execution path, for the listed sizes"
NOTE = "Bounded: sizes per instance in the evidence; reals instead of IEEE doubles for symbolic values; libstdc++/libc modelled in engine/mock and engine/rt; numeric libraries (GSL, LAPACK) replaced by exact stubs where used; counterexamples are replayed natively before being reported."
def p(id, title, st, q, why, files, mech, over=("inputs",), note="", na=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": list(over), "text": q}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "_note": note})
    if na: NA.append({"property": id, "reason": na})
exec(open(V + "/props_text.py").read())
if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for x in P: f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
    na = {x["property"] for x in NA}
    m = {"version": 1, "setup_cmd": "python3 vk.py setup", "checks": [{"property": x["id"], "quick_cmd": "python3 vk.py check %s --tier quick" % x["id"], "thorough_cmd": "python3 vk.py check %s --tier thorough" % x["id"], "evidence_file": "evidence/%s.json" % x["id"], "technique": "bounded symbolic execution of the LLVM IR of the real code, assertions decided by Z3/cvc5", "level": "model_checking", "level_note": (x["_note"] + " " if x["_note"] else "") + NOTE} for x in P if x["id"] not in na], "not_applicable": NA, "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.json."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
