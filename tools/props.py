#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json: run after editing (python3 tools/props.py).
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=quant), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech],
        observe_at=list(observe), hook_needed=None), _note=note))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

TECH = "symbolic execution of the real code's Go SSA, assertions decided by Z3 (bounded)"
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if p["_note"].startswith("NA:"):
            na.append(dict(property=pid, reason=p["_note"][3:].strip())); continue
        if not glob.glob(os.path.join(V, "harness", "zz_vp_%s_*.go" % pid.lower())):
            na.append(dict(property=pid, reason="the check for this property is not built yet")); continue
        checks.append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid,
            thorough_cmd="./check.sh %s thorough" % pid, evidence_file="evidence/%s.json" % pid,
            technique=TECH, level="model_checking",
            level_note=("Holds for every value, schedule and fault choice within the bounds stated per harness in the evidence file; nothing is claimed outside them. Trusted: the SSA interpreter and its models of the Go runtime/standard library (engine/), Z3, and the reference encoder in harness/. Counterexamples are replayed against the compiled code before they are reported." + (" " + p["_note"] if p["_note"] else ""))))
    m = dict(version=1, setup_cmd="./build_engine.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: harnesses are compiled into package healer through a build overlay. Repairs are the 'fix:' commits listed in known_findings.jsonl.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
main()
