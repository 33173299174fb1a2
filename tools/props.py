"""Single source for properties.jsonl, checks.json and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, pkg, rule, note, over=("inputs",), shards=4, scale=1.0, thorough=12, technique=None, assumptions=(), ready=True, **extra):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, pkg=pkg, rule=rule,
                  note=note, shards=shards, scale=scale, thorough=thorough, assumptions=list(assumptions), ready=ready, extra=extra,
                  technique=technique or "property-based testing: rapid generators, differential oracle against an independent reference implementation"))
exec(open(os.path.join(ROOT, "tools", "spec.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
json.dump({p["id"]: {"pkg": p["pkg"], "level": "exploration", "rule": p["rule"], "shards": p["shards"], "scale": p["scale"], "thorough": p["thorough"],
    "assumptions": p["assumptions"], **p["extra"]} for p in P if p["ready"]}, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["ready"]],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if not p["ready"]] + NA,
     "notes": "All checks are black box over exported functions of the packages that build offline; no hooks in /repo. Known findings and repaired defects: known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "claimed")
