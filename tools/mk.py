#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "sds/src/"
SC, MS, CO = S+"scanner/mod.rs", S+"scoped_ruleset/mod.rs", S+"scanner/regex_rule/compiled.rs"
PK, PKI, PKE = S+"proximity_keywords/mod.rs", S+"proximity_keywords/included_keywords.rs", S+"proximity_keywords/excluded_keywords.rs"
SCOPE, VAL, ADAPT, PARSE = S+"scoped_ruleset/bool_set.rs", S+"validation.rs", S+"normalization/rust_regex_adapter.rs", S+"parser/regex_parser.rs"
MODEL = "model-based property testing: generated rule sets and events scanned by the real scanner and by an independent reference model (PCRE2 as the regex oracle), results compared exactly, failures shrunk to a replay file"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                     "why_tests_cant": why, "anchors": a}, technique=technique, note=note))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/run.sh build",
     "hooks": {"guard": "cargo feature `testing` of dd-sds (already in the repository)", "enable": "the harness crate enables it; no hook was added to /repo", "source_commits": []},
     "checks": [{"property": x["p"]["id"], "quick_cmd": f"bash /verif/run.sh quick {x['p']['id']}",
                 "thorough_cmd": f"bash /verif/run.sh thorough {x['p']['id']}", "evidence_file": f"evidence/{x['p']['id']}.json",
                 "technique": x["technique"], "level": "exploration", "level_note": x["note"]} for x in P],
     "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x["p"], ps)
    print("valid")
except ImportError:
    print("not validated: run with python3-vt")
