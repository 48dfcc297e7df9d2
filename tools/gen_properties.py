#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the list is easy to review and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
RT = "crates/tribute-runtime/src/lib.rs"; TLS = "crates/tribute-runtime/src/tls.rs"; ASAN = "crates/tribute-runtime/src/asan.rs"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.inc.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
