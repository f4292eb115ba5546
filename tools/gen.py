import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
TECH = ("contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of the LLVM IR "
        "compiled from /repo/src on every run, discharged by exact normal forms, z3 and cvc5; failures replayed natively")
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++-18 --version >/dev/null", "checks": [], "not_applicable": []}
for p in props.P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                            "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": TECH, "level": "proof",
                            "level_note": p["note"] or "proved for all inputs in exact real arithmetic per contract; contracts over container sizes are discharged size by size up to the bounds listed in the evidence file"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
