"""Writes properties.jsonl and MANIFEST.json from tools/props.py; validates both."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

TESTS = "The repository's tests compare a handful of fixed or random inputs of other functions; none covers "


def main():
    lines, checks = [], []
    na = [{"property": p, "reason": r} for p, r in NOT_APPLICABLE]
    for p in PROPS:
        built = os.path.exists(os.path.join(ROOT, "harness", f"p_{p['id']}.py"))
        if not built:
            if "--all" not in sys.argv:
                continue
            na.append({"property": p["id"], "reason": "check not built yet"})
        lines.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["return values of the public functions"]), "hook_needed": None}})
        if built:
            checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                           "thorough_cmd": f"./check.sh {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "EBSDTORCH_VP_HOOKS", "enable": "no hook is needed: every check observes the public API", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; bound to /repo by harness/ (replay of behaviours, and recorded traces judged by TLC). See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    try:
        import jsonschema
    except ImportError:
        print("no jsonschema"); return
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in lines:
        jsonschema.validate(l, ps)
        assert l["statement"].count(". ") <= 2, (l["id"], l["statement"].count(". "))
        for f in l["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(lines), "properties", len(checks), "checks")


main()
