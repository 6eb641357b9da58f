"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "bounded: for the grid sizes and configurations listed in the evidence, every obligation holds for all real-valued "
               "inputs (exact real arithmetic; floating-point rounding is outside and only sampled by validation runs of the compiled code)",
}
EXTRA = {}
TECH = {
    "default": "symbolic execution of the real generators and their typed kernel ASTs; obligations decided by z3 (cvc5 fallback) over reals; counterexamples replayed on the compiled code",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
    p = os.path.join(ROOT, "tools", "levels.json")
    over = json.load(open(p)) if os.path.exists(p) else {}
    checks, na = [], []
    for d in props:
        i = d["id"]
        o = over.get(i, {})
        if o.get("not_applicable"):
            na.append({"property": i, "reason": o["not_applicable"]})
            continue
        if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": "check not built yet"})
            continue
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": o.get("technique", TECH["default"]), "level": "other",
            "level_note": o.get("level_note", NOTE["default"]),
        })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks}
    if na:
        m["not_applicable"] = na
    m["notes"] = "no hooks are needed; see DESIGN.md"
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
