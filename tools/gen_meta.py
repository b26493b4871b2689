"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, both files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deductive verification: contracts discharged by z3/cvc5 on the real code (path-complete symbolic execution)"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, note, claimed=True, na=None, level="proof"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      note=note, claimed=claimed, na=na, level=level))


exec(open(os.path.join(HERE, "tools", "properties_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "hook_needed": None}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/selfcheck.py",
        "checks": [{
            "property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH, "level": p["level"], "level_note": p["note"]} for p in PROPS if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"] or "check not built yet"} for p in PROPS if not p["claimed"]],
        "notes": "No hooks in /repo: the functions are imported from /repo's working tree and executed unmodified on "
                 "symbolic inputs (pyvc/). See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
