#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.   usage: tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, tech=None, note=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": over, "text": " ".join(text.split())},
                  why_tests_cant=" ".join(why.split()),
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe or ["protocol streams of every attached client and server"],
                           "hook_needed": hook}, _tech=tech, _note=note, _level=level))


SAN = "real ircd under ASan/UBSan/asserts in virtual time; "
exec(open(os.path.join(V, "tools", "props_data.py")).read())


def main():
    have = [x for x in P if os.path.exists(os.path.join(V, "checks", x["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 vsim/build.py asan plain",
           "hooks": {"guard": "VERIF_HOOKS", "enable": "compiled with -DVERIF_HOOKS=1 by vsim/build.py (instrumented variants)",
                     "source_commits": ["7cc7321"]},
           "checks": [], "not_applicable": []}
    for x in P:
        if x in have:
            man["checks"].append({
                "property": x["id"], "quick_cmd": "VERIF_TIER=quick ./check %s" % x["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./check %s" % x["id"],
                "evidence_file": "evidence/%s.json" % x["id"],
                "technique": x["_tech"], "level": x["_level"], "level_note": x["_note"]})
        else:
            man["not_applicable"].append({"property": x["id"], "reason": "no check has been built for it yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(have)))


main()
