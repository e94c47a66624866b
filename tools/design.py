"""Writes DESIGN.md"""
import glob, importlib, json, os, sys
V = "/verif"
sys.path[:0] = [V + "/vsim", V + "/checks", V + "/tools"]
import design_data
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
kf = json.load(open(V + "/known_findings.json"))
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
fixed = {}
for l in kf["fixed"]:
    w = l.split(" ", 3)
    fixed.setdefault(w[1].split("=")[1], []).append((w[2], w[3]))
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    try:
        m = importlib.import_module(i.lower())
    except ImportError:
        continue
    d = design_data.D.get(i, ("", "", ""))
    o.append("### %s — %s" % (i, p["title"]))
    o.append("")
    if d[0]:
        o.append("*Oracle.* " + d[0])
    o.append("*Monitored.* " + m.RULE + ".")
    o.append("*Bounds.* %sDistinct situations that must occur in every run: %s." % (d[1] + " " if d[1] else "", ", ".join(getattr(m, "MUST_SEE", [])) or "none"))
    a = [x for x in getattr(m, "ASSUMPTIONS", [])]
    if a:
        o.append("*Assumptions.* " + "; ".join(a) + ".")
    if d[2]:
        o.append("*False alarms corrected.* " + d[2])
    for n, s in seeds.get(i, []):
        o.append("*Planted bug* `%s` (%s): %s" % (n, "caught by ./check " + s.get("caught_by", i) if s.get("caught", True) else "missed", s["what_it_breaks"]))
    for h, w in fixed.get(i, []):
        o.append("*Defect repaired* %s: %s." % (h, w))
    o.append("")
o += ["## Findings not repaired", ""] + (["* %s" % k["what"] for k in kf["findings"]] or ["None open."]) + [""]
o += ["## Not applicable", ""] + (["* %s: %s" % (n["property"] if "property" in n else n.get("id"), n["reason"]) for n in man.get("not_applicable", [])] or ["No listed property is outside the technique."]) + [""]
o.append(open(V + "/tools/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
print(len(o), "lines")
