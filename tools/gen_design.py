import json, sys, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/engine"); sys.path.insert(0, R); sys.setrecursionlimit(10000)
import rules
o = [open(R + "/tools/design_head.md").read().rstrip("\n"), ""]
o += ["Functions = compared/analysed functions of the library; obl. = equalities/entailments discharged on the current tree.", ""]
seeds = {}
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(f)))
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in rules.RULES: continue
    try: e = json.load(open(R + "/evidence/%s.json" % i))
    except Exception: e = {}
    c = e.get("coverage", {})
    fs = [x for x in c.get("functions_analysed", []) if not x.startswith("spec::")]
    fs = ", ".join(fs) if len(fs) <= 9 else "%d functions" % len(fs)
    o.append("**%s %s** — %s *Functions:* %s. *Obl.:* %s.%s" % (i, p["title"], (rules.RULES[i].__doc__ or "").strip(), fs or "-", c.get("discharged", "-"), (" *Planted:* %s." % ", ".join(seeds[i])) if i in seeds else ""))
    o.append("")
o += [open(R + "/tools/design_tail.md").read().rstrip("\n"), ""]
o += ["## 7. Planted bugs and what catches them", "", "Each passes the whole test suite; `demo.sh` shows the failure at run time; the check of the named property reports it.", "", "| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"].replace("|", "/").replace("\n", " "), str(d["needs"]).replace("|", "/").replace("\n", " ")))
open(R + "/DESIGN.md", "w").write("\n".join(o) + "\n")
