"""Fills the tables of DESIGN.md (fixes, planted bugs) between their markers."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for f in json.load(open(os.path.join(root, "known-findings.json")))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    fixes.append("| %s | %s | %s |" % m.groups())
bugs = ["| bug | caught by | manifests with | effect |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"]))
for name, rows in (("FIXES", fixes), ("BUGS", bugs)):
    t = "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(rows), name)
    if "@@%s@@" % name in s:
        s = s.replace("@@%s@@" % name, t)
    else:
        s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
