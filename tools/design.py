"""Fills in DESIGN.md's tables from seeded/ and known_findings.json: python3 tools/design.py"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
rows = ["| planted bug | breaks | caught by | what it breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m.get("caught_by", m["property"]), m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"@NFIXED@|\d+(?= entries over)", str(len(k["fixed"])), s)
s = re.sub(r"@NCOMMITS@|\d+(?= \"fix:\" commits)", str(len({re.search(r"P\d\d ([0-9a-f]{7})", x).group(1) for x in k["fixed"]})), s)
i = s.index("\n@SEEDS@") if "@SEEDS@" in s else s.index("\n| planted bug")
s = s[:i] + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
