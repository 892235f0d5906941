"""fill DESIGN.md's detection table from tools/detection.txt (output lines of bugtool.py check)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
for l in open(V + "/tools/detection.txt"):
    m = re.match(r"(\S+)\s+(C\d\d) (CAUGHT|MISSED) ?(.*)", l)
    if m:
        R[m[1]] = (m[2], m[3], m[4])
rows = ["| bug | needs | check | reported as |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    p, s, w = R.get(b, (d["property"], "?", ""))
    rows.append("| %s | %s | %s %s | %s |" % (b, d["needs"].replace("|", "/"), p, s.lower(), w.replace("|", "/")[:110]))
s = open(V + "/DESIGN.md").read()
k = s.index("Table written by")
k = s.index("\n\n", k)
n = sum(v[1] == "CAUGHT" for v in R.values())
open(V + "/DESIGN.md", "w").write(s[:k] + "\n\n" + "%d of %d caught.\n\n" % (n, len(rows) - 2) + "\n".join(rows) + "\n")
