#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded*/ID/meta.json and tools/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows, n = ["| planted bug | needs | caught by (class) |", "|---|---|---|"], 0
for d in ("seeded", "seeded-more"):
    for f in sorted(glob.glob(V + "/%s/*/meta.json" % d)):
        i = f.split("/")[-2]; m = json.load(open(f)); c = caught.get(i, {})
        n += d == "seeded"
        rows.append("| %s%s | %s | %s |" % (i, "" if d == "seeded" else " (more)", m["needs"].replace("|", "/"), ", ".join("%s (%s)" % (p, k) if k else "missed by " + p for p, k in sorted(c.items())) or "not run"))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->).*?(<!-- end -->)", lambda x: x.group(1) + "\n" + "\n".join(rows) + "\n" + x.group(2), s, flags=re.S)
s = re.sub(r"holds \S+ planted bugs", "holds %d planted bugs" % n, s)
open(V + "/DESIGN.md", "w").write(s)
