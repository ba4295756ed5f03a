# Rewrites the table of planted bugs in DESIGN.md from a log of lines "id | property | rc | first message".
import sys, json, re
rows = []
for line in open(sys.argv[1]):
    f = [x.strip() for x in line.split("|", 3)]
    if len(f) < 4: continue
    m = re.match(r"C\d\d ([^:]+):", f[3])
    rows.append((f[0], f[1], m.group(1) if f[2] == "1" and m else "-- not caught --"))
out = "| planted bug | check | family |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
t = open("/verif/DESIGN.md").read()
a, b = "<!-- catch table -->\n", "<!-- end -->\n"
i, j = t.index(a) + len(a), t.index(b)
open("/verif/DESIGN.md", "w").write(t[:i] + out + t[j:])
