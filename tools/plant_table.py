"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks'].strip()[:160].replace('|', '/')} |")
s = open(V + "/DESIGN.md").read()
h = "| planted bug | caught by | what it breaks |\n|---|---|---|\n"
s = s[:s.index(h)] + h + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
