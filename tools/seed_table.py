"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    t.setdefault(json.load(open(p))["property"], []).append(p.split("/")[-2])
s = open(V + "/DESIGN.md").read()
rows = "".join(f"| {k} | {' '.join(v)} |\n" for k, v in sorted(t.items()))
s = re.sub(r"(\| check \| catches \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + rows, s)
open(V + "/DESIGN.md", "w").write(s)
