"""Writes the table of planted changes into DESIGN.md (section 4) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted change | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append(f"| {n} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {MISSED.get(n, 'by ' + m['property'])} |")
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- plants -->\n" + "\n".join(rows) + "\n<!-- /plants -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
