"""Write the table of planted bugs into DESIGN.md."""
import json, glob, os, re
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
rows.sort()
t = "| check | bug | needs | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = "/verif/DESIGN.md"
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "<!-- seeds -->\n" + t + "<!-- /seeds -->")
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
