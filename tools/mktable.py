"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[-2], m["needs"].replace("|", "\\|")))
p = here + "/DESIGN.md"
s = open(p).read()
head = "| property (and check) | change | what it needs to manifest |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
s = s[:i] + "\n".join("| %s | %s | %s |" % r for r in sorted(rows)) + s[j:]
open(p, "w").write(s)
print(len(rows))
