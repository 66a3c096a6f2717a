#!/usr/bin/env python3
"""fill the table of DESIGN.md section 7 from the log of a run of all planted changes: seedtable.py LOG"""
import json, re, sys
rows = []
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) rc=(\d) (\d+)s .*?;(.*?)\|(.*?)\|(.*)$", l)
    if not m:
        continue
    i, p, rc, s, nf, ob, un = m.groups()
    ob, un = (x.strip().rstrip(",").strip() for x in (ob, un))
    needs = re.sub(r"\s+", " ", json.load(open(f"/verif/seeded/{i}/meta.json")).get("needs", "")).replace("|", "\\|")
    how = "`" + ob.replace(",", "`, `") + "`" if ob else "undecided: `" + un + "`"
    rows.append(f"| {i} | {p} | {needs} | {how} | {'MISSED' if rc != '1' else 'no' if 'no-failing' in nf else 'yes'} |")
t = open("/verif/DESIGN.md").read()
head = "| --- | --- | --- | --- | --- |\n"
i = t.index(head) + len(head)
j = t.index("\n\nChanges that look like bugs")
t = t[:i] + "\n".join(rows) + t[j:]
open("/verif/DESIGN.md", "w").write(t)
print(len(rows))
