"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (each bug is listed under the property it was written
for; tools/mkdesign.py takes a file of 'bug own-property check HIT|miss' lines, as a sweep prints them, to tell which checks report it)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def main(results=None):
    own, caught = {}, {}
    for b in sorted(os.listdir(SEEDED)):
        own[b] = json.load(open(os.path.join(SEEDED, b, "meta.json")))["property"]
    for line in open(results) if results else ():
        w = line.split()
        if len(w) > 3 and w[0] in own:
            caught.setdefault(w[0], {})[w[2]] = w[3] == "HIT"
    rows = {}
    for b, p in own.items():
        mark = b if not results or caught.get(b, {}).get(p) else b + " (missed)" if b in caught else b + " (not run)"
        rows.setdefault(p, []).append(mark)
    text = "| check | planted bugs written for its property that it reports |\n|----|----|\n" + "".join("| %s | %s |\n" % (p, ", ".join(rows[p])) for p in sorted(rows))
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    s = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda m: "<!-- bugs -->\n%d bugs.\n\n%s<!-- /bugs -->" % (len(own), text), s, flags=re.S)
    open(path, "w").write(s)


main(*sys.argv[1:])
