#!/usr/bin/env python3
# Rewrites the list of harnesses and bounds at the end of DESIGN.md.
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = {}
for f in sorted(glob.glob(V + "/harness/**/*.go", recursive=True)):
    s = open(f).read()
    for m in re.finditer(r"func (Verif(C\d\d)_\w+)\(\) \{(.*?)\n\}", s, re.S):
        b = re.findall(r'zzsym\.Bound\("([^"]*)"', m.group(3))
        H.setdefault(m.group(2), []).append((m.group(1), b))
p = V + "/DESIGN.md"
s = open(p).read()
mark = "## Harnesses and bounds\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark
s += "\n(generated by tools/mkbounds.py; `_T` runs in thorough only, `_Q` in quick only; without a text the harness has no bound but that of its property)\n"
for l in open(V + "/properties.jsonl"):
    q = json.loads(l)
    s += "\n**%s %s** over %s\n\n" % (q["id"], q["title"], q["quantifier"]["text"])
    for n, b in sorted(H.get(q["id"], [])):
        s += "* %s%s\n" % (n.split("_", 1)[1], ": " + "; ".join(b) if b else "")
open(p, "w").write(s)
