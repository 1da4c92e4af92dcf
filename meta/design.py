#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md from props.py, known_findings.txt, seeded/ and design_text.py"""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
try:
    from design_text import HOW
except ImportError:
    HOW = {}
t = open(os.path.join(here, "DESIGN.in.md")).read()
P, NA = [], []
caught = {}
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    caught.setdefault(m["property"], []).append((os.path.basename(d), m))
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if "na" in p:
        NA.append("- **%s %s**: %s" % (p["id"], p["title"], p["na"]))
        continue
    P.append("### %s %s\n%s\n%s\n*Bounds:* %s.  *Caught:* %s." % (p["id"], p["title"], p["statement"], HOW.get(p["id"], ""), p["note"].rstrip("."),
             ", ".join(x for x, _ in caught.get(p["id"], [])) or "mutants only"))
F = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.startswith(("fixed:", "finding:"))]
S = ["- `%s` (%s): %s Needs: %s" % (n, m["property"], m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip(".") + ".") + (" **Not caught.**" if m.get("missed") else " Caught.")
     for v in sorted(caught.values()) for n, m in v]
for k, v in (("PROPS", "\n\n".join(P)), ("NA", "\n".join(NA) or "(none yet)"), ("FIXES", "\n".join("- " + x for x in F)), ("SEEDED", "\n".join(S) + "\n")):
    t = t.replace("@@%s@@" % k, v)
open(os.path.join(root, "DESIGN.md"), "w").write(t)
