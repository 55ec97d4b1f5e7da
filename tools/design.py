#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers) from tools/design_props.md, seeded/ and KNOWN_FINDINGS."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools", "design_template.md")).read()
props = open(os.path.join(V, "tools", "design_props.md")).read()
m = json.load(open(os.path.join(V, "MANIFEST.json")))
na = "".join("\n* **%s** is not claimed: %s" % (x["property"], x["reason"]) for x in m["not_applicable"])
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", d, "meta.json")
    if not os.path.exists(p): continue
    j = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"], caught.get(d, "not measured")))
fx = "\n".join("* " + l.strip().replace("fixed: property=", "fixed, ") for l in open(os.path.join(V, "KNOWN_FINDINGS")) if l.startswith("fixed:"))
kn = "\n".join("* known, %s: [%s] %s in %s (%s)" % tuple(json.loads(l[7:])[k] for k in ("property", "rule", "what", "function", "file")) for l in open(os.path.join(V, "KNOWN_FINDINGS")) if l.startswith("known:"))
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@PROPS@", props + ("\nNot claimed:\n" + na if na else "")).replace("@SEEDS@", "\n".join(rows)).replace("@FIXES@", fx + ("\n" + kn if kn else "")))
