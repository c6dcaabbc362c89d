#!/usr/bin/env python3
"""Refills the generated tables of DESIGN.md."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + "/DESIGN.md").read()
fixed = "\n".join("- " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, \2: ", x) for x in json.load(open(root + "/known_findings.json"))["fixed"])
rows = ["| change | property | what breaks | caught by |", "|---|---|---|---|"]
caught = {}
if os.path.exists(root + "/tools/plant/caught.json"):
    caught = json.load(open(root + "/tools/plant/caught.json"))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} Needs {m['needs']}. | {caught.get(i, m['property'])} |")
for tag, body in [("fixed", fixed), ("planted", "\n".join(rows))]:
    s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{body}\n<!-- /{tag} -->", s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
