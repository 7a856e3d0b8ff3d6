#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md (between the BEGIN/END markers) from the harness headers, known_findings.json and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
out = []
for p in P:
    h = f"{V}/harness/{p['id']}.cc"
    out.append(f"### {p['id']} {p['title']}\n")
    if not os.path.exists(h): out.append(f"Not claimed: {na.get(p['id'])}\n"); continue
    t = open(h).read()
    b = re.findall(r"^// BOUND: (.*)", t, re.M); o = re.findall(r"^// ORACLE: (.*)", t, re.M); n = re.findall(r"^// NOTE: (.*)", t, re.M)
    ents = len(re.findall(r"VP_ENTRY|VEC_OP\(|VEC_OPS\(", t))
    out.append(f"*Decided by* symbolic execution of the real code from harness/{p['id']}.cc; code: {', '.join(p['anchors']['files'])}.")
    if o: out.append("*Oracle:* " + " ".join(o))
    out.append("*Bounds:* " + "; ".join(b) + ".")
    if n: out.append("*Notes:* " + " ".join(n))
    fx = [l for l in json.load(open(V + "/known_findings.json"))["fixed"] if f"property={p['id']} " in l]
    if fx: out.append("*Defects found and repaired:* " + "; ".join(re.sub(r"^fixed: property=\S+ (\S+) (.*)", r"\2 (`\1`)", l) for l in fx) + ".")
    out.append("")
s = open(V + "/DESIGN.md").read()
def put(tag, body):
    global s
    s = re.sub(f"<!-- BEGIN {tag} -->.*?<!-- END {tag} -->", lambda m: f"<!-- BEGIN {tag} -->\n{body}\n<!-- END {tag} -->", s, flags=re.S)
put("PROPERTIES", "\n".join(x for x in out if x is not None))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
put("SEEDED", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
