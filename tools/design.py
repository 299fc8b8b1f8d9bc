#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (per property; planted bugs) from the table in gen.py,
the main() of every check and seeded/. Run by hand after gen.py."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
out = []
for p in props:
    src = open(os.path.join(here, "harness/src/bin", p["id"].lower() + ".rs")).read()
    m = src[src.index("gv::main("):]
    S = r'"((?:[^"\\]|\\.)*)"'
    head = m.split("Sub {")[0].split("SUBS")[0]
    strs = [re.sub(r"\\\n\s*", "", s) for s in re.findall(S, head)]
    gen, assume = strs[1], strs[2:]
    subs = [(a, b) for a, b in re.findall(r"Sub \{\s*name:\s*" + S + r",\s*rule:\s*" + S, src)]
    out += [f"### {p['id']} {p['title']}", "",
            f"* Method: {man[p['id']]['technique'].split(': ', 1)[1]}.",
            f"* Generated: {gen}.",
            "* Sub-checks (non-trivial when): " + "; ".join(f"*{a}* ({b})" for a, b in subs) + ".",
            "* Bounds and assumptions: " + "; ".join(assume) + ".",
            f"* Why tests cannot: {p['why_tests_cant']}.", ""]
rows = ["| planted bug | property | needs | caught by its check |", "|---|---|---|---|"]
res = json.load(open(os.path.join(here, "tools/caught.json")))
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
def put(t, tag, lines):
    a, b = f"<!-- {tag} -->", f"<!-- end {tag} -->"
    return t[:t.index(a) + len(a)] + "\n" + "\n".join(lines) + "\n" + t[t.index(b):]
t = put(t, "per property", out)
t = put(t, "planted", rows)
open(f, "w").write(t)
