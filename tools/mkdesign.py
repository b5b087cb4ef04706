#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, a section per property made from properties.jsonl and the comments of
the harnesses, and the table of planted bugs."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read().rstrip() + "\n\n## Properties\n\n"
out += "Statements are in `properties.jsonl`. Below: the harness functions that decide each property, what they vary, and what is outside.\n\n"
known = open(root + "/KNOWN_FINDINGS").read()
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out += "### %s %s\n\n" % (i, p["title"])
    files = sorted(glob.glob(root + "/harness/**/zz_vf_%s*.go" % i.lower(), recursive=True))
    if not files:
        out += "(no harness)\n\n"
        continue
    tags = {}
    funcs = []
    for f in files:
        s = open(f).read()
        for m in re.finditer(r"^//vf:(\w+) (.*)$", s, re.M):
            tags.setdefault(m[1], []).append(m[2])
        for m in re.finditer(r"((?:^//(?!vf:).*\n)*)^func (VF_%s_\w+)\(" % i, s, re.M):
            doc = " ".join(x.lstrip("/ ") for x in m[1].strip().splitlines())
            doc = re.sub(r"^VF_\w+:? ?", "", doc)
            funcs.append((m[2], doc))
    out += "Decided by: " + "; ".join("`%s`%s" % (n, " (" + d.rstrip(".") + ")" if d else "") for n, d in funcs) + ".\n\n"
    for k, name in [("bound", "Bounds"), ("assume", "Assumes"), ("stub", "Stubs"), ("outside", "Outside")]:
        if k in tags:
            out += "* %s: %s\n" % (name, "; ".join(tags[k]))
    out += "\n"
out += "## Planted bugs\n\nEach was written from a property's text and the code, passes the repository's tests, and has a demonstration that fails with it only.\n\n"
out += "| Bug | Property | Needs | Breaks | Caught by |\n|---|---|---|---|---|\n"
caught = json.load(open(root + "/tools/caught.json")) if os.path.exists(root + "/tools/caught.json") else {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out += "| %s | %s | %s | %s | %s |\n" % (n, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), caught.get(n, "?"))
note = root + "/tools/design_tail.md"
if os.path.exists(note): out += "\n" + open(note).read()
open(root + "/DESIGN.md", "w").write(out)
