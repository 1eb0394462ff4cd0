#!/usr/bin/env python3
# Rewrites the generated tables of DESIGN.md (harness entry points with their bounds; planted changes) in place.
import json, re, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = json.load(open(root + "/harness/checks.json"))
src = "".join(open(f).read() for f in sorted(glob.glob(root + "/harness/h/*.go")))
def short(l):
    if not l: return "as quick"
    if len(l) <= 12: return " ".join(map(str, l))
    return f"{l[0]} … {l[-1]} ({len(l)} values)"
out = []
for q in sorted(d):
    out.append(f"**{q}** — time budget {d[q].get('seconds', 250)} s quick, {d[q].get('tseconds', 600)} s thorough\n")
    for e in d[q]["entries"]:
        m = re.search(r"((?:^//.*\n)+)func %s\(" % e["fn"], src, re.M)
        doc = re.sub(r"\s+", " ", m.group(1).replace("//", "")).strip() if m else ""
        doc = re.sub(r"^%s:? *" % e["fn"], "", doc)
        if e.get("bound"): doc += " " + e["bound"]
        out.append(f"* `{e['fn']}` ({short(e['quick'])}; thorough: {short(e.get('thorough'))}) {doc}")
    out.append("")
seeds = ["| change | property | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs'].replace('|', '/')} |")
p = root + "/DESIGN.md"
s = open(p).read()
for name, body in (("harnesses", out), ("seeds", seeds)):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(body).rstrip() + "\n" + s[j:]
open(p, "w").write(s)
