#!/usr/bin/env python3
"""Writes DESIGN.md = design/head.md + per-property sections from config.py/properties.jsonl + design/tail.md."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(H); sys.path.insert(0, H)
from config import CHECKS, NA
import re
out = [open(os.path.join(ROOT, "design/head.md")).read().rstrip(), "", "## Properties under contract", ""]
rd = lambda f: open(os.path.join(ROOT, f)).read()
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); c = CHECKS.get(p["id"])
    if not c: continue
    out.append(f"### {p['id']} — {p['title']}"); out.append("")
    out.append((c.get("note") or "").strip())
    fns = []
    for u in sorted({u.split(":")[0] for u in c.get("verus", [])}):
        t = rd(f"verus/units/{u}.rs")
        for inc in re.findall(r"//@include (\S+)", t): t += rd("verus/units/" + inc) if os.path.exists(os.path.join(ROOT, "verus/units", inc)) else ""
        fns += re.findall(r"^//@fn (\S+) :: (.+)$", t, re.M)
    fns = list(dict.fromkeys(fns)); files = {}
    for f, n in fns: files.setdefault(f, []).append(n.strip())
    out.append(f"\nVerus units: {', '.join('`'+u+'`' for u in c.get('verus', []))}; {len(fns)} functions extracted.")
    for f, n in files.items():
        names = ", ".join(x.split("::", 1)[-1] if False else x for x in n)
        out.append(f"- `{f}`: {names}")
    if c.get("trusted"): out.append("\nAssumed: " + "; ".join(c["trusted"]) + ".")
    out.append("")
out += ["## Not applicable", ""]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in CHECKS: out.append(f"- **{p['id']}** {p['title']}: {NA.get(p['id'], 'no contract yet')}")
out += ["", rd("design/tail.md").rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
