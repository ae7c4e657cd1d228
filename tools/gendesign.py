"""Writes DESIGN.md: tools/design_head.md, a section per property (from the modules and NOTES below),
the planted changes (seeded/*/meta.json with tools/seed_results.json) and tools/design_tail.md."""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
os.chdir(ROOT)
import vp.boot  # noqa
import vp.props

from design_notes import NOTES

out = [open(f"{HERE}/design_head.md").read().rstrip(), "", "## Properties, one by one", ""]
for info in sorted(pkgutil.iter_modules(vp.props.__path__), key=lambda i: i.name):
    m = importlib.import_module("vp.props." + info.name)
    p = m.PROP
    q, t = m.BUDGET["quick"], m.BUDGET["thorough"]
    out += [f"### {m.ID} - {p['title']}", ""]
    out += [f"*Decided by* {m.TECH}. Module `vp/props/{info.name}.py`.", ""]
    out += [NOTES[m.ID].strip(), ""]
    out += [f"*Why the tests cannot settle it:* {p['why']}. *Ranges over:* {p['quant']}.", ""]
    out += [f"*Bounds and cost:* {m.RULE}. Quick: at most {q[0]} cases or {q[1]} s on 8 processes; thorough: {t[0]} cases or {t[1]} s. The run is inconclusive (exit 3) unless each of these was observed: {', '.join(m.REQUIRED)}.", ""]
out += ["## Planted changes and what catches them", "", "Each was verified in a scratch copy: it applies, the suite passes with it, its demonstration fails with it and passes without it.", "", "| change | property | what it needs | caught by |", "|---|---|---|---|"]
res = json.load(open(f"{HERE}/seed_results.json")) if os.path.exists(f"{HERE}/seed_results.json") else {}
for s in sorted(os.listdir("seeded")):
    meta = json.load(open(f"seeded/{s}/meta.json"))
    out.append(f"| {s} | {meta['property']} | {meta['needs']} | {res.get(s, 'not measured')} |")
out += ["", open(f"{HERE}/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
