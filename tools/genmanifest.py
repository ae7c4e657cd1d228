#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/props/*.py (run after adding or editing a property)."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vp.boot  # noqa
mods = sorted((importlib.import_module("vp.props." + os.path.basename(p)[:-3]) for p in glob.glob(HERE + "/vp/props/c*.py")), key=lambda m: m.ID)
with open(HERE + "/properties.jsonl", "w") as f:
    for m in mods:
        p = m.PROP
        assert len(p["title"]) <= 80, (m.ID, len(p["title"]))
        f.write(json.dumps(dict(id=m.ID, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])), ensure_ascii=False) + "\n")
manifest = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=m.ID, quick_cmd=f"./check {m.ID}", thorough_cmd=f"env VERIF_TIER=thorough ./check {m.ID}", technique=m.TECH, level="exploration", level_note=m.LEVEL_NOTE) for m in mods],
    not_applicable=[])
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(mods), "properties")
