#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json.
   Run: python3 tools/props.py   (rewrites both files in /verif)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, level="other", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, level_note=level_note, level=level, na=na))
B = "src/buzz/"
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
import glob
def main():
    for p in P:
        if not p["na"] and not glob.glob(os.path.join(ROOT, "harness", p["id"].lower()+"_*.c")): p["na"]="harness not built yet"
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh",
        checks=[dict(property=p["id"],
                     quick_cmd="python3 check.py %s quick" % p["id"],
                     thorough_cmd="python3 check.py %s thorough" % p["id"],
                     technique="solver-based checking: path-forking symbolic execution of the LLVM IR of /repo's current C sources with Z3 (engine/vfsym), counterexamples replayed natively",
                     level=p["level"], level_note=p["level_note"]) for p in P if not p["na"]],
        not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
main()
