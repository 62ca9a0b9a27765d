#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
C = "src/pygerber/gerber/compiler/compiler.py"
ST = "src/pygerber/gerber/ast/state_tracking_visitor.py"
SHP = "src/pygerber/vm/commands/shape.py"
PV = "src/pygerber/vm/pillow/vm.py"
SV = "src/pygerber/vm/shapely/vm.py"
VM = "src/pygerber/vm/vm.py"
PROG = ["inputs", "histories"]

P = []


def prop(id, title, statement, text, why, files, mech, technique, note, over=("inputs",), state=None, observe=None):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                 why_tests_cant=why,
                 anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}), **({"observe_at": observe} if observe else {})}),
        technique=technique, note=note))


IMG_TECH = ("TLA+ state machine GerberImage checked with TLC; behaviours enumerated by TLC and random programs are replayed "
            "through parse/compile/render and every painted sample point is judged by the trace specification ImageTrace")

exec((ROOT / "tools" / "prop_list.py").read_text())

(ROOT / "properties.jsonl").write_text("".join(json.dumps(p["rec"]) + "\n" for p in P))
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [dict(property=p["rec"]["id"], quick_cmd=f"./run.py {p['rec']['id']} quick",
                    thorough_cmd=f"./run.py {p['rec']['id']} thorough", technique=p["technique"], level="model_checking",
                    level_note=p["note"], evidence_file=f"evidence/{p['rec']['id']}.json") for p in P],
    "not_applicable": [],
    "notes": "TLA+ specifications in spec/, drivers in checks/ and vlib/. No hooks in /repo: everything is observed through the public API.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties")
