#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the property list, the fixed defects and the planted bugs."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
man = {c["property"]: c for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]}
kf = json.loads((ROOT / "known_findings.json").read_text())
seeds = sorted((json.loads((d / "meta.json").read_text()) | {"id": d.name}) for d in (ROOT / "seeded").iterdir()) if False else sorted(
    ({**json.loads((d / "meta.json").read_text()), "id": d.name} for d in (ROOT / "seeded").iterdir() if (d / "meta.json").exists()), key=lambda s: (s["property"], s["id"]))

HEAD = (ROOT / "tools" / "design_head.md").read_text()
TAIL = (ROOT / "tools" / "design_tail.md").read_text()
MODS = {
    "P01": "GerberImage, Geometry, ImageMC, ImageTrace", "P02": "GerberImage, Geometry, ImageMC, ImageTrace", "P03": "GerberImage, Geometry, ImageMC, ImageTrace",
    "P04": "GerberImage, Geometry, ImageTrace", "P05": "MacroExpr, MacroExprMC, MacroExprTrace", "P06": "Codec, CodecMC, CodecTrace",
    "P07": "GState, GStateMC, GStateTrace", "P08": "GState, GStateMC, GStateTrace", "P09": "Syntax, Format, FormatMC, FormatTrace", "P10": "Syntax, Format, FormatMC, FormatTrace",
    "P11": "Document, DocumentMC, DocumentTrace", "P12": "Document, DocumentMC, DocumentTrace", "P19": "Document, DocumentMC, DocumentTrace", "P23": "Document, DocumentMC, DocumentTrace",
    "P13": "Builder, BuilderMC, BuilderTrace", "P14": "RvmcBuild, RvmcBuildMC, RvmcTrace, Layers", "P15": "Layers, LayersMC, LayersTrace",
    "P16": "Raster, RasterMC, RasterTrace", "P20": "Raster, RasterMC, RasterTrace", "P21": "Files, FilesMC, FilesTrace", "P24": "Files, FilesMC, FilesTrace",
    "P17": "Lint, LintMC, LintTrace, Document", "P18": "Lsp, LspMC, LspTrace, GState", "P22": "Reuse, ReuseMC, ReuseTrace", "P25": "Cli, CliMC, CliPlan, CliTrace",
    "P26": "Integrity, IntegrityMC, IntegrityTrace", "P27": "Values, ValuesMC, ValuesTrace", "P28": "Overrides, OverridesMC, OverridesTrace, Document",
}
out = [HEAD.rstrip(), "", "## How each property is decided", ""]
for p in sorted(props, key=lambda p: p["id"]):
    c = man[p["id"]]
    out += [f"### {p['id']} {p['title']}", "",
            f"*Modules:* {MODS.get(p['id'], '')}. *Anchored in:* " + ", ".join(f"`{f.removeprefix('src/pygerber/')}`" for f in p["anchors"]["files"]) + ".", "",
            f"*Method:* {c['technique']}.", "", f"*Bounds:* {c['level_note']}.", "", f"*Beyond the tests:* {p['why_tests_cant']}.", ""]
out += ["## Planted bugs", "", "Each changes lines of the original repository, passes the 906 stable tests, and is reported by the quick check of its property (`tools/seed.py verify`).", "",
        "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
out += [f"| {s['id']} | {s['property']} | {s['needs']} | {s['what_it_breaks']} |" for s in seeds]
out += ["", "## Defects found and repaired", "", f"{len(kf['fixed'])} `fix:` commits in /repo, each found by the named check on the unrepaired tree (also in `known_findings.json`; no open findings: {len(kf['findings'])}).", ""]
out += ["- " + f.removeprefix("fixed: property=") for f in kf["fixed"]]
out += ["", TAIL.rstrip(), ""]
(ROOT / "DESIGN.md").write_text("\n".join(out))
