"""Types and colours of files (P21), projects made of job files (P24)."""
from __future__ import annotations

import io
import json
import random
import tempfile
from pathlib import Path

from vlib.pool import pmap

FUNCTIONS = ["Copper", "Plated", "NonPlated", "Profile", "Soldermask", "Legend", "Component", "Paste", "Glue", "Carbonmask", "Goldmask",
             "Heatsinkmask", "Peelablemask", "Silvermask", "Tinmask", "Depthrout", "Vcut", "Viafill", "Pads", "Other", "Drillmap",
             "FabricationDrawing", "Vcutmap", "AssemblyDrawing", "ArrayDrawing", "OtherDrawing"]
REST = {"Copper": ",L1,Top", "Plated": ",1,2,PTH", "NonPlated": ",1,2,NPTH", "Profile": ",NP", "Soldermask": ",Top", "Legend": ",Bot"}
EXTS = [".gbr", ".grb", ".gto", ".gbo", ".gpt", ".gpb", ".gts", ".gbs", ".gtl", ".gbl", ".gtp", ".gbp", ".g1", ".g12", ".gp2", ".gm1", ".gm15",
        ".txt", ".ger", ".pho", "", ".g", ".gp", ".gm", ".gtx", ".drl", ".gko"]


def name_of(function):
    return "NON_PLATED" if function == "NonPlated" else function.upper()


def observe_type(job):
    ident, seed, work = job
    r = random.Random(seed)
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP, Color, FileTypeEnum, GerberFile, Style
    real = [t for t in FileTypeEnum if not t.name.startswith("INFER")]
    ask = r.choice(["INFER"] * 4 + ["INFER_FROM_EXTENSION"] * 2 + ["INFER_FROM_ATTRIBUTES"] * 2 + [r.choice(real).name])
    source = r.choice(["file", "file", "file", "string", "buffer"])
    ext = r.choice(EXTS)
    if r.random() < 0.35:
        ext = ext.upper() if r.random() < 0.6 else "".join(r.choice([c.upper(), c]) for c in ext)
    func = r.choice(FUNCTIONS) if r.random() < 0.7 else ""
    rec = dict(id=ident, kind="type", err="", calls=[], file=dict(req=ask, source=source, ext=list(ext) if source == "file" else [], func=name_of(func) if func else ""),
               how=ext)
    lines = ["%FSLAX25Y25*%", "%MOMM*%", "%ADD10R,1X1*%", "D10*", "X0Y0D03*", "M02*"]
    if r.random() < 0.5:
        lines.insert(2, "%TF.Part,Single*%")
    if func:
        lines.insert(r.choice([0, 2, len(lines) - 1]), f"%TF.FileFunction,{func}{REST.get(func, '')}*%")
    text = "\n".join(lines)
    maps = {}
    for k, m in enumerate(("a", "b")):
        maps[m] = {t: Style(foreground=Color.from_rgba(10 + k, 5 * i + 3, 200), background=Color.from_rgba(0, 0, 0)) for i, t in enumerate(real)}
    override = Style(foreground=Color.from_rgba(1, 2, 3), background=Color.from_rgba(0, 0, 0))
    known = {maps[m][t].foreground.as_rgba_int(): [m, t.name] for m in maps for t in real}
    known[override.foreground.as_rgba_int()] = ["style", ""]
    try:
        kw = {} if ask == "INFER" and r.random() < 0.5 else {"file_type": FileTypeEnum[ask]}
        if source == "file":
            path = Path(work) / f"board{ident}{ext}"
            path.write_text(text)
            g = GerberFile.from_file(r.choice([str, Path])(path), **kw)
            path.unlink()
        elif source == "string":
            g = GerberFile.from_str(text, **kw)
        else:
            g = GerberFile.from_buffer(io.StringIO(text), **kw)
        current = "default"
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.4:
                current = r.choice(["a", "b"])
                assert g.set_color_map(maps[current]) is g
                rec["calls"].append({"op": "map", "map": current})
                continue
            st = r.random() < 0.2
            args = {"style": override} if st else {}
            if r.random() < 0.7:
                img = g.render_with_pillow(dpmm=2, **args).get_image().convert("RGBA")
                ink = img.getpixel((img.width // 2, img.height // 2))
            else:
                from vlib.rastcheck import read_svg
                b = io.BytesIO()
                g.render_with_shapely(**args).save(b)
                hexc = read_svg(b.getvalue())[4].pop().lstrip("#")
                ink = tuple(int(hexc[i:i + 2], 16) for i in range(0, 8, 2))
            if current == "default" and not st:
                # the default colours are not told apart by type; they are those of the map published for it
                want = [t.name for t in real if DEFAULT_ALPHA_COLOR_MAP[t].foreground.as_rgba_int() == tuple(ink)]
                rec["calls"].append({"op": "defaults", "want": want})
            else:
                rec["calls"].append({"op": "render", "style": st, "seen": known.get(tuple(ink), ["?", str(ink)])})
        for m in (DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP):
            assert all(t in m for t in real), f"no default colour for {[t.name for t in real if t not in m]}"
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    return rec


def run_types(ctx, n):
    with tempfile.TemporaryDirectory(prefix="files_") as work:
        recs = pmap(observe_type, [(i, repr((ctx.seed, "types", i)), work) for i in range(n)])
    ctx.sample(recs[0])
    ctx.validate("FilesTrace", recs, label="file types")


# ------------------------------------------------------------------ job files
JOBF = ["Copper", "SolderMask", "Soldermask", "SolderPaste", "Paste", "Legend", "Silk", "Mask", "Glue", "Component", "Plated", "NonPlated", "Drillmap", "Other",
        "AssemblyDrawing", "Unheardof"]


def canonical(f):
    return {"SOLDERPASTE": "PASTE"}.get(f.upper(), f.upper())


def gen_job(r):
    entries, seen = [], set()
    for _ in range(r.randint(1, 9)):
        f = r.choice(JOBF[:6] * 3 + JOBF)
        q = r.random()
        side, layer = ("TOP", 0) if q < 0.35 else ("BOT", 0) if q < 0.7 else ("", 0)
        if f in ("Copper",) and r.random() < 0.7:
            side, layer = r.choice([("TOP", 1), ("BOT", r.randint(2, 14)), ("", r.randint(2, 14)), ("", r.randint(2, 14))])
        if side == "" and layer == 0 and f in ("Soldermask", "SolderMask", "Legend"):
            side = "TOP"
        key = (canonical(f), side, layer if side == "" else 0)
        if key in seen:
            continue
        seen.add(key)
        entries.append(dict(func=f, side=side, layer=layer))
    if r.random() < 0.7:
        entries.insert(r.randrange(len(entries) + 1), dict(func="Profile", side="", layer=0))
    r.shuffle(entries)
    for i, e in enumerate(entries):
        e["file"] = i + 1
    return entries


def spelled(e, r):
    parts = [e["func"]]
    if e["layer"]:
        parts.append(f"L{e['layer']}")
    if e["side"]:
        parts.append({"TOP": "Top", "BOT": "Bot"}[e["side"]])
    elif e["layer"]:
        parts.append("Inr")
    elif e["func"] == "Profile":
        parts += r.choice([[], ["NP"], ["P"]])
    elif e["func"] in ("Plated", "NonPlated"):
        parts += ["1", "4", "PTH" if e["func"] == "Plated" else "NPTH"]
    if r.random() < 0.2:
        parts = [r.choice([str.upper, str.lower])(p) for p in parts]
    return ",".join(parts)


def observe_job(job):
    ident, seed, work, entries = job
    r = random.Random(seed)
    entries = entries if entries is not None else gen_job(r)
    rec = dict(id=ident, kind="job", err="", calls=[], top=[], bottom=[], inner=[],
               job=[{**e, "func": e["func"].upper()} for e in entries])
    try:
        import logging
        from pygerber.gerber.api import GerberJobFile
        logging.disable(logging.CRITICAL)
        root = Path(work) / f"job{ident}"
        root.mkdir()
        files = []
        for e in entries:
            rel = r.choice(["", "gerbers/", "out/deep/"]) + f"f{e['file']}.{r.choice(['gbr', 'gtl', 'gbo', 'txt'])}"
            (root / rel).parent.mkdir(parents=True, exist_ok=True)
            (root / rel).write_text(f"G04 file {e['file']}*\n%FSLAX25Y25*%\n%MOMM*%\nM02*\n")
            files.append({"Path": rel, "FileFunction": spelled(e, r), "FilePolarity": "Positive"})
        data = {"Header": {"GenerationSoftware": {"Vendor": "v", "Application": "a", "Version": "1"}, "CreationDate": "2024-01-01T00:00:00+01:00"},
                "GeneralSpecs": {"ProjectId": {"Name": "n", "GUID": "g", "Revision": "r"}, "Size": {"X": 1.0, "Y": 2.0}, "LayerNumber": 4, "BoardThickness": 1.6},
                "FilesAttributes": files, "MaterialStackup": [{"Name": "c", "Type": "Copper"}]}
        path = root / "board.gbrjob"
        path.write_text(json.dumps(data))
        how = r.random()
        if how < 0.7:
            j = GerberJobFile.from_file(r.choice([str, Path])(path))
            project = j.to_project() if r.random() < 0.8 else j.to_project(path=path)
        else:
            j = GerberJobFile.model_validate_json(path.read_text()) if how < 0.85 else GerberJobFile.model_validate(data)
            project = j.to_project(path=path)

        def view(v):
            return [[int(g.source_code.split()[2].rstrip("*")), g.file_type.name] for g in v.files]
        rec["top"], rec["bottom"], rec["inner"] = view(project.top), view(project.bottom), [view(v) for v in project.inner]
        import shutil
        shutil.rmtree(root)
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    return rec


def model(ctx):
    r = ctx.model_check("FilesMC", {"Entries": str(ctx.n(2, 3))},
                        invariants=["Decided", "ExplicitWins", "SourceIrrelevant", "Case", "SameType", "Ordered", "ProfileEverywhere", "NothingElse", "OneView", "EmitJob"],
                        label="files")
    out = []
    for v in r.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        out.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    return sorted(out, key=json.dumps)


def run_jobs(ctx, behs, n):
    names = {"COPPER": "Copper", "SOLDERPASTE": "SolderPaste", "PROFILE": "Profile", "GLUE": "Glue"}
    # entries that compete for the same place of a view are not judged
    def fine(b):
        k = [(e["func"], e["side"] if e["func"] != "PROFILE" else "", e["layer"] if e["side"] == "" and e["func"] != "PROFILE" else 0) for e in b]
        return len(set(k)) == len(k) and not any(e["func"] == "GLUE" and e["side"] == "" and e["layer"] for e in b)
    behs = [[{**e, "func": names[e["func"]]} for e in b] for b in behs if fine(b)]
    cap = ctx.n(700, 8000)
    if len(behs) > cap:
        behs = ctx.rng("beh").sample(behs, cap)
    with tempfile.TemporaryDirectory(prefix="jobs_") as work:
        jobs = [(i, repr((ctx.seed, "beh", i)), work, b) for i, b in enumerate(behs)]
        jobs += [(len(behs) + i, repr((ctx.seed, "job", i)), work, None) for i in range(n)]
        recs = pmap(observe_job, jobs)
    ctx.note("behaviours_replayed", len(behs))
    ctx.sample(recs[-1])
    ctx.validate("FilesTrace", recs, label="job files")
