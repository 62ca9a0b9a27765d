"""Command lines run against the real command line interface."""
from __future__ import annotations

import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from vlib import rastcheck, tlc
from vlib.pool import pmap

TYPES = ["COPPER", "MASK", "PASTE", "SILK", "EDGE", "PLATED", "NON_PLATED", "PROFILE", "SOLDERMASK", "LEGEND", "COMPONENT", "GLUE", "CARBONMASK", "GOLDMASK",
         "HEATSINKMASK", "PEELABLEMASK", "SILVERMASK", "TINMASK", "DEPTHROUT", "VCUT", "VIAFILL", "PADS", "OTHER", "DRILLMAP", "FABRICATIONDRAWING", "VCUTMAP",
         "ASSEMBLYDRAWING", "ARRAYDRAWING", "OTHERDRAWING", "UNDEFINED", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES", "INFER"]
STYLES = ["SILK", "SILK_ALPHA", "COPPER", "COPPER_ALPHA", "PASTE_MASK", "PASTE_MASK_ALPHA", "SOLDER_MASK", "SOLDER_MASK_ALPHA", "DEFAULT_GRAYSCALE", "DEBUG_1",
          "DEBUG_1_ALPHA", "BLACK_WHITE", "BLACK_WHITE_ALPHA"]
NAMES = {"output": ("-o", "--output"), "type": ("-t", "--file-type"), "style": ("-s", "--style"), "fg": ("-f", "--foreground"), "bg": ("-b", "--background"),
         "dpmm": ("-d", "--dpmm"), "impl": ("-i", "--implementation"), "quality": ("-q", "--quality"), "compression": ("-c", "--compression"),
         "lossless": ("-l", "--lossless"), "config": ("-c", "--config"), "inline": ("-i", "--inline-config"), "rules": ("-r", "--rules")}
COMMANDS = ["convert png", "convert jpeg", "convert tiff", "convert bmp", "convert webp", "convert svg", "merge png", "merge jpeg", "format", "lint"]
CONFIGS = ['{"macro_split_mode": "none"}', '{}', '{"float_decimal_places": 2}', '{"remove_g54": "remove"}', '{"block_aperture_body_indent": 2}', '{"line_end": "\\r\\n"}']


def arg(o, v, form, lst=()):
    return {"o": o, "v": v, "form": form, "list": list(lst)}


def files_for(r):
    """Source files of a directory: name -> text."""
    out = {}
    exts = [".gbr", ".gtl", ".GTO", ".gts", ".txt", ".gbp"]
    fns = [None, "Copper,L1,Top", "Legend,Top", "NonPlated,1,2,NPTH", "Profile,NP", "Paste,Bot"]
    for k in range(r.randint(1, 3)):
        f = rastcheck.gen_file(r, unit="MM", span=20, opaque=255)
        text = rastcheck.source(f, function=r.choice(fns))
        if r.random() < 0.6:
            text = text.replace("D10*\n", r.choice(["G54D10*\n", "G01*\nG01*\nD10*\n", "G55*\nD10*\n"]))
        if r.random() < 0.15:
            text = text.replace("M02*", "G04 \u00e9\u00df*\nM02*")
        if r.random() < 0.15:
            text = text.replace("M02*", "junk")
        out[f"s{k}{r.choice(exts)}"] = text
    return out


def gen_args(r, cmd, names):
    out = []
    opts = {"convert png": ["output", "type", "style", "fg", "bg", "impl", "dpmm"], "format": ["output", "config", "inline"], "lint": ["rules"],
            "merge png": ["output", "type", "impl", "dpmm"]}
    opts["convert bmp"] = opts["convert png"]
    opts["convert svg"] = opts["convert png"][:-1]
    opts["convert jpeg"] = [*opts["convert png"], "quality"]
    opts["convert webp"] = [*opts["convert png"], "quality", "lossless"]
    opts["convert tiff"] = [*opts["convert png"], "compression"]
    opts["merge jpeg"] = opts["merge png"]
    wrong = r.random() < 0.25  # maybe something wrong on this command line
    w = (lambda: wrong and r.random() < 0.35)
    for o in opts[cmd]:
        for _ in range(r.choice([0, 1, 1, 1, 2]) if o != "rules" else r.randint(0, 2)):
            if o == "output":
                out.append(arg(o, r.choice(["out.x", "deep.png", *names[:1]]) if cmd == "format" or r.random() < 0.5 else "pic.bin", "path"))
            elif o == "type":
                out.append(arg(o, "NOTYPE" if w() else r.choice(TYPES), "name"))
            elif o == "style":
                if r.random() < 0.7:
                    out.append(arg(o, "NOSTYLE" if w() else r.choice([*STYLES, *["CUSTOM"] * 9]), "name"))
            elif o in ("fg", "bg"):
                if r.random() < 0.9:
                    hexa = "".join(r.choice("0123456789ABCDEF") for _ in range(r.choice([6, 8])))
                    out.append(arg(o, r.choice(["red", "12345", "#GG0000"]), "word") if w() else arg(o, hexa, "hex"))
            elif o in ("dpmm", "quality"):
                out.append(arg(o, "many", "word") if w() else arg(o, str(r.choice([8, 10, 20]) if o == "dpmm" else r.choice([1, 50, 95])), "int"))
            elif o == "impl":
                if r.random() < 0.4:
                    out.append(arg(o, r.choice(["cairo", "shapely" if cmd != "convert svg" else "pillow"]) if w() else "shapely" if cmd == "convert svg" else "pillow", "name"))
            elif o == "compression":
                out.append(arg(o, "zip" if w() else r.choice(["lzma", "packbits", "tiff_adobe_deflate", "tiff_lzw"]), "name"))
            elif o == "lossless":
                out.append(arg(o, "", "flag"))
            elif o == "config":
                if r.random() < 0.5:
                    out.append(arg(o, r.choice(CONFIGS), "yaml" if w() else "json"))
            elif o == "inline":
                if not any(a["o"] == "config" for a in out) or w():
                    out.append(arg(o, r.choice(CONFIGS), "text"))
            elif o == "rules":
                out.append(arg(o, "", "list", r.sample(["DEP001", "DEP002", "GRB001"], r.randint(1, 3))))
    if cmd != "lint":
        if cmd.startswith("convert") and not any(a["o"] == "dpmm" for a in out) and cmd != "convert svg" and r.random() < 0.8:
            out.append(arg("dpmm", "12", "int"))
        if cmd.startswith("merge") and not any(a["o"] == "dpmm" for a in out):
            out.append(arg("dpmm", "12", "int"))
    seen = set()
    for a in out:  # rules are not repeated
        a["list"] = [x for x in a["list"] if not (x in seen or seen.add(x))]
    out = [a for a in out if a["o"] != "rules" or a["list"]]
    n = 1 if cmd.startswith("convert") or cmd == "format" else r.randint(1, 3)
    srcs = [r.choice(names) for _ in range(n)]
    if w():
        srcs = r.choice([[], ["missing.gbr"]]) if cmd.startswith("convert") else srcs
        if cmd == "lint":
            srcs = []
    r.shuffle(out)
    for s in srcs:
        out.insert(r.randint(0, len(out)), arg("source", s, "op"))
    if w() and r.random() < 0.3:
        out.append(arg("bogus", "1", "op"))
    return out


def spell(r, cmd, args, work):
    """Words of the command line."""
    words = {"merge png": ["merge-convert", "png"], "merge jpeg": ["merge-convert", "jpeg"]}.get(cmd, cmd.split())
    words = ["gerber", *words]
    for a in args:
        v = a["v"]
        if a["o"] == "source":
            words.append(str(Path(work) / v) if cmd == "lint" else v)
            continue
        if a["o"] == "bogus":
            words += ["--bogus", "1"]
            continue
        short, long = NAMES[a["o"]]
        if a["form"] == "flag":
            words.append(r.choice([short, long]))
            continue
        if a["form"] == "name" and a["o"] != "compression":
            v = r.choice([v, v.lower(), v.title()])
        if a["form"] == "hex":
            v = r.choice(["", "#"]) + r.choice([v, v.lower()])
        if a["form"] == "list":
            v = ",".join(a["list"])
        if a["o"] == "config":
            name = f"conf{len(words)}.{a['form']}"
            (Path(work) / name).write_text(v)
            v = name
        words += [f"{long}={v}"] if r.random() < 0.4 else [r.choice([short, long]), v]
    return words


def digest(data):
    return hashlib.md5(data).hexdigest()[:16]


def snapshot(work):
    return {p.name: (digest(p.read_bytes()), p.stat().st_mtime_ns) for p in Path(work).iterdir() if p.is_file()}


def call(key, files, work):
    """What the call named by the specification gives: ("bytes", data) or ("text", str)."""
    import io

    from pygerber.gerber.api import Color, CompositeView, FileTypeEnum, GerberFile, Style
    parts = key.split("|")
    cmd = parts[0]
    b = io.BytesIO()

    def st(rest):
        if rest[0] == "implied":
            return None
        if rest[0] == "preset":
            return getattr(Style.presets, rest[1])
        return Style(foreground=Color.from_hex(rest[1]), background=Color.from_hex(rest[2]))

    def f(name, t="INFER"):
        return GerberFile.from_file(Path(work) / name, file_type=FileTypeEnum[t])
    if cmd == "convert svg":
        f(parts[1], parts[2]).render_with_shapely(st(parts[3:])).save(b)
    elif cmd in ("convert png", "convert bmp"):
        img = f(parts[1], parts[2]).render_with_pillow(st(parts[4:]), int(parts[3]))
        img.save_png(b) if cmd.endswith("png") else img.save_bmp(b)
    elif cmd == "convert jpeg":
        f(parts[1], parts[2]).render_with_pillow(st(parts[5:]), int(parts[3])).save_jpeg(b, quality=int(parts[4]))
    elif cmd == "convert webp":
        f(parts[1], parts[2]).render_with_pillow(st(parts[6:]), int(parts[3])).save_webp(b, quality=int(parts[4]), lossless=parts[5] == "lossless")
    elif cmd == "convert tiff":
        f(parts[1], parts[2]).render_with_pillow(st(parts[5:]), int(parts[3])).save_tiff(b, compression=parts[4])
    elif cmd in ("merge png", "merge jpeg"):
        img = CompositeView([f(x, parts[1]) for x in parts[3:-1]]).render_with_pillow(int(parts[2]))
        img.save_png(b) if cmd.endswith("png") else img.save_jpeg(b)
    elif cmd == "format":
        from pygerber.gerber.formatter import Options
        text = f(parts[1]).formats(Options(**json.loads(parts[2])) if parts[2] else None)
        b.write(text.encode("utf-8"))
    elif cmd == "lint":
        from pygerber.gerber.linter import lint
        from pygerber.gerber.parser import parse
        i = key.index("||", 5) if "||" in key[5:] else 5
        rules, rest = key[5:i], key[i:]
        rules = [x for x in rules.split("|") if x]
        out = ""
        for name in [x for x in rest.split("|") if x]:
            p = Path(work) / name
            for v in lint(parse(p.read_text(encoding="utf-8")), rules):
                out += f"{p.as_posix()}:{v.line}:{v.column} {v.rule_id}: {v.title}\n"
        b.write(out.encode("utf-8"))
    return b.getvalue()


def prepare(work, files):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for n, t in files.items():
        (Path(work) / n).write_text(t, encoding="utf-8")


def invoke(job):
    ident, cmd, args, files, key, output, seed, how = job
    r = random.Random(seed)
    from click.testing import CliRunner
    from pygerber.console.commands import main
    rec = {"id": ident, "cmd": cmd, "args": args, "files": sorted(files), "exit": -1, "changed": [], "printed": "", "ref": "", "failed": False}
    base = os.path.realpath(tempfile.mkdtemp(prefix="cli_"))
    work = base + "/w"
    note = ""
    try:
        prepare(work, files)
        if key != "usage":
            try:
                rec["ref"] = digest(call(key, files, work))
            except Exception as e:  # noqa: BLE001
                rec["failed"] = True
                note = repr(e)[:200]
        prepare(work, files)
        words = spell(r, cmd, args, work)
        stale = output if output and r.random() < 0.4 else None
        if stale and not (Path(work) / stale).exists():
            (Path(work) / stale).write_text("left from an earlier run")
        for p in Path(work).iterdir():
            os.utime(p, ns=(10**18, 10**18))
        before = snapshot(work)
        if how == "process":
            out = subprocess.run([sys.executable, "-m", "pygerber", *words], cwd=work, capture_output=True, check=False,
                                 env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
            code, printed = out.returncode, out.stdout
        else:
            old = os.getcwd()
            os.chdir(work)
            try:
                res = CliRunner().invoke(main, words)
            finally:
                os.chdir(old)
            code, printed = res.exit_code, res.stdout_bytes
        rec["exit"] = code
        rec["printed"] = digest(printed)
        after = snapshot(work)
        for n in sorted(set(before) | set(after)):
            if before.get(n) != after.get(n):
                rec["changed"].append({"name": n, "digest": after.get(n, ("gone",))[0]})
        note = note or " ".join(words)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rec, {"words": words, "note": note, "call": key, "sources": files}


def name_calls(ctx, cases):
    """Ask the specification which call every command line stands for."""
    fd, name = tempfile.mkstemp(prefix="cli_", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for i, (cmd, args, files) in enumerate(cases):
                f.write(json.dumps({"id": i, "cmd": cmd, "args": args, "files": sorted(files)}) + "\n")
        res = tlc.run("CliPlan", {"TraceFile": f'"{name}"'})
    finally:
        os.unlink(name)
    ctx.states += res.distinct
    ctx.transitions += res.generated
    calls = {}
    for v in res.tagged("CALL"):
        m = re.match(r'<<\s*"CALL",\s*(\d+),\s*("(?:[^"\\]|\\.)*"),\s*("(?:[^"\\]|\\.)*")\s*>>', v)
        calls[int(m.group(1))] = (json.loads(m.group(2)), json.loads(m.group(3)))
    if len(calls) != len(cases):
        raise tlc.TlcError(f"{len(cases) - len(calls)} command lines without a call")
    return calls


def run(ctx, n):
    import pygerber.console.commands  # noqa: F401
    import pygerber.gerber.parser.pyparsing.parser  # noqa: F401
    size = ctx.n(4, 5)
    res = ctx.model_check("CliMC", {"Size": str(size)}, invariants=["OrderFree", "LastWins", "ColoursOnlyCustom", "OutputIndependent", "Emit"], label="arguments")
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        behs.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    ctx.note("argument lists the model emitted", len(behs))
    behs = ctx.rng("behs").sample(behs, ctx.n(250, 3000))
    src = {"a": "%FSLAX26Y26*%\n%MOMM*%\n%TF.FileFunction,Legend,Top*%\n%ADD10C,1*%\nD10*\nX0Y0D03*\nM02*\n"}
    cases = [("convert png", b, src) for b in behs]
    for k in range(n):
        r = ctx.rng("cli", k)
        files = files_for(r)
        cmd = r.choice(COMMANDS)
        cases.append((cmd, gen_args(r, cmd, sorted(files)), files))
    calls = name_calls(ctx, cases)
    every = ctx.n(60, 25)
    jobs = [(i, *c, *calls[i], repr((ctx.seed, "spell", i)), "process" if i % every == 7 else "call") for i, c in enumerate(cases)]
    got = pmap(invoke, jobs)
    recs = [x for x, _ in got]
    replay = {x["id"]: y for x, y in got}
    ctx.sample({"words": replay[len(cases) - 1]["words"], "call": calls[len(cases) - 1][0]})
    ctx.note("usage errors", sum(calls[i][0] == "usage" for i in range(len(cases))))
    ctx.note("failing calls", sum(x["failed"] for x in recs))
    ctx.note("run as processes", sum(j[-1] == "process" for j in jobs))
    ctx.validate("CliTrace", recs, label="command lines", replay=replay)
