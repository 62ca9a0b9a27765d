"""Histories of operations on objects that stand for files."""
from __future__ import annotations

import hashlib
import json
import os
import random

from vlib import gprog
from vlib.pool import pmap

PARSER = {"default": {}, "prefix": {"strict": False}, "resilient": {"resilient": True}}
COMPILER = {"stop": {}, "go": {"ignore_program_stop": True}}
OPTS = ["plain", "split", "nosplit", "decimals", "indent"]


def md5(*parts):
    m = hashlib.md5()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode("utf-8"))
        m.update(b"\0")
    return m.hexdigest()[:12]


def maps(name):
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP, Color, FileTypeEnum, Style
    if name == "alpha":
        return DEFAULT_ALPHA_COLOR_MAP
    if name == "plain":
        return DEFAULT_COLOR_MAP
    k = {"a": 10, "b": 90}[name]
    return {t: Style(foreground=Color.from_rgba(k + i, 5 * i, 200), background=Color.from_rgba(0, k, 0, 0)) for i, t in enumerate(FileTypeEnum)}


def style(name):
    from pygerber.gerber.api import Color, Style
    return {"s1": Style(foreground=Color.from_rgba(1, 2, 3), background=Color.from_rgba(250, 0, 0, 0)),
            "s2": Style(foreground=Color.from_rgba(200, 2, 3, 128), background=Color.from_rgba(0, 0, 0))}[name]


def options(name):
    from pygerber.gerber.formatter import Options
    from pygerber.gerber.formatter.enums import MacroSplitMode
    return {"plain": lambda: None, "split": lambda: Options(macro_split_mode=MacroSplitMode.SplitOnParameters, macro_param_indent=2),
            "nosplit": lambda: Options(macro_split_mode=MacroSplitMode.NoSplit), "decimals": lambda: Options(float_decimal_places=2),
            "indent": lambda: Options(block_aperture_body_indent=2, step_and_repeat_body_indent=3)}[name]()


class File:
    """One object; `do` performs an event and returns the digest of what came back."""

    def __init__(self, text, req):
        from pygerber.gerber.api import FileTypeEnum, GerberFile
        self.text = text
        self.g = GerberFile.from_str(text, file_type=FileTypeEnum[req])
        self.po = "default"
        self.ast = None
        self.rvmc = {}

    def do(self, op, v, w, last):
        try:
            return self._do(op, v, w, last)
        except Exception as e:  # noqa: BLE001
            return "error " + type(e).__name__

    def tree(self):
        from pygerber.gerber.parser import parse
        if self.ast is None or self.ast[0] != self.po:
            self.ast = (self.po, parse(self.text, **PARSER[self.po]))
            self.rvmc = {}
        return self.ast[1]

    def program(self, co):
        from pygerber.gerber.compiler import compile as gcompile
        t = self.tree()
        if co not in self.rvmc:
            self.rvmc[co] = gcompile(t, **COMPILER[co])
        return self.rvmc[co]

    def _do(self, op, v, w, last):
        import io
        g = self.g
        if op == "parser":
            g.set_parser_options(**PARSER[v])
            self.po = v
            return ""
        if op == "compiler":
            g.set_compiler_options(**COMPILER[v])
            return ""
        if op == "map":
            g.set_color_map(maps(v))
            return ""
        if op == "pillow":
            img = g.render_with_pillow(**({"style": style(v)} if v else {}), dpmm=int(w))
            last[:] = [img.get_image()]
            return picture(img.get_image(), str(img.get_image_space()))
        if op == "shapely":
            img = g.render_with_shapely(**({"style": style(v)} if v else {}))
            b = io.BytesIO()
            img.save(b)
            return md5(b.getvalue(), img.get_image_space())
        if op == "format":
            if len(self.text) % 2:
                b = io.StringIO()
                g.format(b, options(v))
                return md5(b.getvalue())
            return md5(g.formats(options(v)))
        if op == "info":
            return md5(str(g), g.sha256, g.source_code)
        # on the shared tree
        if op == "tree":
            return md5(self.tree().model_dump_json(serialize_as_any=True))
        if op == "state":
            from pygerber.gerber.ast import get_final_state
            return md5(get_final_state(self.tree()).model_dump_json(serialize_as_any=True))
        if op == "lint":
            from pygerber.gerber.linter.linter import Linter
            from pygerber.gerber.linter.rules import RULE_REGISTRY
            return md5([str(x) for x in Linter([RULE_REGISTRY[k]() for k in sorted(RULE_REGISTRY)]).lint(self.tree())])
        if op == "write":
            from pygerber.gerber.formatter import formats
            return md5(formats(self.tree(), options(v)))
        if op == "program":
            return md5(self.program(v).to_json())
        if op == "draw":
            from pygerber.vm import render
            if w == "shapely":
                return md5(render(self.program(v), backend="shapely").shape.wkb_hex)
            res = render(self.program(v), backend="pillow", dpmm=int(w))
            return picture(res.get_image(style("s1")), res.main_box)
        raise AssertionError(op)


def picture(img, space):
    return md5(img.mode, img.size, img.tobytes(), space)


def composite(files, w, last):
    from pygerber.gerber.api import CompositeView
    try:
        res = CompositeView([f.g for f in files]).render_with_pillow(dpmm=int(w))
        last[:] = [res.get_image(), *[s.get_image() for s in res.get_sub_images()]]
        return picture(res.get_image(), [str(s.get_image_space()) for s in res.get_sub_images()])
    except Exception as e:  # noqa: BLE001
        return "error " + type(e).__name__


def apart(fn):
    """Result of `fn` computed in a child process: this process never runs the code under test."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = json.dumps(fn())
        except BaseException as e:  # noqa: BLE001
            out = json.dumps({"died": repr(e)[:200]})
        with os.fdopen(wr, "w") as f:
            f.write(out)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        out = f.read()
    os.waitpid(pid, 0)
    return json.loads(out) if out else {"died": "no answer"}


def settle(docs, o, settings):
    f = File(docs[o["doc"]], o["req"])
    for op in ("parser", "compiler", "map"):
        if settings[op] != {"parser": "default", "compiler": "stop", "map": "alpha"}[op]:
            f.do(op, settings[op], "", [])
    return f


def reference(job):
    docs, objs, ev, settings = job

    def fn():
        fs = [settle(docs, o, s) for o, s in zip(objs, settings)]
        return composite(fs, ev["w"], []) if ev["op"] == "composite" else fs[0].do(ev["op"], ev["v"], ev["w"], [])
    return apart(fn)


def history(job):
    docs, objs, events = job

    def fn():
        fs = [File(docs[o["doc"]], o["req"]) for o in objs]
        last, out = [], []
        for e in events:
            if e["op"] == "scribble":
                for img in last:
                    img.paste(7 if img.mode in ("L", "1") else (7,) * len(img.getbands()), (0, 0, img.width, img.height))
                out.append("")
            elif e["op"] == "composite":
                out.append(composite([fs[i - 1] for i in e["os"]], e["w"], last))
            else:
                for i in e["os"]:
                    d = fs[i - 1].do(e["op"], e["v"], e["w"], last)
                out.append(d)
        return out
    return apart(fn)


def style_key(o, s, v):
    return f"style|{v}|" if v else f"map|{s['map']}|{o['req']}|"


def key(o, s, e):
    """Key under which the reference is filed (the specification computes its own)."""
    op, d = e["op"], o["doc"]
    if op == "pillow":
        return f"pillow|{d}|{s['parser']}|{s['compiler']}|{e['w']}|" + style_key(o, s, e["v"])
    if op == "shapely":
        return f"shapely|{d}|{s['parser']}|{s['compiler']}|" + style_key(o, s, e["v"])
    if op in ("format", "write"):
        return f"format|{d}|{s['parser']}|{e['v']}|"
    if op == "info":
        return f"info|{d}|"
    if op == "program":
        return f"program|{d}|{s['parser']}|{e['v']}|"
    if op == "draw":
        return f"draw|{d}|{s['parser']}|{e['v']}|{e['w']}|"
    return f"{op}|{d}|{s['parser']}|"


def plan(docs, objs, events):
    """References needed for a history: key -> job."""
    now = [{"parser": "default", "compiler": "stop", "map": "alpha"} for _ in objs]
    need = {}
    for e in events:
        if e["op"] in ("parser", "compiler", "map"):
            for i in e["os"]:
                now[i - 1] = {**now[i - 1], e["op"]: e["v"]}
        elif e["op"] == "composite":
            k = "".join(key(objs[i - 1], now[i - 1], {**e, "op": "pillow", "v": ""}) + "&" for i in e["os"])
            need[k] = (docs, [objs[i - 1] for i in e["os"]], e, [now[i - 1] for i in e["os"]])
        elif e["op"] != "scribble":
            i = e["os"][0] - 1
            need[key(objs[i], now[i], e)] = (docs, [objs[i]], e, [now[i]])
    return need


def gen_doc(r):
    while True:
        g = gprog.ImgGen(r, span=1500)
        g.generate()
        text = gprog.render(g.cmds, unit=r.choice(["MM", "MM", "IN"]) if r.random() < 0.2 else "MM")
        if text.count("(") <= 1 and len(text) < 1200:  # nested expressions take long to read
            break
    lines = text.split("\n")
    lines = [x for x in lines if x.strip()]
    if r.random() < 0.5:  # something after the end of the program
        extra = [x for x in lines if x.endswith("D03*") or x.endswith("D01*")][-2:]
        lines = [x for x in lines if x != "M02*"] + ["M02*"] + extra
    if r.random() < 0.45:
        lines.insert(r.randint(3, len(lines)), r.choice(["junk", "%XX*%", "G99*"]))
    if r.random() < 0.6:
        f = r.choice(["Copper,L1,Top", "Soldermask,Top", "Profile,NP", "Legend,Bot", "Paste,Top"])
        lines.insert(r.choice([0, len(lines), len(lines) - 1]), f"%TF.FileFunction,{f}*%")
    if r.random() < 0.4:
        lines.insert(r.randint(2, len(lines)), r.choice(["%TA.AperFunction,Conductor*%", "%TO.N,GND*%", "G54D10*", "G01*", "%TD*%"]))
    return "\n".join(lines) + "\n"


REQ = ["INFER", "INFER", "INFER", "INFER_FROM_ATTRIBUTES", "COPPER", "MASK"]


def gen_history(r, docs):
    names = sorted(docs)
    objs = [{"doc": r.choice(names), "req": r.choice(REQ)} for _ in range(r.randint(1, 3))]
    events = []
    for _ in range(r.randint(3, 9)):
        i = [r.randint(1, len(objs))]
        q = r.random()
        if q < 0.14:
            e = ("parser", r.choice(list(PARSER)), "")
        elif q < 0.2:
            e = ("compiler", r.choice(list(COMPILER)), "")
        elif q < 0.28:
            e = ("map", r.choice(["alpha", "plain", "a", "b"]), "")
        elif q < 0.42:
            e = ("pillow", r.choice(["", "", "", "s1", "s2"]), r.choice(["4", "4", "7"]))
        elif q < 0.52:
            e = ("shapely", r.choice(["", "", "s1"]), "")
        elif q < 0.6:
            e = ("format", r.choice(OPTS), "")
        elif q < 0.63:
            e = ("info", "", "")
        elif q < 0.68:
            e = ("scribble", "", "")
        elif q < 0.74:
            e = ("composite", "", "4")
            i = [r.randint(1, len(objs)) for _ in range(r.randint(1, 3))]
        elif q < 0.78:
            e = ("tree", "", "")
        elif q < 0.81:
            e = ("state", "", "")
        elif q < 0.83:
            e = ("lint", "", "")
        elif q < 0.87:
            e = ("write", r.choice(OPTS), "")
        elif q < 0.91:
            e = ("program", r.choice(list(COMPILER)), "")
        else:
            e = ("draw", r.choice(list(COMPILER)), r.choice(["5", "shapely"]))
        events.append({"op": e[0], "os": i, "v": e[1], "w": e[2], "d": ""})
    return objs, events


MODEL_DOC = """%FSLAX36Y36*%
%MOMM*%
%ADD10C,1*%
D10*
X0Y0D03*
%XX*%
%TF.FileFunction,Soldermask,Top*%
X1000000Y0D03*
M02*
X2000000Y0D03*
"""


def run(ctx, n):
    import pygerber.gerber.api  # noqa: F401  (loaded once, before workers are forked)
    import pygerber.gerber.compiler  # noqa: F401
    import pygerber.gerber.linter.rules  # noqa: F401
    import pygerber.gerber.parser.pyparsing.parser  # noqa: F401
    import shapely  # noqa: F401
    res = ctx.model_check("ReuseMC", {"Depth": "4"}, invariants=["CachesFresh", "ResultsFresh", "Emit"], label="caches")
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        behs.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    cases = []
    sets = {"parser", "compiler", "map"}
    # histories in which settings change between two results
    behs = [b for b in sorted(behs, key=json.dumps) if any(b[i]["op"] not in sets and b[j]["op"] in sets for i in range(4) for j in range(i + 1, 4))]
    ctx.note("histories the model emitted", len(behs))
    if not ctx.thorough:
        behs = ctx.rng("behs").sample(behs, 120)
    for b in behs:
        cases.append(({"d": MODEL_DOC}, [{"doc": "d", "req": "INFER"}], [{"op": e["op"], "os": [1], "v": e["v"], "w": e["w"], "d": ""} for e in b]))
    ctx.note("histories of the model", len(cases))
    pool = {f"k{k}": gen_doc(ctx.rng("doc", k)) for k in range(n // 8)}
    for k in range(n):
        r = ctx.rng("hist", k)
        docs = {d: pool[d] for d in r.sample(sorted(pool), r.randint(1, 2))}
        cases.append((docs, *gen_history(r, docs)))
    need = {}
    plans = []
    for docs, objs, events in cases:
        p = plan(docs, objs, events)
        plans.append(sorted(p))
        need.update(p)
    order = sorted(need)
    ref = dict(zip(order, pmap(reference, [need[k] for k in order], chunksize=8)))
    ctx.note("references", len(ref))
    ctx.note("references that are errors", sum(str(v).startswith("error") for v in ref.values()))
    got = pmap(history, cases, chunksize=4)
    recs, replay = [], {}
    for i, ((docs, objs, events), out, p) in enumerate(zip(cases, got, plans)):
        err = ""
        if isinstance(out, dict):
            err, out = f"history died: {out['died']}", [""] * len(events)
        for k in p:
            if isinstance(ref[k], dict):
                err = err or f"reference died: {ref[k]['died']}"
        recs.append({"id": i, "objects": objs, "events": [{**e, "d": d} for e, d in zip(events, out)], "ref": [{"k": k, "d": str(ref[k])} for k in p], "err": err})
        replay[i] = {"documents": docs}
    ctx.sample({**recs[-1], **replay[len(recs) - 1]})
    ctx.note("events", sum(len(r["events"]) for r in recs))
    ctx.validate("ReuseTrace", recs, label="histories", replay=replay)
