"""Histories of the RVMC builder and JSON forms of programs, judged by RvmcTrace."""
from __future__ import annotations

import json

from vlib import gprog, laycheck
from vlib.laycheck import mm
from vlib.pool import pmap


class Gen:
    def __init__(self, r):
        self.r = r
        self.g = laycheck.Gen(r, faults=False)
        self.calls = []
        self.ls = []  # dict(st, child, parent, anchors, org)
        self.main = None

    def shape(self):
        r = self.r
        if r.random() < 0.25:
            x, y = self.g.pos()
            t = r.choice(["plus", "x"])
            p = [x, y, r.randrange(4, 16) * 100, r.randrange(4, 16) * 100, r.choice([100, 200, 300])] if t == "plus" else \
                [x, y, r.randrange(4, 16) * 100, r.choice([100, 200, 300])]
            return {"k": "s", "t": t, "p": p, "segs": [], "neg": r.random() < 0.3}
        while True:
            o = self.g.shape()
            if o["t"] in ("rect", "circ", "obr", "poly", "line"):
                return o

    def new(self, parent, org):
        self.ls.append({"st": "open", "child": None, "parent": parent, "anchors": [], "org": org})
        return len(self.ls) - 1

    def box(self):
        return [] if self.r.random() < 0.75 else [-9000, -9000, 9000, 9000]

    def call(self, op, **kw):
        self.calls.append({"op": op, **kw})

    def leave(self, i, st):
        self.ls[i]["st"] = st
        if self.ls[i]["parent"] is not None:
            self.ls[self.ls[i]["parent"]]["child"] = None

    def avail(self, src, where):
        """Is layer src finished, with everything it was opened in, as seen from layer where?"""
        up = {where}
        while self.ls[where]["parent"] is not None:
            where = self.ls[where]["parent"]
            up.add(where)
        while self.ls[src]["st"] == "done":
            if self.ls[src]["parent"] in up:
                return True
            src = self.ls[src]["parent"]
            if src is None:
                return False
        return False

    def generate(self):
        r = self.r
        self.call("main", box=self.box(), org=[0, 0])
        self.main = self.new(None, (0, 0))
        stack = [self.main]
        for _ in range(r.randint(3, 22)):
            q = r.random()
            done = [i for i, x in enumerate(self.ls) if x["st"] == "done"]
            if not stack:
                break
            if q < 0.2 and len(stack) < 4:
                org = (r.randrange(-12, 13) * 100, r.randrange(-12, 13) * 100) if r.random() < 0.6 else (0, 0)
                where = stack[-1] if r.random() < 0.8 else r.randrange(len(self.ls))
                ok = self.ls[where]["st"] == "open" and self.ls[where]["child"] is None
                if self.ls[where]["st"] == "dropped":
                    continue
                self.call("open", **{"in": where + 1, "id": f"N{len(self.calls)}", "box": self.box(), "org": list(org)})
                if ok:
                    i = self.new(where, org)
                    self.ls[where]["child"] = i
                    stack.append(i)
            elif q < 0.5:
                where = r.choice([stack[-1], stack[-1], r.choice(stack), r.randrange(len(self.ls))])
                if self.ls[where]["st"] == "dropped":
                    continue
                o = self.shape()
                self.call("add", **{"in": where + 1, "o": o})
                if self.ls[where]["st"] == "open":
                    self.ls[where]["anchors"].append(self.g.anchor(o))
            elif q < 0.72 and done:
                where = r.choice([stack[-1], stack[-1], r.choice(stack), r.randrange(len(self.ls))])
                if self.ls[where]["st"] == "dropped":
                    continue
                ok = [i for i in done if self.avail(i, where)]
                if not ok:
                    continue
                src = r.choice(ok)
                at = self.g.pos()
                self.call("paste", **{"in": where + 1, "src": src + 1, "at": list(at), "neg": r.random() < 0.25})
                if self.ls[where]["st"] == "open":
                    s = self.ls[src]
                    self.ls[where]["anchors"] += [(x - s["org"][0] + at[0], y - s["org"][1] + at[1]) for x, y in s["anchors"]][:10]
            elif q < 0.9 and len(stack) > 1:
                i = stack.pop()
                if r.random() < 0.25:
                    self.call("drop", l=i + 1)
                    self.leave(i, "dropped")
                else:
                    self.call("close", l=i + 1)
                    self.leave(i, "done")
            elif q > 0.985 and len(stack) == 1:
                self.call("drop", l=self.main + 1)
                self.leave(self.main, "dropped")
                self.call("main", box=self.box(), org=[0, 0])
                self.main = self.new(None, (0, 0))
                stack = [self.main]
        early = r.random() < 0.08
        if early:
            self.call("get")
        while stack:
            i = stack.pop()
            self.call("close", l=i + 1)
            if i != self.main or not early:
                self.leave(i, "done")
        if not early:
            self.call("get")
            if r.random() < 0.2:
                self.call("main", box=[], org=[0, 0])
            if r.random() < 0.2:
                self.call("add", **{"in": self.main + 1, "o": self.shape()})
        pts = [(r.randrange(-6000, 6000), r.randrange(-6000, 6000)) for _ in range(10)]
        for x, y in self.ls[self.main]["anchors"][:12]:
            pts += [(x + r.randrange(-900, 901), y + r.randrange(-900, 901)) for _ in range(9)]
        return self.calls, pts


class Player:
    def __init__(self):
        from pygerber.builder.rvmc import RvmcBuilder
        self.b = RvmcBuilder()
        self.cm, self.ls = [], []
        self.rvmc = None

    def box(self, b):
        from pygerber.vm.types import Box
        return Box(min_x=mm(b[0]), min_y=mm(b[1]), max_x=mm(b[2]), max_y=mm(b[3])) if b else None

    def enter(self, cm):
        x = cm.__enter__()
        self.cm.append(cm)
        self.ls.append(x)

    def call(self, c):
        op = c["op"]
        org = (mm(c["org"][0]), mm(c["org"][1])) if "org" in c else None
        if org == (0, 0) and c.get("id", "").endswith("1"):
            org = None
        if op == "main":
            self.enter(self.b.layer(box=self.box(c["box"]), origin=org))
        elif op == "open":
            self.enter(self.ls[c["in"] - 1].layer(c["id"], box=self.box(c["box"]), origin=org))
        elif op == "add":
            self.add(self.ls[c["in"] - 1], c["o"])
        elif op == "paste":
            self.ls[c["in"] - 1].paste(self.ls[c["src"] - 1], (mm(c["at"][0]), mm(c["at"][1])), is_negative=c["neg"])
        elif op == "close":
            self.cm[c["l"] - 1].__exit__(None, None, None)
        elif op == "drop":
            e = ZeroDivisionError("dropped")
            try:
                swallowed = self.cm[c["l"] - 1].__exit__(type(e), e, None)
            except ZeroDivisionError:
                return
            if swallowed:
                raise RuntimeError("exception was lost")
        else:
            self.rvmc = self.b.get_rvmc()

    def add(self, layer, o):
        v, kw = [mm(x) for x in o["p"]], {"is_negative": o["neg"]}
        t = o["t"]
        if t == "rect":
            layer.rectangle((v[0], v[1]), v[2], v[3], **kw)
        elif t == "circ":
            layer.circle((v[0], v[1]), v[2], **kw)
        elif t == "obr":
            layer.obround((v[0], v[1]), v[2], v[3], **kw)
        elif t == "poly":
            layer.polygon((v[0], v[1]), v[2], o["p"][3], o["p"][4], **kw)
        elif t == "line":
            layer.line((v[0], v[1]), (v[2], v[3]), v[4], **kw)
        elif t == "plus":
            layer.cross((v[0], v[1]), v[2], v[3], v[4], **kw)
        else:
            layer.x((v[0], v[1]), v[2], v[3], **kw)


def th(v):
    return round(v * 1000)


def vec(d):
    return [th(d["x"]), th(d["y"])]


def read_json(text):
    """Commands of the specification from the JSON form of a program."""
    out = []
    for c in json.loads(text)["commands"]:
        if "source_layer_id" in c:
            out.append({"c": "paste", "id": c["source_layer_id"]["id"], "at": vec(c["center"]), "neg": c.get("is_negative", False)})
        elif "id" in c:
            b = c.get("box")
            out.append({"c": "start", "id": c["id"]["id"], "org": vec(c.get("origin") or {"x": 0, "y": 0}),
                        "box": [th(b[k]) for k in ("min_x", "min_y", "max_x", "max_y")] if b else []})
        elif "commands" in c:
            segs = [["A", vec(s["start"]), vec(s["end"]), vec(s["center"]), s["clockwise"]] if "center" in s else
                    ["L", vec(s["start"]), vec(s["end"])] for s in c["commands"]]
            out.append({"c": "shape", "o": {"k": "s", "t": "segs", "p": [], "segs": segs, "neg": c.get("is_negative", False)}})
        else:
            out.append({"c": "end"})
    return out


def finish(rec, rvmc, pts):
    try:
        text = rvmc.to_json()
        rec["out"] = read_json(text)
        rec["same"] = rvmc.to_json() == text and json.loads(rvmc.to_json(indent=2)) == json.loads(text)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "JSON form: " + repr(e)[:150]}
    from pygerber.vm import render
    rec["verr"], _, rec["samples"] = laycheck.run_vm(render, rvmc, "shapely", False, pts)
    return rec


def base(ident):
    return dict(id=ident, calls=[], out=[], samples=[], margin=16, err="", verr="", same=True)


def observe(job):
    ident, calls, pts = job
    rec = base(ident)
    try:
        p = Player()
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": repr(e)[:150]}
    for c in calls:
        raised = False
        try:
            p.call(c)
        except Exception as e:  # noqa: BLE001
            raised = True
            rec["why"] = repr(e)[:100]
        rec["calls"].append({**c, "raised": raised})
    if p.rvmc is None:
        return {**rec, "err": "no program"}
    return finish(rec, p.rvmc, pts)


def observe_compiled(job):
    ident, cmds, pts, seed = job
    import random
    from vlib import imgcheck, pg
    rec = base(ident)
    text = gprog.render(imgcheck.normalise(cmds), dec=5, integral=3, style=0, rng=random.Random(seed))
    try:
        from pygerber.gerber.compiler import Compiler
        rv = Compiler(include_metadata=True).compile(pg.parse(text)) if ident % 2 else pg.gcompile(pg.parse(text))
    except Exception as e:  # noqa: BLE001
        return text, {**rec, "err": pg.exc_name(e)}
    return text, finish(rec, rv, pts)


def run(ctx, n, compiled):
    jobs = [(i, *Gen(ctx.rng("rvmc", i)).generate()) for i in range(n)]
    recs = pmap(observe, jobs)
    ops = {}
    for r in recs:
        for c in r["calls"]:
            k = c["op"] + (" refused" if c["raised"] else "")
            ops[k] = ops.get(k, 0) + 1
    ctx.note("calls", ops)
    ctx.count("points_compared", sum(len(r["samples"]) for r in recs))
    ctx.sample({"calls": recs[0]["calls"]})
    ctx.validate("RvmcTrace", recs, label="builder histories", chunk=1200)
    from vlib import imgcheck
    from checks import p03, p04
    jobs = []
    for i in range(compiled):
        r = ctx.rng("compiled", i)
        cmds = gprog.ImgGen(r, p03.FEAT | p04.FEAT).generate()
        jobs.append((i, cmds, imgcheck.sample_points(cmds, r, 8, 6, 2), r.randrange(1 << 30)))
    res = pmap(observe_compiled, jobs)
    ctx.validate("RvmcTrace", [r for _, r in res], label="compiled programs", replay={r["id"]: {"gerber": t} for t, r in res}, chunk=600)
