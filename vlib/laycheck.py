"""Programs of the rendering virtual machine, generated, run by both machines and judged
by LayersTrace."""
from __future__ import annotations

import json
import random

from vlib.pool import pmap

MAIN = "%main%"
MARGIN = {"shapely": 14, "pillow": 95}
DPMM = 40


class Gen:
    """Random programs; `cmds` in the representation of the specification."""

    def __init__(self, r: random.Random, faults=True):
        self.r = r
        self.cmds = []
        self.done = {}      # finished layers: anchors relative to their origin
        self.count = 0
        self.fault = r.choice(["none"] * 3 + ["unknown", "dup", "end", "outside", "parent", "nomain", "self", "emptymain"]) if faults else "none"

    def pos(self):
        return self.r.randrange(-30, 31) * 100, self.r.randrange(-30, 31) * 100

    def shape(self):
        r = self.r
        x, y = self.pos()
        w, h = r.randrange(2, 17) * 100, r.randrange(2, 17) * 100
        t = r.choice(["rect", "circ", "obr", "poly", "line", "arc", "ring", "pts"])
        neg = r.random() < 0.3
        if t in ("rect", "obr"):
            p = [x, y, w, h]
        elif t == "circ":
            p = [x, y, w]
        elif t == "poly":
            p = [x, y, w + 400, r.choice([3, 4, 5, 6, 8, 10, 12]), r.randrange(0, 120) * 3]
        elif t == "line":
            p = [x, y, x + r.choice([-1, 1]) * r.randrange(3, 15) * 100, y + r.randrange(-15, 16) * 100, r.randrange(1, 6) * 100]
        elif t == "arc":
            vx, vy = r.choice([(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, -3), (0, -5), (-5, 0), (4, -3)])
            k = r.randrange(1, 4) * 100
            turns = r.randrange(1, 4)
            ux, uy = vx, vy
            for _ in range(turns):
                ux, uy = -uy, ux
            p = [x + vx * k, y + vy * k, x + ux * k, y + uy * k, x, y, r.choice([100, 200, 400]), r.randrange(2)]
        elif t == "ring":
            p = [x, y, w + 600, r.randrange(1, (w + 400) // 100) * 100]
        else:
            pts = [(x, y), (x + w, y + r.randrange(0, 3) * 100), (x + w - r.randrange(0, 3) * 100, y + h)]
            if r.random() < 0.5:
                pts.append((x - 100, y + h + 200))
            p = [v for q in pts for v in q]
        return {"k": "s", "t": t, "p": p, "segs": [], "neg": neg}

    def anchor(self, o):
        p = o["p"]
        if o["t"] == "line":
            return (p[0] + p[2]) // 2, (p[1] + p[3]) // 2
        return p[0], p[1]

    def layer(self, id_, depth, empty=False):
        r = self.r
        q = r.random()
        box = [] if q < 0.65 else [-6000, -6000, 6000, 6000] if q < 0.85 else \
            [r.randrange(-20, 0) * 100, r.randrange(-20, 0) * 100, r.randrange(1, 20) * 100, r.randrange(1, 20) * 100]
        if empty:
            box = []
        org = [0, 0] if id_ == MAIN or r.random() < 0.4 else [r.randrange(-12, 13) * 100, r.randrange(-12, 13) * 100]
        self.cmds.append({"c": "start", "id": id_, "box": box, "org": org})
        anchors = []
        for _ in range(0 if empty else r.randint(0 if id_ != MAIN else 1, 4)):
            q = r.random()
            if q < 0.3 and depth < 2:
                self.count += 1
                self.layer(f"L{self.count}", depth + 1, empty=r.random() < 0.12)
            if q < 0.55 and self.done:
                src = r.choice(sorted(self.done))
                at = self.pos() if r.random() < 0.7 else (0, 0)
                self.cmds.append({"c": "paste", "id": src, "at": list(at), "neg": r.random() < 0.25})
                anchors += [(x + at[0], y + at[1]) for x, y in self.done[src]]
                continue
            o = self.shape()
            self.cmds.append({"c": "shape", "o": o})
            anchors.append(self.anchor(o))
            if self.fault == "unknown" and r.random() < 0.15:
                self.cmds.append({"c": "paste", "id": "nowhere", "at": [0, 0], "neg": False})
                self.fault = "none"
            if self.fault == "dup" and r.random() < 0.3 and (self.done or depth):
                self.cmds.append({"c": "start", "id": r.choice(sorted(self.done) + [id_]), "box": [], "org": [0, 0]})
                self.fault = "none"
            if self.fault in ("parent", "self") and not box and r.random() < 0.5:
                if self.fault == "self":
                    self.cmds.append({"c": "paste", "id": id_, "at": [100, 0], "neg": False})
                else:
                    self.cmds += [{"c": "start", "id": "child", "box": r.choice([[], [-500, -500, 500, 500]]), "org": [0, 0]},
                                  {"c": "paste", "id": id_, "at": [100, 0], "neg": False}, {"c": "end"}]
                self.fault = "none"
        self.cmds.append({"c": "end"})
        self.done[id_] = [(x - org[0], y - org[1]) for x, y in anchors][:12]
        return anchors

    def generate(self):
        r = self.r
        for _ in range(r.randint(0, 2)):
            self.count += 1
            self.layer(f"L{self.count}", 1, empty=r.random() < 0.15)
        if self.fault == "outside":
            o = r.choice([{"c": "shape", "o": self.shape()}, {"c": "paste", "id": r.choice(sorted(self.done) or ["x"]), "at": [0, 0], "neg": False}])
            self.cmds.append(o)
        if self.fault == "end" and r.random() < 0.5:
            self.cmds.append({"c": "end"})
        anchors = []
        if self.fault != "nomain":
            anchors = self.layer(MAIN, 0, empty=self.fault == "emptymain")
        if self.fault == "end":
            self.cmds.append({"c": "end"})
        if r.random() < 0.1:
            self.layer("after", 1)
        pts = [(r.randrange(-6000, 6000), r.randrange(-6000, 6000)) for _ in range(12)]
        for x, y in anchors[:14]:
            pts += [(x + r.randrange(-900, 901), y + r.randrange(-900, 901)) for _ in range(9)]
        return self.cmds, pts


def mm(v):
    return v / 1000


def shapes(o):
    """Real shapes of a shape of the specification."""
    from pygerber.vm.commands import Shape
    v = [mm(x) for x in o["p"]]
    t, kw = o["t"], {"is_negative": o["neg"]}
    if t == "rect":
        return [Shape.new_rectangle((v[0], v[1]), v[2], v[3], **kw)]
    if t == "circ":
        return [Shape.new_circle((v[0], v[1]), v[2], **kw)]
    if t == "obr":
        return [Shape.new_obround((v[0], v[1]), v[2], v[3], **kw)]
    if t == "poly":
        return [Shape.new_polygon((v[0], v[1]), v[2], o["p"][3], o["p"][4], **kw)]
    if t == "line":
        return [Shape.new_line((v[0], v[1]), (v[2], v[3]), v[4], **kw)]
    if t == "arc":
        fn = Shape.new_cw_arc if o["p"][7] else Shape.new_ccw_arc
        return [fn((v[0], v[1]), (v[2], v[3]), (v[4], v[5]), v[6], **kw)]
    if t == "ring":
        return list(Shape.new_ring((v[0], v[1]), v[2], v[3], **kw))
    if t == "pts":
        return [Shape.new_connected_points(*[(v[i], v[i + 1]) for i in range(0, len(v), 2)], **kw)]
    raise ValueError(t)


def real(cmds):
    from pygerber.vm.commands import EndLayer, PasteLayer, StartLayer
    from pygerber.vm.rvmc import RVMC
    from pygerber.vm.types import Box, LayerID, Vector
    out = []
    for c in cmds:
        if c["c"] == "start":
            b = c["box"]
            box = Box(min_x=mm(b[0]), min_y=mm(b[1]), max_x=mm(b[2]), max_y=mm(b[3])) if b else None
            out.append(StartLayer(id=LayerID(id=c["id"]), box=box, origin=Vector(x=mm(c["org"][0]), y=mm(c["org"][1]))))
        elif c["c"] == "end":
            out.append(EndLayer())
        elif c["c"] == "shape":
            out += shapes(c["o"])
        else:
            out.append(PasteLayer.new(c["id"], (mm(c["at"][0]), mm(c["at"][1])), is_negative=c["neg"]))
    return RVMC(commands=out)


def paint(rvmc, backend, pts, **kw):
    """(exception name, box, samples)"""
    from vlib import pg
    try:
        obs, res = (pg.paint_shapely(rvmc, pts, **kw) if backend == "shapely" else pg.paint_pillow(rvmc, pts, DPMM, **kw))
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, [0, 0, 0, 0], []
    b = res.main_box
    return "", [round(v * 1000) for v in (b.min_x, b.min_y, b.max_x, b.max_y)], [[x, y, o] for (x, y), o in zip(pts, obs)]


def observe(job):
    ident, cmds, pts, backend, fail = job
    rec = dict(id=ident, cmds=cmds, fail=fail, raster=backend == "pillow", margin=MARGIN[backend])
    try:
        rv = real(cmds)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "building commands: " + type(e).__name__, "box": [0] * 4, "samples": []}
    from pygerber.vm import render
    import pygerber.vm.shapely  # noqa: F401
    err, box, samples = run_vm(render, rv, backend, fail, pts)
    return {**rec, "err": err, "box": box, "samples": samples}


def run_vm(render, rv, backend, fail, pts):
    import math
    import shapely
    try:
        kw = {"dpmm": DPMM} if backend == "pillow" else {}
        res = render(rv, backend=backend, fail_on_empty_auto_sized_layer=fail, **kw)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, [0] * 4, []
    b = res.main_box
    box = [round(v * 1000) for v in (b.min_x, b.min_y, b.max_x, b.max_y)]
    if backend == "shapely":
        obs = [int(v) for v in shapely.contains_xy(res.shape, [mm(x) for x, _ in pts], [mm(y) for _, y in pts])]
    else:
        img = res.get_image_no_style()
        w, h = img.size
        px, obs = img.load(), []
        for x, y in pts:
            cx, cy = math.floor((mm(x) - b.min_x) * DPMM), math.floor((mm(y) - b.min_y) * DPMM)
            obs.append(1 if 0 <= cx < w and 0 <= cy < h and px[cx, h - 1 - cy] else 0)
    return "", box, [[x, y, o] for (x, y), o in zip(pts, obs)]


def run(ctx, n):
    jobs, i = [], 0
    for k in range(n):
        r = ctx.rng("layers", k)
        cmds, pts = Gen(r).generate()
        fail = r.random() < 0.2
        for backend in ("shapely", "pillow"):
            jobs.append((i, cmds, pts, backend, fail))
            i += 1
    judge(ctx, jobs, "random programs")


def judge(ctx, jobs, label):
    recs = pmap(observe, jobs)
    errs = {}
    for r in recs:
        errs[r["err"] or "success"] = errs.get(r["err"] or "success", 0) + 1
    ctx.note(f"outcomes:{label}", errs)
    ctx.count("points_compared", sum(len(r["samples"]) for r in recs))
    ctx.sample({"kind": label, "program": recs[0]["cmds"], "observed": recs[0]["samples"][:5]})
    ctx.validate("LayersTrace", recs, label=label, chunk=1200)


def behaviours(ctx, depth, limit):
    inv = ["StackOpen", "OpenOnStack", "BoxHolds", "PasteExact", "EmptyHasNothing", "Emit"]
    r = ctx.model_check("LayersMC", {"Depth": str(depth), "Names": '{"a", "%main%"}'}, invariants=inv, properties=["Frozen"], label="layers")
    behs = []
    for v in r.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        behs.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    total = len(behs)
    if total > limit:
        behs = ctx.rng("beh").sample(behs, limit)
    ctx.note("behaviours", {"enumerated": total, "replayed": len(behs)})
    g = ctx.rng("pts")
    pts = [(x + g.randrange(-60, 60), y + g.randrange(-60, 60)) for x in range(-1500, 3000, 350) for y in range(-1500, 2000, 500)]
    judge(ctx, [(i, b, pts, "shapely" if i % 2 else "pillow", False) for i, b in enumerate(behs)], "behaviours")
