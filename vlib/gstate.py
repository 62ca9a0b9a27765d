"""Driver for the graphics state machine: renders command records to Gerber text, runs the
real StateTrackingVisitor and Compiler, records states, events and object metadata."""
from __future__ import annotations

import json
import random
import re

from vlib.pool import pmap


# ---------------------------------------------------------------- rendering
def dec(v: int, digits: int = 6) -> str:
    s = "-" if v < 0 else ""
    v = abs(v)
    out = f"{s}{v // 10**digits}"
    frac = f"{v % 10**digits:0{digits}d}".rstrip("0")
    return out + ("." + frac if frac else "")


def pack(v: int, fs, axis: str) -> str:
    """v in millionths; fs = the FS command in force."""
    i, d = (fs["xi"], fs["xd"]) if axis == "x" else (fs["yi"], fs["yd"])
    n = abs(v) // 10 ** (6 - d)
    sign = "-" if v < 0 else ""
    if fs["z"] == "T":
        s = f"{n:0{i + d}d}".rstrip("0") or "0"
    else:
        s = str(n)
    return sign + s


STD = {"C": "C,0.5", "R": "R,0.5X0.25", "O": "O,0.5X0.25", "P": "P,0.5X5"}


HOLE = {"C": "X0.1", "R": "X0.1", "O": "X0.1", "P": "X0X0.1"}
MACROS = ["1,1,$1,0,0", "20,1,0.1,0,0,$1,0,0", "21,1,$1,0.5,0,0,0", "4,1,3,0,0,$1,0,0,$1,0,0,0", "5,1,6,0,0,$1,0", "6,0,0,1,0.1,0.1,3,0.05,1.2,0",
          "6,0,0,1,0.3,0.1,5,0,0,0", "7,0,0,1,$1,0.1,0", "7,0,0,1,0,0.1,30", "2,1,0.1,0,0,$1,0,0", "22,1,$1,0.5,0,0,0", "1,1,1,0,0*1,0,$1,0,0"]


class Renderer:
    def __init__(self):
        self.fs = None
        self.out = []
        self.macros = []

    def coord(self, c):
        fs = self.fs or {"z": "L", "xi": 2, "xd": 6, "yi": 2, "yd": 6}
        s = ""
        for a, ax in (("x", "x"), ("y", "y"), ("i", "x"), ("j", "y")):
            if c.get(a):
                s += a.upper() + pack(c[a][0], fs, ax)
        return s

    def attr(self, c):
        kind, name, k = c["c"], c["name"], c["k"]
        f = {".AperFunction": f"Other,k{k}", ".FlashText": f"k{k},C,R,f,1", ".Part": f"Other,k{k}", ".FileFunction": f"Other,k{k}",
             ".P": f"R1,k{k}", ".SameCoordinates": f"k{k}", ".GenerationSoftware": f"v,k{k},1", ".ProjectId": f"n,k{k},1"}.get(name, f"k{k}")
        return f"%{kind}{name},{f}*%"

    def cmd(self, c):
        k = c["c"]
        if k in ("FS",):
            self.fs = c
            return f"%FS{c['z']}{c['m']}X{c['xi']}{c['xd']}Y{c['yi']}{c['yd']}*%"
        if k in ("G90", "G91"):
            if self.fs is None:
                self.fs = {"z": "L", "xi": 2, "xd": 6, "yi": 2, "yd": 6}
            return f"{k}*"
        if k == "MO":
            return f"%MO{c['v']}*%"
        if k in ("LP", "LM", "IP", "IN", "LN", "AS"):
            return f"%{k}{c['v']}*%"
        if k == "LR":
            return f"%LR{dec(c['v'], 3)}*%"
        if k == "LS":
            return f"%LS{dec(c['v'], 3)}*%"
        if k == "IR":
            return f"%IR{c['v']}*%"
        if k == "MI":
            return f"%MIA{c['v'][0]}B{c['v'][1]}*%"
        if k in ("OF", "SF"):
            return f"%{k}A{dec(c['v'][0], 3)}B{dec(c['v'][1], 3)}*%"
        if k == "AD":
            if c["t"] == "M":
                return f"%ADD{c['id']}{c['m']},0.5*%"
            return f"%ADD{c['id']}{STD[c['t']]}{HOLE[c['t']] if c.get('hole') else ''}*%"
        if k == "AM":
            return f"%AM{c['name']}*{MACROS[c.get('v', 0)]}*%"
        if k == "Dnn":
            return f"D{c['id']}*"
        if k in ("D01", "D02", "D03"):
            return f"{self.coord(c)}{k}*"
        if k == "AB":
            body = [self.cmd(b) for b in c["body"]]
            return "\n".join([f"%ABD{c['id']}*%", *body, "%AB*%"])
        if k == "SR":
            body = [self.cmd(b) for b in c["body"]]
            return "\n".join([f"%SRX{c['nx']}Y{c['ny']}I1.5J2.5*%", *body, "%SR*%"])
        if k in ("TF", "TA", "TO"):
            return self.attr(c)
        if k == "TD":
            return f"%TD{c['name']}*%"
        if k == "G04":
            return "G04 text*"
        return f"{k}*"


def render(cmds) -> str:
    r = Renderer()
    return "\n".join(r.cmd(c) for c in cmds) + "\n"


# ---------------------------------------------------------------- observation
BAD = 2_000_000_001


def lattice(v, scale=10**6):
    q = round(v * scale)
    return q if abs(v * scale - q) < 1e-3 and abs(q) < 2 * 10**9 else BAD


def key_of(node):
    m = re.findall(r'"k(\d+)"', node.model_dump_json(serialize_as_any=True))
    return int(m[0]) if m else -1


def pairs(d):
    return sorted([[k, key_of(v)] for k, v in d.items()])


def snapshot(v):
    s = v.state
    f = s.coordinate_format
    kind = {"ADC": "C", "ADR": "R", "ADO": "O", "ADP": "P", "ADmacro": "M"}
    ia = s.image_attributes
    aps = {int(k[1:]): kind.get(type(n).__name__, "?") for k, n in s.apertures.apertures.items()}
    aps.update({int(k[1:]): "B" for k in s.apertures.blocks})
    return {
        "unit": s.unit_mode.value,
        "fs": [] if f is None else [f.zeros.value, f.coordinate_mode.value, f.x_integral, f.x_decimal, f.y_integral, f.y_decimal],
        "plot": {"LINEAR": "L", "ARC": "CW", "CCW_ARC": "CCW"}[s.plot_mode.value],
        "quad": {"SINGLE_QUADRANT": "SQ", "MULTI_QUADRANT": "MQ"}[s.arc_interpolation.value],
        "ap": 0 if s.current_aperture_id is None else int(s.current_aperture_id[1:]),
        "pos": [lattice(s.current_x), lattice(s.current_y)],
        "pol": s.transform.polarity.value, "mir": s.transform.mirroring.value, "rot": lattice(s.transform.rotation, 1000),
        "scale": lattice(s.transform.scaling, 1000), "region": bool(s.is_region),
        "aps": [[k, v] for k, v in sorted(aps.items())],
        "macros": sorted(s.apertures.macros), "tf": pairs(s.attributes.file_attributes), "ta": pairs(s.attributes.aperture_attributes),
        "to": pairs(s.attributes.object_attributes),
        "apattrs": [[int(k[1:]), pairs(a)] for k, a in sorted(s.apertures.per_aperture_attributes.items())],
        "img": {"ip": ia.polarity.value, "ir": lattice(ia.rotation, 1), "mi": [int(ia.a_axis_mirroring), int(ia.b_axis_mirroring)],
                "of": [lattice(ia.a_axis_offset, 1000), lattice(ia.b_axis_offset, 1000)],
                "sf": [lattice(ia.a_axis_scale, 1000), lattice(ia.b_axis_scale, 1000)],
                "iname": ia.image_name or "", "lname": ia.file_name or "", "axis": ia.axis_correspondence.value},
    }


def recorder_class():
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class Recorder(StateTrackingVisitor):
        def __init__(self, **kw):
            self.ev = []
            super().__init__(**kw)

        def _draw(self, where, kind):
            s = self.state
            self.ev.append([where, kind, [lattice(s.current_x), lattice(s.current_y)],
                            [lattice(self.coordinate_x), lattice(self.coordinate_y)],
                            [lattice(self.coordinate_i), lattice(self.coordinate_j)], s.transform.polarity.value])

        def _flash(self, kind, ident):
            self.ev.append(["flash", kind, int(ident[1:]), [lattice(self.coordinate_x), lattice(self.coordinate_y)],
                            self.state.transform.polarity.value])

        def on_start_region(self):
            self.ev.append(["start_region"])
            super().on_start_region()

        def on_flush_region(self):
            self.ev.append(["flush"])
            super().on_flush_region()

        def on_end_region(self):
            self.ev.append(["end_region"])
            super().on_end_region()

    for kind in ("line", "cw_arc_sq", "cw_arc_mq", "ccw_arc_sq", "ccw_arc_mq"):
        short = kind.replace("_arc", "")

        def mk(where, short):
            return lambda self, node: self._draw(where, short)

        setattr(Recorder, f"on_draw_{kind}", mk("draw", short))
        setattr(Recorder, f"on_in_region_draw_{kind}", mk("region_draw", short))
    for kind, letter in (("circle", "C"), ("rectangle", "R"), ("obround", "O"), ("polygon", "P"), ("macro", "M")):
        def mkf(letter):
            return lambda self, node, aperture: self._flash(letter, aperture.aperture_id)

        setattr(Recorder, f"on_flash_{kind}", mkf(letter))
    Recorder.on_flash_block = lambda self, node, aperture: self._flash("B", aperture.open.aperture_id)
    return Recorder


def objects_of(rvmc):
    """Objects of the final layer: [kind, object metadata pairs, aperture metadata pairs]."""
    def meta(m):
        out = []
        for k, v in (m or {}).items():
            q = re.findall(r'"k(\d+)"', v)
            out.append([k, int(q[0]) if q else -1])
        return sorted(out)

    layers, order, cur = {}, [], None
    for c in rvmc.commands:
        n = type(c).__name__
        if n == "StartLayer":
            cur = c.id.id
            layers[cur] = []
            order.append(cur)
        elif n == "EndLayer":
            cur = None
        else:
            layers[cur].append(c)
    def inside(name):
        for q in layers[name]:
            if type(q).__name__ == "PasteLayer":
                yield from inside(q.source_layer_id.id)
            else:
                yield q

    out = []
    for c in layers[order[-1]]:
        if type(c).__name__ == "PasteLayer":
            metas = {json.dumps(meta(q.metadata)) for q in inside(c.source_layer_id.id)}
            m = json.loads(metas.pop()) if len(metas) == 1 else [["<mixed>", len(metas)]]
            out.append(["flash", meta(c.metadata), m])
        else:
            out.append(["shape", meta(c.metadata), []])
    return out, meta(rvmc.metadata)


def fill(cmds):
    for c in cmds:
        if c["c"] in ("D01", "D02", "D03"):
            for a in "xyij":
                c.setdefault(a, [])
        if "body" in c:
            fill(c["body"])
    return cmds


def observe(job):
    ident, cmds, opt = job
    from vlib import pg
    cmds = fill(cmds)
    text = render(cmds)
    rec = dict(id=ident, cmds=cmds, obs=[], finalerr="", finalstate={}, compiled=False, comperr="", objects=[], filemeta=[])
    ignore = bool(opt.get("ignore"))
    if ignore:
        rec["cmds"] = [dict(c, c="NOP") if c["c"] in ("M00", "M02") else c for c in cmds]
    try:
        ast = pg.parse(text)
        nodes = list(ast.nodes)
    except Exception as e:  # noqa: BLE001
        rec["obs"] = [{"err": pg.exc_name(e), "ev": [], "state": {}}] * len(cmds)
        rec["finalerr"] = pg.exc_name(e)
        return text, rec
    cls = recorder_class()
    if len(nodes) != len(cmds):
        rec["obs"] = [{"err": f"{len(nodes)} nodes for {len(cmds)} commands", "ev": [], "state": {}}] * len(cmds)
        return text, rec
    v = cls()
    stopped = False
    for n in nodes:
        v.ev = []
        err = ""
        if not stopped:
            try:
                n.visit(v)
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ == "ProgramStop":
                    stopped = not ignore
                else:
                    err = pg.exc_name(e)
                    stopped = True
        rec["obs"].append({"err": err, "ev": v.ev, "state": snapshot(v)})
    w = cls(ignore_program_stop=ignore)
    try:
        ast.visit(w)
    except Exception as e:  # noqa: BLE001
        rec["finalerr"] = pg.exc_name(e)
    rec["finalstate"] = snapshot(w)
    if opt.get("compile"):
        from pygerber.gerber.compiler import Compiler
        rec["compiled"] = True
        try:
            rv = Compiler(include_metadata=True, ignore_program_stop=ignore).compile(ast)
            rec["objects"], rec["filemeta"] = objects_of(rv)
        except Exception as e:  # noqa: BLE001
            rec["comperr"] = pg.exc_name(e)
    return text, rec


# ---------------------------------------------------------------- generation
TAN = [".AperFunction", ".FlashText", "userA", "userB"]
TFN = [".Part", ".FileFunction", ".SameCoordinates", ".GenerationSoftware", ".ProjectId", "userF", "userA"]
TON = [".N", ".C", ".P", ".CMfr", ".CVal", ".CFtp", "userO", "userA"]


class GStateGen:
    def __init__(self, rng: random.Random, attr: bool):
        self.r = rng
        self.attr = attr
        self.k = 0
        self.nid = 10
        self.ids = []
        self.macros = []
        self.fs = None
        self.region = False
        self.kinds = {}
        self._sel = None
        self.wild = not attr and rng.random() < 0.15  # may run into errors

    def newfs(self):
        r = self.r
        d1, d2 = (r.randrange(2, 7), r.randrange(2, 7)) if r.random() < 0.5 else (4, 4)
        return dict(c="FS", z=r.choice(["L", "L", "T"]), m="A" if self.attr or r.random() < 0.9 else "I", xi=r.randrange(2, 5), xd=d1, yi=r.randrange(2, 5), yd=d2)

    def val(self, axis):
        i, d = (self.fs["xi"], self.fs["xd"]) if axis == "x" else (self.fs["yi"], self.fs["yd"])
        step = 10 ** (6 - d)
        lim = min(10**i, 100) * 10**6 // step
        r = self.r
        v = r.choice([0, 1, -1, r.randrange(-lim + 1, lim), r.randrange(-lim + 1, lim), r.randrange(-9, 10) * 10 ** (d - 1)])
        return v * step

    def op(self, c):
        r = self.r
        out = dict(c=c, x=[], y=[], i=[], j=[])
        if self.fs is None and not self.wild:
            return out
        if self.fs is not None and self.fs["m"] == "I":
            return out  # incremental notation is deprecated and its coordinates are not specified here
        fs = self.fs
        if fs is None:
            self.fs = {"z": "L", "xi": 2, "xd": 6, "yi": 2, "yd": 6}
        for a, ax, p in (("x", "x", 0.7), ("y", "y", 0.7), ("i", "x", 0.4), ("j", "y", 0.4)):
            if a in "ij" and c != "D01":
                continue
            if r.random() < p:
                out[a] = [self.val(ax)]
        self.fs = fs
        return out

    def one(self, depth=0):
        r = self.r
        q = r.random()
        if self.region:
            if q < 0.2:
                self.region = False
                return dict(c="G37")
            if q < 0.4:
                return dict(c=r.choice(["G01", "G02", "G03", "G75"] if self.attr else ["G01", "G02", "G03", "G74", "G75"]))
            if q < 0.55:
                return self.op("D02")
            return self.op("D01")
        if self.attr and q < 0.45:
            return self.attribute()
        q = r.random()
        if q < 0.06:
            self.fs = self.newfs()
            return self.fs
        if q < 0.16:
            return self.ad()
        if q < 0.26 and (self.ids or self.wild):
            return dict(c="Dnn", id=r.choice(self.ids) if not self.wild or (self.ids and r.random() < 0.7) else r.randrange(10, 16))
        if q < 0.38:
            if self.attr:
                return dict(c=r.choice(["G01", "G04"]))
            c = r.choice(["G01", "G02", "G03", "G74", "G75", "G70", "G71", "G90", "G54", "G55", "G04", "M01"])
            if c == "G90":
                self.fs = dict(self.fs or {"z": "L", "xi": 2, "xd": 6, "yi": 2, "yd": 6}, m="A")
            return dict(c=c)
        if q < 0.42:
            return dict(c="MO", v=r.choice(["IN", "MM"]))
        if q < 0.52:
            k = r.choice(["LP", "LM", "LR", "LS"])
            v = {"LP": r.choice("DC"), "LM": r.choice(["N", "X", "Y", "XY"]), "LR": r.choice([0, 90000, 45500, 270000, -30000]),
                 "LS": r.choice([1000, 500, 2000, 1250])}[k]
            return dict(c=k, v=v)
        if q < 0.57 and not self.attr:
            k = r.choice(["IP", "IR", "MI", "OF", "SF", "IN", "LN", "AS", "G91"])
            if k == "G91":
                self.fs = dict(self.fs or {"z": "L", "xi": 2, "xd": 6, "yi": 2, "yd": 6}, m="I")
                return dict(c="G91")
            v = {"IP": r.choice(["POS", "NEG"]), "IR": r.choice([0, 90, 180, 270]), "MI": [r.randrange(2), r.randrange(2)],
                 "OF": [r.randrange(-5000, 5000), r.randrange(0, 5000)], "SF": [r.randrange(1, 3000), r.randrange(1, 3000)],
                 "IN": r.choice(["img1", "img2"]), "LN": r.choice(["lay1", "lay2"]), "AS": r.choice(["AXBY", "AYBX"])}[k]
            return dict(c=k, v=v)
        if q < 0.62 and depth == 0 and self.ids:
            self.region = True
            return dict(c="G36")
        if q < 0.68 and depth < 2:
            return self.nest(depth)
        if q < 0.80:
            return self.op("D02")
        if q < 0.92 or not self.ids:
            # only circles draw lines
            return self.op("D01") if not self.attr or self.kinds.get(self._sel) == "C" else self.op("D02")
        return self.op("D03") if self.wild or self.selected else self.op("D02")

    @property
    def selected(self):
        return self._sel is not None

    def ad(self):
        r = self.r
        t = r.choice("CROPM")
        i = self.nid
        self.nid += r.choice([1, 1, 3])
        if t == "M":
            if not self.macros:
                t = "C"
            else:
                self.ids.append(i)
                return dict(c="AD", id=i, t="M", m=r.choice(self.macros))
        self.ids.append(i)
        if self.attr and r.random() < 0.7:
            t = "C"
        self.kinds[i] = t
        return dict(c="AD", id=i, t=t, hole=int(r.random() < 0.3))

    def attribute(self):
        r = self.r
        q = r.random()
        self.k += 1
        if q < 0.35:
            return dict(c="TA", name=r.choice(TAN), k=self.k)
        if q < 0.7:
            return dict(c="TO", name=r.choice(TON), k=self.k)
        if q < 0.8:
            return dict(c="TF", name=r.choice(TFN), k=self.k)
        return dict(c="TD", name=r.choice(["", "", *TAN, *TON, ".Part", "nosuch"]))

    def nest(self, depth):
        r = self.r
        if r.random() < 0.7 or depth:
            i = self.nid
            self.nid += 1
            body = self.seq(r.randrange(0, 4), depth + 1)
            self.ids.append(i)
            return dict(c="AB", id=i, body=body)
        body = self.seq(r.randrange(0, 4), 1)
        return dict(c="SR", nx=r.randrange(1, 4), ny=r.randrange(1, 3), body=body)

    def seq(self, n, depth):
        out = []
        for _ in range(n):
            c = self.one(depth)
            c.pop("nop", None)
            out.append(c)
            if c["c"] == "Dnn":
                self._sel = c["id"]
        return out

    def generate(self):
        r = self.r
        out = []
        if not self.wild or r.random() < 0.5:
            self.fs = self.newfs()
            out.append(self.fs)
        if r.random() < 0.5:
            self.macros.append("MAC")
            out.append(dict(c="AM", name="MAC", v=r.randrange(len(MACROS))))
        if self.attr or r.random() < 0.6:
            out.append(dict(c="AD", id=self.nid, t="C", hole=0))
            self.ids.append(self.nid)
            self.nid += 1
            out.append(dict(c="Dnn", id=self.ids[0]))
            self.kinds[self.ids[0]] = "C"
            self._sel = self.ids[0]
            if self.attr:
                out.append(dict(c="G75"))
        out += self.seq(r.randrange(6, 22), 0)
        if self.region:
            out.append(dict(c="G37"))
        if r.random() < 0.5:
            out.append(dict(c=r.choice(["M02", "M02", "M00"])))
            if r.random() < 0.4:
                self.region = False
                out += self.seq(2, 0)
                if self.region:
                    out.append(dict(c="G37"))
        return out


def behaviours(ctx, alphabet, depth, limit):
    r = ctx.model_check("GStateMC", {"Alphabet": f'"{alphabet}"', "Depth": str(depth)}, invariants=["TypeOK"],
                        properties=["RegionEvents", "Frozen", "FileAttrs", "PointMoves", "FormatFirst"], label=f"GStateMC/{alphabet}/{depth}")
    behs = []
    for v in r.tagged("BEHAVIOUR"):
        s = v[v.index('"[') :].rstrip()
        behs.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    total = len(behs)
    if total > limit:
        behs = ctx.rng("beh").sample(behs, limit)
    ctx.note(f"behaviours:{alphabet}", {"enumerated": total, "replayed": len(behs)})
    return behs


def run(ctx, focus, programs, opts, label):
    jobs = [(i, p, o) for i, (p, o) in enumerate(zip(programs, opts))]
    res = pmap(observe, jobs)
    recs = [r for _, r in res]
    for t, r in res[:1]:
        ctx.sample({"kind": label, "gerber": t})
    ctx.count("commands", sum(len(r["cmds"]) for r in recs))
    ctx.count("events", sum(len(o["ev"]) for r in recs for o in r["obs"]))
    ctx.count("programs_with_error", sum(any(o["err"] for o in r["obs"]) for r in recs))
    ctx.validate("GStateTrace", recs, constants={"Focus": f'"{focus}"'}, label=label, replay={r["id"]: {"gerber": t} for t, r in res})
