"""Drives the real Gerber builder with generated calls and reads its code back."""
from __future__ import annotations

from vlib import gsyn
from vlib.gsyn import NONE, N, S, cmd
from vlib.pool import pmap

U = 1000000


def num(n, d):
    """(field, python number) of n * 10**-d."""
    return N(n, d), (n if d == 0 else n / 10 ** d)


class Gen:
    def __init__(self, r):
        self.r = r
        self.calls = []
        self.pads = self.draws = 0
        self.last = (0, 0)
        self.custom = 0

    def size(self):
        r = self.r
        return r.choice([(1, 0), (2, 0), (15, 1), (5, 1), (25, 2), (r.randint(1, 5000), 3), (100001, 6), (1, 1), (10, 1)])

    def point(self):
        r = self.r
        q = r.random()
        if q < 0.25:
            return self.last
        if q < 0.7:
            return r.randint(-8, 8) * 250000, r.randint(-8, 8) * 250000
        return r.randint(-400 * U, 400 * U), r.randint(-400 * U, 400 * U)

    def ref(self):
        if self.draws and self.r.random() < 0.35:
            return {"r": self.r.randint(max(1, self.draws - 3), self.draws), "x": 0, "y": 0}
        x, y = self.point()
        return {"r": 0, "x": x, "y": y}

    def add(self, op, **kw):
        self.calls.append({"op": op, "raised": False, **kw})

    def angle(self):
        return self.r.choice([(0, 0), (0, 0), (0, 0), (90, 0), (30, 0), (455, 1), (-15, 0), (180, 0), (3600, 1)])

    def hole(self):
        return None if self.r.random() < 0.6 else self.r.choice([(1, 1), (2, 1), (25, 2)])

    def pad(self):
        r = self.r
        k = r.choice(["ADC", "ADR", "ADO", "ADP", "ADM"])
        h = self.hole()
        hf = num(*h)[0] if h else NONE
        args, prims = None, []
        if k == "ADC":
            a = self.size()
            c, args = cmd(k, NONE, num(*a)[0], hf), [a, h]
        elif k in ("ADR", "ADO"):
            a, b = self.size(), self.size()
            c, args = cmd(k, NONE, num(*a)[0], num(*b)[0], hf), [a, b, h]
        elif k == "ADP":
            a, v, rot = self.size(), r.randint(3, 12), self.angle()
            c, args = cmd(k, NONE, num(*a)[0], N(v), num(*rot)[0], hf), [a, v, rot, h]
        else:
            c, args = cmd(k, NONE, NONE), []
            for _ in range(r.randint(1, 3)):
                p, arg = self.prim()
                prims.append(p)
                args.append(arg)
        self.pads += 1
        self.custom += k == "ADM"
        self.add("shape", cmd=c, prims=prims, args=args)

    def prim(self):
        r = self.r

        def co():
            return r.choice([(0, 0), (r.randint(-3000, 3000), 3), (5, 1), (-1, 0)])
        kind = r.choice(["circle", "vector_line", "center_line", "outline", "polygon", "thermal"])
        cut = kind != "thermal" and r.random() < 0.4
        a, b, rot = self.size(), self.size(), self.angle()
        p, q = (co(), co()), (co(), co())
        ex = [N(0 if cut else 1)]

        def ns(*vs):
            return [num(*v)[0] for v in vs]
        if kind == "circle":
            code, fs = "P1", [*ex, *ns(a, *p, rot)]
            arg = [a, p, rot]
        elif kind == "vector_line":
            code, fs = "P20", [*ex, *ns(a, *p, *q, rot)]
            arg = [a, p, q, rot]
        elif kind == "center_line":
            code, fs = "P21", [*ex, *ns(a, b, *p, rot)]
            arg = [a, b, p, rot]
        elif kind == "outline":
            pts = [(co(), co()) for _ in range(r.randint(3, 5))]
            flat = [v for pt in [pts[-1], *pts] for v in pt]
            code, fs = "P4", [*ex, N(len(pts)), *ns(*flat, rot)]
            arg = [pts, rot]
        elif kind == "polygon":
            v = r.randint(3, 9)
            code, fs = "P5", [*ex, N(v), *ns(*p, a, rot)]
            arg = [v, p, a, rot]
        else:
            code, fs = "P7", ns(*p, (3, 0), (2, 0), (2, 1), rot)
            arg = [p, (3, 0), (2, 0), (2, 1), rot]
        return cmd(code, *[gsyn.E(tok(f)) for f in fs]), [kind, cut, arg]

    def attr(self):
        r = self.r
        pad = r.randint(1, self.pads)
        q = r.random()
        if q < 0.3:
            v = r.choice(["ViaPad", "SMDPad", "Conductor", "ComponentPad", "WasherPad"])
            self.add("attr", pad=pad, name=".AperFunction", f=[S(v)], arg=v)
        elif q < 0.5:
            a, b = self.size(), self.size()
            self.add("attr", pad=pad, name=".DrillTolerance", f=[num(*a)[0], num(*b)[0]], arg=[a, b])
        else:
            name = r.choice(["Name", "Other", "_x1"])
            vals = [r.choice(["a", "B c", "12", "x.y"]) for _ in range(r.randint(0, 3))]
            self.add("attr", pad=pad, name=name, f=[S(v) for v in vals], arg=vals)

    def flash(self):
        r = self.r
        mx, my = r.random() < 0.3, r.random() < 0.3
        rot = self.angle()
        sc = r.choice([(1, 0), (1, 0), (2, 0), (5, 1), (15, 1), (10, 1)])
        at = self.ref()
        self.draws += 1
        self.add("flash", pad=r.randint(1, self.pads), pol=r.choice("DDC"), at=at, rot=num(*rot)[0],
                 mir=("X" if mx else "") + ("Y" if my else "") or "N", sc=num(*sc)[0], arg=[rot, mx, my, sc])

    def locs(self):
        """Known locations of draws (for valid arcs)."""
        out = []
        for c in self.calls:
            if c["op"] == "flash":
                p = self.res(c["at"], out, 1)
                out.append((p, p))
            elif c["op"] == "track":
                out.append((self.res(c["b"], out, 1), self.res(c["e"], out, 0)))
        return out

    @staticmethod
    def res(ref, locs, which):
        return (ref["x"], ref["y"]) if ref["r"] == 0 else locs[ref["r"] - 1][which]

    def track(self):
        r = self.r
        w = self.size()
        m = r.choice(["G01", "G01", "G02", "G03"])
        b = self.ref()
        locs = self.locs()
        if m == "G01":
            e, c = self.ref(), [0, 0]
        else:
            p = self.res(b, locs, 1)
            e, c = self.arc_end(p)
            e = {"r": 0, "x": e[0], "y": e[1]}
        self.last = self.res(e, locs, 0)
        self.draws += 1
        self.add("track", w=num(*w)[0], m=m, b=b, e=e, c=list(c), arg=w)

    def arc_end(self, p):
        r = self.r
        while True:
            dx, dy = r.randint(-6, 6) * 125000, r.randint(-6, 6) * 125000
            if dx or dy:
                break
        c = (p[0] + dx, p[1] + dy)
        vx, vy = -dx, -dy
        for _ in range(r.randint(1, 4)):
            vx, vy = -vy, vx
        return (c[0] + vx, c[1] + vy), c

    def region(self, n=None):
        r = self.r
        b = self.point()
        segs, p = [], b
        for _ in range(n if n is not None else r.randint(3, 6)):
            m = r.choice(["G01", "G01", "G02", "G03"])
            if m == "G01":
                e = self.point()
                while e == p:
                    e = (r.randint(-8, 8) * 250000, r.randint(-8, 8) * 250000)
                c = (0, 0)
            else:
                e, c = self.arc_end(p)
            segs.append({"m": m, "e": list(e), "c": list(c)})
            p = e
        if len(segs) >= 3 and segs[-1]["m"] == "G01" and r.random() < 0.3 and segs[-2]["e"] != list(b):
            segs[-1]["e"] = list(b)
        self.last = b
        return b, segs

    def refused(self):
        r = self.r
        how = r.choice(["far flash", "far track", "far arc", "far region", "creator", "short region", "outline", "finished", "twice"])
        if how == "far region":
            b, segs = self.region()
            segs[r.randrange(1, len(segs))]["e"] = [12345 * U, 0]
            self.add("refused", how=how, b=list(b), segs=segs)
        elif how == "short region":
            b, segs = self.region(r.randint(0, 2))
            self.add("refused", how=how, b=list(b), segs=segs)
        else:
            if how in ("finished", "twice") and not self.custom:
                how = "creator"
            rot = self.angle()
            self.add("refused", how=how, pad=r.randint(1, self.pads), neg=r.random() < 0.5, rot=rot, mx=r.random() < 0.5, w=self.size(),
                     xy=list(self.point()), which=r.randrange(4), c=r.randrange(1000))

    def generate(self):
        calls = self.generate_()
        for c in calls:  # creators opened and filled before anything else happens
            c["early"] = c["op"] in ("region", "shape") and self.r.random() < 0.3
        return calls

    def generate_(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            self.pad()
        for _ in range(r.randint(2, 14)):
            q = r.random()
            if q < 0.1:
                self.pad()
            elif q < 0.2:
                self.attr()
            elif q < 0.45:
                self.flash()
            elif q < 0.75:
                self.track()
            elif q < 0.87:
                b, segs = self.region()
                self.add("region", b=list(b), segs=segs)
            else:
                self.refused()
        return self.calls


def tok(f):
    n, d = f["n"], f["d"]
    return [["n", n, 10 ** d]] if n >= 0 else [["o", 2, 0], ["n", -n, 10 ** d]]


def val(v):
    return None if v is None else num(*v)[1]


def pt(p):
    return val(p[0]), val(p[1])


def loc(p):
    return p[0] / U, p[1] / U


class Player:
    def __init__(self, peek=False):
        from pygerber.builder.gerber import GerberX3Builder
        self.b = GerberX3Builder()
        self.pads, self.draws, self.customs = [], [], []
        self.peek = peek
        self.early = {}

    def ref(self, r):
        return loc((r["x"], r["y"])) if r["r"] == 0 else self.draws[r["r"] - 1]

    def open_early(self, calls):
        """Fill the creators marked so in turns, before the calls are made."""
        todo = []
        for i, c in enumerate(calls):
            if not c["early"]:
                continue
            if c["op"] == "region":
                rc = self.b.new_region(loc(c["b"]))
                todo += [(k, i, lambda rc=rc, s=s: self.segment(rc, s)) for k, s in enumerate(c["segs"])]
            elif c["cmd"]["k"] == "ADM":
                rc = self.b.new_pad().custom()
                todo += [(k, i, lambda rc=rc, x=x: self.prim(rc, x)) for k, x in enumerate(c["args"])]
            else:
                continue
            self.early[id(c)] = rc
        for _, _, fn in sorted(todo, key=lambda x: x[:2]):
            fn()

    def region(self, c):
        rc = self.early.get(id(c))
        if rc is None:
            rc = self.b.new_region(loc(c["b"]))
            for s in c["segs"]:
                self.segment(rc, s)
        rc.create()

    def segment(self, rc, s):
        if s["m"] == "G01":
            rc.add_line(loc(s["e"]))
        elif s["m"] == "G02":
            rc.add_clockwise_arc(loc(s["e"]), center=loc(s["c"]))
        else:
            rc.add_counterclockwise_arc(loc(s["e"]), center=loc(s["c"]))

    def prim(self, cp, p):
        kind, cut, a = p
        fn = getattr(cp, ("cut_" if cut else "add_") + kind)
        if kind == "circle":
            fn(val(a[0]), pt(a[1]), val(a[2]))
        elif kind == "vector_line":
            fn(val(a[0]), pt(a[1]), pt(a[2]), val(a[3]))
        elif kind == "center_line":
            fn(val(a[0]), val(a[1]), pt(a[2]), val(a[3]))
        elif kind == "outline":
            fn([pt(x) for x in a[0]], val(a[1]))
        elif kind == "polygon":
            fn(a[0], pt(a[1]), val(a[2]), val(a[3]))
        else:
            fn(pt(a[0]), val(a[1]), val(a[2]), val(a[3]), val(a[4]))

    def call(self, c):
        b, op = self.b, c["op"]
        if op == "shape":
            a, np = c["args"], b.new_pad()
            k = c["cmd"]["k"]
            if k == "ADC":
                p = np.circle(val(a[0]), val(a[1]))
            elif k == "ADR":
                p = np.rectangle(val(a[0]), val(a[1]), val(a[2]))
            elif k == "ADO":
                p = np.rounded_rectangle(val(a[0]), val(a[1]), val(a[2]))
            elif k == "ADP":
                p = np.regular_polygon(val(a[0]), a[1], val(a[2]), val(a[3]))
            else:
                cp = self.early.get(id(c))
                if cp is None:
                    cp = np.custom()
                    for x in a:
                        self.prim(cp, x)
                p = cp.create()
                self.customs.append(cp)
            self.pads.append(p)
        elif op == "attr":
            p = self.pads[c["pad"] - 1]
            if c["name"] == ".AperFunction":
                p.set_aperture_function(c["arg"])
            elif c["name"] == ".DrillTolerance":
                p.set_drill_tolerance(val(c["arg"][0]), val(c["arg"][1]))
            else:
                p.set_custom_attribute(c["name"], *c["arg"])
        elif op == "flash":
            rot, mx, my, sc = c["arg"]
            fn = b.add_pad if c["pol"] == "D" else b.add_cutout_pad
            self.draws.append(fn(self.pads[c["pad"] - 1], self.at(c["at"]), rotation=val(rot), mirror_x=mx, mirror_y=my, scale=val(sc)))
        elif op == "track":
            w, be, en = val(c["arg"]), self.ref(c["b"]), self.ref(c["e"])
            if c["m"] == "G01":
                d = b.add_line_trace(w, be, en)
            else:
                fn = b.add_clockwise_arc_trace if c["m"] == "G02" else b.add_counter_clockwise_arc_trace
                d = fn(w, be, en, loc(c["c"]))
            self.draws.append(d)
        elif op == "region":
            self.region(c)
        else:
            self.refuse(c)
        if self.peek:
            b.get_code().dumps()

    def at(self, r):
        """A pad can be placed on a trace or at a location."""
        d = self.ref(r)
        return d.location if hasattr(d, "location") else d

    def refuse(self, c):
        b, how = self.b, c["how"]
        if how in ("far region", "short region"):
            self.region(c)
            return
        pad = self.pads[c["pad"] - 1]
        near = loc(c["xy"])
        far = [(12345.0, 0.0), (0.0, -54321.5), (-20000.0, 5.0), (1.0, 123456.0)][c["which"]]
        w = val(c["w"])
        if how == "far flash":
            (b.add_cutout_pad if c["neg"] else b.add_pad)(pad, far, rotation=val(c["rot"]), mirror_x=c["mx"])
        elif how == "far track":
            b.add_line_trace(w, far if c["neg"] else near, near if c["neg"] else far)
        elif how == "far arc":
            fn = b.add_clockwise_arc_trace if c["neg"] else b.add_counter_clockwise_arc_trace
            fn(w, near, near, far) if c["mx"] else fn(w, near, far, near)
        elif how == "creator":
            fn = b.add_cutout_pad if c["neg"] else b.add_pad
            fn(b.new_pad() if c["mx"] else b.new_pad().custom(), near, rotation=val(c["rot"]))
        elif how == "outline":
            cp = b.new_pad().custom()
            (cp.add_outline if c["neg"] else cp.cut_outline)([(0.0, 0.0), (1.0, 0.0)])
        elif how == "finished":
            self.customs[c["c"] % len(self.customs)].add_circle(5.0, (0.0, 0.0))
        else:
            self.customs[c["c"] % len(self.customs)].create()


def coords(c, decimals):
    out = []
    for i in range(4):
        f = c["f"][i] if c["k"] in ("D01", "D02", "D03") and i < len(c["f"]) else NONE
        out.append([0, 0] if f["t"] == "-" else [1, int(f["s"]) * 10 ** (6 - decimals[i % 2])])
    return out


def observe(calls):
    rec = {"calls": [], "out": [], "raw": True, "repeat": True, "partial": True, "compiles": True, "err": ""}
    text = ""
    try:
        p = Player()
        p.open_early(calls)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "builder raised " + repr(e)[:150]}, text
    for c in calls:
        orig, c = c, dict(c)
        try:
            p.call(orig)
        except (Exception, AssertionError) as e:  # noqa: BLE001
            c["raised"] = True
            c["why"] = repr(e)[:120]
        keep = {k: c[k] for k in c if k not in ("arg", "args", "how", "early", "neg", "rot_", "xy", "which", "mx")}
        if c["op"] == "refused":
            keep = {"op": "refused", "raised": c["raised"], "why": c.get("why", "")}
        rec["calls"].append(keep)
        if c["raised"] and c["op"] != "refused":
            return rec, text  # the specification rejects this already
    try:
        code = p.b.get_code()
        text = code.dumps()
        rec["repeat"] = text == p.b.get_code().dumps() and text == code.dumps()
        pairs, _ = gsyn.read(text)
        cmds = [c for _, c in pairs]
        dec = [6, 6]
        for c in cmds:
            if c["k"] == "FS":
                if c["f"][0]["s"] == "T" or c["f"][1]["s"] != "A":
                    return {**rec, "err": "unexpected coordinate format"}, text
                dec = [c["f"][3]["n"], c["f"][5]["n"]]
            c.pop("pw", None)
            c["c"] = coords(c, dec)
        rec["out"] = cmds
        from pygerber.gerber.compiler import compile as gcompile
        from vlib.pg import parse_source
        back = parse_source(text)
        want = [gsyn.node_cmd(n) for n in gsyn.flatten(code.raw.nodes)]
        got = [gsyn.node_cmd(n) for n in gsyn.flatten(back.nodes)]
        rec["raw"] = same(want, got)
        p2, other = Player(peek=True), Player()  # another builder used in turns must not matter
        p2.open_early(calls)
        for c in calls:
            for q in (p2, other, other):
                try:
                    q.call(c)
                except (Exception, AssertionError):  # noqa: BLE001
                    continue
        rec["partial"] = p2.b.get_code().dumps() == text
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "getting the code failed: " + repr(e)[:150]}, text
    try:
        gcompile(back)
        gcompile(code.raw)
    except Exception:  # noqa: BLE001
        rec["compiles"] = False
    return rec, text


def strip(c):
    return {"k": c["k"], "j": c["j"], "f": [{**f, "w": 0} for f in c["f"] if f["t"] != "-"]}


def same(a, b):
    return [strip(x) for x in a] == [strip(x) for x in b]


def run(ctx, n):
    jobs = [Gen(ctx.rng("build", i)).generate() for i in range(n)]
    recs, replay = [], {}
    for i, (rec, text) in enumerate(pmap(observe, jobs)):
        rec["id"] = i
        recs.append(rec)
        replay[i] = {"calls": jobs[i], "code": text}
    ops = {}
    for j in jobs:
        for c in j:
            ops[c["op"]] = ops.get(c["op"], 0) + 1
    ctx.note("builder_calls", ops)
    ctx.sample({"calls": jobs[0], "code": replay[0]["code"]})
    ctx.validate("BuilderTrace", recs, label="builder histories", replay=replay, chunk=1500)
