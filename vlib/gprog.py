"""Abstract Gerber programs (lists of dict commands, lattice units of 1/1000 file
unit) and their rendering to Gerber text.  The same dicts are what the TLA+ machine
GerberImage executes."""
from __future__ import annotations

import math
import random


def num(milli: int) -> str:
    """decimal literal for a value in thousandths"""
    sign = "-" if milli < 0 else ""
    milli = abs(milli)
    s = f"{milli // 1000}.{milli % 1000:03d}".rstrip("0").rstrip(".")
    return sign + (s or "0")


def coord(v: int, dec: int) -> str:
    scale = 10 ** (dec - 3)
    n = v * scale
    return str(n)


def expr_text(e) -> str:
    k = e[0]
    if k == "k":
        return num(e[1])
    if k == "v":
        return f"${e[1]}"
    if k == "neg":
        return "-" + expr_text(e[1])
    if k == "pos":
        return "+" + expr_text(e[1])
    if k == "paren":
        return "(" + expr_text(e[1]) + ")"
    return expr_text(e[1]) + k + expr_text(e[2])


def render(cmds: list[dict], dec: int = 6, integral: int = 3, unit: str = "MM", header: bool = True,
           style: int = 0, rng: random.Random | None = None) -> str:
    """style 1 mixes in harmless spelling variants (comments, short codes, blank lines)"""
    out = []
    if header:
        out.append(f"%FSLAX{integral}{dec}Y{integral}{dec}*%")
        out.append(f"%MO{unit}*%")
        out.append("G75*")
    for c in cmds:
        k = c["c"]
        if k in ("D01", "D02", "D03"):
            s = ""
            for ax in ("x", "y", "i", "j"):
                if c.get(ax):
                    s += ax.upper() + coord(c[ax][0], dec)
            if style and rng.random() < 0.3:
                k = "D" + k[2]
            out.append(s + k + "*")
        elif k == "Dnn":
            if style and rng.random() < 0.2:
                out.append(f"G54D{c['id']}*")
            else:
                out.append(f"D{c['id']}*")
        elif k in ("G01", "G02", "G03", "G36", "G37", "G74", "G75", "M02"):
            out.append(k + "*")
        elif k == "G04":
            out.append(f"G04 {c.get('v', 'comment')}*")
        elif k == "LP":
            out.append(f"%LP{c['v']}*%")
        elif k == "LM":
            out.append(f"%LM{c['v']}*%")
        elif k == "LR":
            out.append(f"%LR{c['v']}*%")
        elif k == "LS":
            out.append(f"%LS{num(c['sn'] * 1000 // c['sd'])}*%")
        elif k == "AM":
            body = []
            for st in c["body"]:
                if st[0] == 0:
                    body.append(f"${st[1]}={expr_text(st[2])}*")
                else:
                    body.append(",".join([str(st[0]), *(expr_text(e) for e in st[1])]) + "*")
            out.append(f"%AM{c['name']}*\n" + "\n".join(body) + "%")
        elif k == "AD":
            p = c["p"]
            t = c["t"]
            if t == "M":
                args = "," + "X".join(num(v) for v in p) if p else ""
                out.append(f"%ADD{c['id']}{c['name']}{args}*%")
            else:
                if t == "P":
                    vals = [num(p[0]), str(p[1])]
                    if p[2] or p[3]:
                        vals.append(str(p[2]))
                    if p[3]:
                        vals.append(num(p[3]))
                else:
                    vals = [num(v) for v in (p if p[-1] else p[:-1])]
                out.append(f"%ADD{c['id']}{t}," + "X".join(vals) + "*%")
        elif k == "ABO":
            out.append(f"%ABD{c['id']}*%")
        elif k == "ABC":
            out.append("%AB*%")
        elif k == "SRO":
            out.append(f"%SRX{c['nx']}Y{c['ny']}I{num(c['dx'])}J{num(c['dy'])}*%")
        elif k == "SRC":
            out.append("%SR*%")
        else:
            raise ValueError(k)
    if style:
        k = 0
        while k < len(out):
            if rng.random() < 0.08:
                out.insert(k, rng.choice(["G04 note*", "G04 D10*", "%TO.N,Net1*%", "%TD*%", ""]))
                k += 1
            k += 1
        sep = rng.choice(["\n", "\r\n", "\n\n"])
        return sep.join(out) + rng.choice(["", sep])
    return "\n".join(out) + "\n"


ROTS = [0, 0, 90, 180, 270, 30, 45, 60, 135, 240, 315, 15]
POLY_N = [3, 4, 5, 6, 8, 10, 12]


class ImgGen:
    """Random well-formed programs; `feat` switches optional features."""

    ALL = frozenset({"macro", "block", "sr", "region", "arc", "clear", "mirror", "rot", "scale", "hole", "poly",
                     "blockclear", "blocktr", "m02"})

    def __init__(self, rng: random.Random, feat=ALL, span: int = 2500, step: int = 10) -> None:
        self.r = rng
        self.feat = set(feat)
        self.span = span
        self.step = step
        self.next_id = 10
        self.apt: dict[int, str] = {}
        self.macros: dict[str, int] = {}
        self.cmds: list[dict] = []
        self.scale = (1, 1)
        self.scale_stack: list = []

    def c(self, **kw) -> None:
        self.cmds.append(kw)

    def pt(self, span=None) -> tuple[int, int]:
        s = span or self.span
        return (self.r.randrange(-s, s + 1, self.step), self.r.randrange(-s, s + 1, self.step))

    def size(self, lo=200, hi=1600) -> int:
        return self.r.randrange(lo, hi, 20)

    # -- apertures
    def add_std(self, kinds="CROP", small=False) -> int:
        t = self.r.choice(kinds)
        hi = 700 if small else 1600
        hole = 0
        if t == "C":
            d = self.size(200, hi)
            if "hole" in self.feat and self.r.random() < 0.3:
                hole = (d // 2) // 20 * 20
            p = [d, hole]
        elif t in "RO":
            w, h = self.size(200, hi), self.size(200, hi)
            if "hole" in self.feat and self.r.random() < 0.3:
                hole = (min(w, h) // 2) // 20 * 20
            p = [w, h, hole]
        else:
            d = self.size(300, hi)
            n = self.r.choice(POLY_N)
            rot = self.r.choice(ROTS) if "rot" in self.feat else 0
            if "hole" in self.feat and self.r.random() < 0.3:
                hole = (d // 4) // 20 * 20
            p = [d, n, rot, hole]
        i = self.next_id
        self.next_id += 1
        self.c(c="AD", id=i, t=t, p=p)
        self.apt[i] = t
        return i

    def k(self, v: int):
        """expression that evaluates to v thousandths"""
        r = self.r.random()
        if r < 0.5:
            return ["k", v] if v >= 0 else ["neg", ["k", -v]]
        if r < 0.65:
            d = self.r.randrange(0, 500, 10)
            return ["paren", ["+", ["k", d] if True else None, self._c(v - d)]]
        if r < 0.8:
            d = self.r.randrange(0, 500, 10)
            return ["-", self._c(v + d), ["k", d]]
        if r < 0.9 and v % 2 == 0:
            return ["x", ["k", 2000], self._c(v // 2)]
        return ["/", self._c(v * 2), ["k", 2000]]

    def _c(self, v):
        return ["k", v] if v >= 0 else ["paren", ["neg", ["k", -v]]]

    def prim(self, code: int, first: bool) -> list:
        r = self.r
        k = self.k
        exp = ["k", 1000] if first or r.random() < 0.7 else ["k", 0]
        rot = ["k", r.choice(ROTS) * 1000] if "rot" in self.feat else ["k", 0]
        off = lambda: k(r.randrange(-600, 601, 20))
        if code == 1:
            a = [exp, k(self.size(200, 1000)), off(), off()]
            if r.random() < 0.6:
                a.append(rot)
            return [1, a]
        if code in (20, 2):
            while True:
                x1, y1, x2, y2 = (r.randrange(-700, 701, 20) for _ in range(4))
                if abs(x1 - x2) + abs(y1 - y2) > 200:
                    break
            return [code, [exp, k(self.size(120, 500)), k(x1), k(y1), k(x2), k(y2), rot]]
        if code == 21:
            return [21, [exp, k(self.size()), k(self.size()), off(), off(), rot]]
        if code == 22:
            return [22, [exp, k(self.size()), k(self.size()), off(), off(), rot]]
        if code == 4:
            n = r.randrange(3, 7)
            cx, cy = r.randrange(-300, 301, 20), r.randrange(-300, 301, 20)
            pts = []
            for q in range(n):
                ang = 2 * math.pi * (q + 0.5 * r.random()) / n
                rad = r.randrange(300, 900)
                pts.append((cx + int(rad * math.cos(ang)) // 10 * 10, cy + int(rad * math.sin(ang)) // 10 * 10))
            pts.append(pts[0])
            a = [exp, ["k", n * 1000]]
            for x, y in pts:
                a += [k(x), k(y)]
            return [4, a + [rot]]
        if code == 5:
            return [5, [exp, ["k", r.choice(POLY_N) * 1000], off(), off(), k(self.size(300, 1400)), rot]]
        if code == 6:
            th, gap = r.randrange(60, 160, 20), r.randrange(80, 160, 20)
            n = r.randrange(1, 4)
            od = 2 * (th + gap) * n + r.randrange(100, 400, 20)
            cl = r.randrange(od, od + 400, 20)
            return [6, [off(), off(), k(od), k(th), k(gap), ["k", n * 1000], k(r.randrange(40, 100, 20)), k(cl), rot]]
        if code == 7:
            od = self.size(800, 1800)
            idm = (od * 6 // 10) // 20 * 20
            gap = r.randrange(100, (idm * 6 // 10), 20)
            return [7, [off(), off(), k(od), k(idm), k(gap), rot]]
        raise ValueError(code)

    def add_macro(self, codes=(1, 2, 4, 5, 6, 7, 20, 21, 22)) -> int:
        name = self.r.choice(["M", "Thermal", "A_1", "Box.x", "$q"]) + str(len(self.macros))
        n = self.r.randrange(1, 4)
        body = []
        for i in range(n):
            body.append(self.prim(self.r.choice(codes), i == 0))
        # turn some constants into parameters / variables
        params: list[int] = []
        nv = [50]

        def subst(e, depth=0):
            if e[0] == "k" and self.r.random() < 0.25 and depth < 4:
                if self.r.random() < 0.6 and len(params) < 8:
                    params.append(e[1])
                    return ["v", len(params)]
                nv[0] += 1
                pre.append([0, nv[0], e])
                return ["v", nv[0]]
            if e[0] in ("k", "v"):
                return e
            return [e[0], *[subst(x, depth + 1) for x in e[1:]]]

        out = []
        for code, args in body:
            pre: list = []
            # the number of vertices of an outline must stay a literal
            fixed = {1, 2, 3, len(args) - 3, len(args) - 2} if code == 4 else ()
            new = [a if idx in fixed else subst(a) for idx, a in enumerate(args)]
            out += pre
            out.append([code, new])
        self.macros[name] = len(params)
        self.c(c="AM", name=name, body=out)
        i = self.next_id
        self.next_id += 1
        self.c(c="AD", id=i, t="M", name=name, p=params)
        self.apt[i] = "M"
        return i

    # -- drawing
    def sel(self, i) -> None:
        self.c(c="Dnn", id=i)

    def opt_xy(self, x, y, cur):
        ax = [] if (x == cur[0] and self.r.random() < 0.7) else [x]
        ay = [] if (y == cur[1] and self.r.random() < 0.7) else [y]
        return ax, ay

    def opt_ij(self, v):
        return [] if v == 0 and self.r.random() < 0.5 else [v]

    def circles(self):
        return [i for i, t in self.apt.items() if t == "C"]

    def arc_to(self, cur, full_ok=True):
        """pick an arc starting at cur; returns (i, j, end)"""
        r = self.r
        # lattice-friendly: rotate radius vector by multiples of 90, or use 3-4-5 points
        k = r.randrange(4, 20) * 20
        vecs = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
        k = k // 5 * 5
        q = k // 5
        a = r.choice(vecs)
        while True:
            b = r.choice(vecs)
            if b != a or (full_ok and r.random() < 0.5):
                break
        ax, ay = a[0] * q, a[1] * q
        cx, cy = cur[0] - ax, cur[1] - ay
        return cx - cur[0], cy - cur[1], (cx + b[0] * q, cy + b[1] * q)

    def draw_some(self, cur):
        r = self.r
        ids = self.circles()
        if not ids:
            ids = [self.add_std("C", small=True)]
        self.sel(r.choice(ids))
        cur = self.move(self.pt())
        for _ in range(r.randrange(1, 4)):
            if "arc" in self.feat and r.random() < 0.5:
                i, j, end = self.arc_to(cur)
                self.c(c=r.choice(["G02", "G03"]))
                ax, ay = self.opt_xy(end[0], end[1], cur)
                self.c(c="D01", x=ax, y=ay, i=self.opt_ij(i), j=self.opt_ij(j))
                cur = end
            else:
                self.c(c="G01")
                p = self.pt()
                while p == cur:
                    p = self.pt()
                ax, ay = self.opt_xy(p[0], p[1], cur)
                self.c(c="D01", x=ax, y=ay, i=[], j=[])
                cur = p
        return cur

    def move(self, p):
        self.c(c="D02", x=[p[0]], y=[p[1]], i=[], j=[])
        return p

    def region(self):
        r = self.r
        self.c(c="G36")
        cur = None
        for _ in range(r.randrange(1, 3)):
            # star-shaped contour around a centre keeps it simple
            c = self.pt(1600)
            n = r.randrange(3, 7)
            pts = []
            for q in range(n):
                ang = 2 * math.pi * (q + 0.4 * r.random()) / n
                rad = r.randrange(400, 1100)
                pts.append((c[0] + int(rad * math.cos(ang)) // 10 * 10, c[1] + int(rad * math.sin(ang)) // 10 * 10))
            if r.random() < 0.5:
                pts.reverse()
            if "arc" in self.feat and r.random() < 0.3:
                # circle or D-shape
                cur = self.move(c)
                i, j, end = self.arc_to(cur)
                self.c(c=r.choice(["G02", "G03"]))
                self.c(c="D01", x=[end[0]], y=[end[1]], i=self.opt_ij(i), j=self.opt_ij(j))
                if end != cur:
                    self.c(c="G01")
                    self.c(c="D01", x=[cur[0]], y=[cur[1]], i=[], j=[])
                continue
            cur = self.move(pts[0])
            self.c(c="G01")
            for p in pts[1:] + [pts[0]]:
                ax, ay = self.opt_xy(p[0], p[1], cur)
                self.c(c="D01", x=ax, y=ay, i=[], j=[])
                cur = p
        self.c(c="G37")
        return cur

    def transform(self):
        r = self.r
        if "mirror" in self.feat and r.random() < 0.4:
            self.c(c="LM", v=r.choice(["N", "X", "Y", "XY"]))
        if "rot" in self.feat and r.random() < 0.4:
            self.c(c="LR", v=r.choice(ROTS))
        if "scale" in self.feat and r.random() < 0.3:
            sn, sd = r.choice([(1, 1), (1, 2), (3, 2), (2, 1), (4, 5)])
            self.c(c="LS", sn=sn, sd=sd)

    def reset_transform(self):
        if "mirror" in self.feat:
            self.c(c="LM", v="N")
        if "rot" in self.feat:
            self.c(c="LR", v=0)
        if "scale" in self.feat:
            self.c(c="LS", sn=1, sd=1)

    def polarity(self):
        if "clear" in self.feat and self.r.random() < 0.4:
            self.c(c="LP", v=self.r.choice("DC"))

    def flash(self, ids):
        i = self.r.choice(ids)
        self.sel(i)
        isb = self.apt[i] == "B"
        if isb and "blockclear" not in self.feat:
            self.c(c="LP", v="D")
        else:
            self.polarity()
        if isb and "blocktr" not in self.feat:
            self.reset_transform()
        else:
            self.transform()
        p = self.pt()
        self.c(c="D03", x=[p[0]], y=[p[1]], i=[], j=[])
        return p

    def body(self, n, ids, small=True):
        for _ in range(n):
            q = self.r.random()
            if "region" in self.feat and q < 0.2:
                self.polarity()
                self.region()
            elif q < 0.45:
                self.polarity()
                if self.r.random() < 0.8:
                    self.reset_transform()
                self.draw_some(None)
            else:
                self.flash(ids)

    def block(self, depth=0):
        i = self.next_id
        self.next_id += 1
        self.c(c="ABO", id=i)
        ids = [k for k, t in self.apt.items() if t != "B" or depth]
        self.reset_transform()
        self.c(c="LP", v="D")
        self.body(self.r.randrange(1, 4), ids)
        self.c(c="ABC")
        self.apt[i] = "B"
        self.c(c="LP", v="D")
        self.reset_transform()
        return i

    def generate(self, n_ops=None):
        r = self.r
        for _ in range(r.randrange(1, 4)):
            if "macro" in self.feat and r.random() < 0.4:
                self.add_macro()
            else:
                self.add_std("CROP" if "poly" in self.feat else "CRO")
        self.c(c="G01")
        ids = list(self.apt)
        if "block" in self.feat and r.random() < 0.5:
            ids.append(self.block())
            if r.random() < 0.4:
                ids.append(self.block(1))
        n = n_ops or r.randrange(2, 7)
        self.body(n, ids)
        if "sr" in self.feat and r.random() < 0.3:
            self.c(c="SRO", nx=r.randrange(1, 4), ny=r.randrange(1, 4), dx=r.choice([0, *range(300, 1500, 100)]), dy=r.choice([0, *range(300, 1500, 100)]))
            self.body(r.randrange(1, 3), ids)
            self.c(c="SRC")
            self.body(r.randrange(0, 2), ids)
        if "m02" in self.feat:
            self.c(c="M02")
            if r.random() < 0.3:
                self.body(1, ids)
        return self.cmds
