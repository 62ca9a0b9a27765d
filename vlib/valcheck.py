"""Programs over the value types."""
from __future__ import annotations

import json
import math
import random
import re

from vlib.pool import pmap

ORDER = ("lt", "le", "gt", "ge")


def seen(x):
    """Kind, components in hundredths, whether they say it all."""
    from lsprotocol.types import Position as Lspt
    from pygerber.common.position import Position
    from pygerber.gerber.ast.node_finder import OneBasedPosition
    from pygerber.vm.types.box import Box
    from pygerber.vm.types.color import Color
    from pygerber.vm.types.matrix import Matrix3x3
    from pygerber.vm.types.vector import Vector
    if isinstance(x, bool):
        return "t", [int(x)], True
    if isinstance(x, OneBasedPosition):
        return "1", [x.line, x.column], True
    if isinstance(x, Position):
        return "p", [x.line, x.column], True
    if isinstance(x, Lspt):
        return "0", [x.line, x.character], True
    if isinstance(x, Color):
        return "c", [x.red, x.green, x.blue, x.alpha], True
    if isinstance(x, Box):
        if (x.min_x, x.min_y, x.max_x, x.max_y) == (math.inf, math.inf, -math.inf, -math.inf):
            return "e", [], True
        k, vals = "b", [x.min_x, x.min_y, x.max_x, x.max_y]
    elif isinstance(x, Vector):
        k, vals = "v", [x.x, x.y]
    elif isinstance(x, Matrix3x3):
        k, vals = "m", [v for row in x.mtx for v in row]
    elif isinstance(x, tuple) and len(x) == 3:
        k, vals = "r", list(x)
    elif isinstance(x, (int, float)):
        k, vals = "s", [x]
    else:
        return type(x).__name__, [], True
    q, fine = [], True
    for v in vals:
        v = v * 100
        if not abs(v) < 1e9:
            return k, [], False
        q.append(round(v))
        fine = fine and abs(v - round(v)) <= 1e-7 * max(1, abs(v))
    return k, q, fine


def raw(x):
    if isinstance(x, BaseException):
        return type(x).__name__
    from pygerber.vm.types.matrix import Matrix3x3
    return f"{x.__class__.__name__} {x.mtx}" if isinstance(x, Matrix3x3) else f"{x.__class__.__name__} {x}"


def num(n):
    """A float or an int, as the code accepts both."""
    return n // 100 if n % 100 == 0 and n % 3 else n / 100


def perform(op, a, n, form):
    from pygerber.common.position import Position
    from pygerber.gerber.ast.node_finder import ZeroBasedPosition
    from pygerber.vm.types.box import Box
    from pygerber.vm.types.color import Color
    from pygerber.vm.types.matrix import Matrix3x3
    from pygerber.vm.types.vector import Vector
    f = [num(x) for x in n]
    if op == "number":
        return f[0]
    if op == "vector":
        return Vector(x=f[0], y=f[1]) if form % 2 else Vector.from_tuple((f[0], f[1]))
    if op == "plus":
        if form % 2:
            x = a[0]
            x += a[1]
            return x
        return a[0] + a[1]
    if op == "minus":
        if form % 2:
            x = a[0]
            x -= a[1]
            return x
        return a[0] - a[1]
    if op == "times":
        return a[0] * a[1]
    if op == "over":
        return a[0] / a[1]
    if op == "neg":
        return -a[0]
    if op == "length":
        return a[0].length()
    if op == "unit":
        return a[0].normalized()
    if op == "ccw":
        return a[0].angle_between_cc(a[1])
    if op == "cw":
        return a[0].angle_between(a[1])
    if op == "box":
        return Box(min_x=f[0], min_y=f[1], max_x=f[2], max_y=f[3])
    if op == "nobox":
        return Box()
    if op == "around":
        return Box.from_vectors(*a)
    if op == "centred":
        return Box.from_center_width_height(a[0].xy, f[0], f[1])
    if op in ("width", "height", "center"):
        return getattr(a[0], op)
    if op == "translate":
        return Matrix3x3.new_translate(f[0], f[1])
    if op == "scale":
        return Matrix3x3.new_scale(f[0], f[1])
    if op == "reflect":
        return Matrix3x3.new_reflect(x=bool(n[0]), y=bool(n[1]))
    if op == "quarter":
        return Matrix3x3.new_rotate(90 * n[0])
    if op == "turn345":
        return Matrix3x3.new_rotate(n[0] * math.degrees(math.atan2(4, 3)))
    if op == "after":
        return a[0] @ a[1]
    if op == "moved":
        return a[1].transform(a[0]) if form % 2 else a[0] @ a[1]
    if op == "row":
        return a[0][n[0]]
    if op == "sametag":
        return a[0].tag == a[1].tag
    if op == "rgba":
        return Color.from_rgba(*n[:3]) if n[3] == 255 and form % 2 else Color.from_rgba(*n)
    if op == "hex":
        s = "".join(f"{c:02{'x' if form >> i & 1 else 'X'}}" for i, c in enumerate(n))
        s = s[:6] if n[3] == 255 and form & 16 else s
        return Color.from_hex("#" + s if form & 32 else s)
    if op == "badhex":
        return Color.from_hex(["", "#", "12345", "1234567", "123456789", "ggg000", "##123456", "12 456", "#-12345", "0x123456", "123456#"][form % 11])
    if op == "hsv":
        return Color.from_hsv(*n[:3]) if n[3] == 255 and form % 2 else Color.from_hsv(*n)
    if op == "rgba?":
        form %= 4
        if form == 0:
            return Color.from_rgba(*a[0].as_rgba_int())
        if form == 1:
            return Color.from_rgba(*a[0].as_rgb_int(), a[0].alpha)
        if form == 2:
            fl = a[0].as_rgba_float()
            if any(abs(v * 255 - round(v * 255)) > 1e-9 for v in fl):
                return "fraction"
            return Color.from_rgba(*(round(v * 255) for v in fl))
        m = re.fullmatch(r"#([0-9a-fA-F]{8})", a[0].to_hex())
        return Color.from_rgba(*bytes.fromhex(m.group(1))) if m else "hex"
    if op == "position":
        return Position(*n)
    if op == "vscode":
        return Position.from_vscode_position(*n)
    if op == "zerobased":
        return ZeroBasedPosition(line=n[0], column=n[1]).to_one_based()
    if op == "lsp":
        return a[0].to_lspt()
    if op == "offset":
        return a[0].offset(*n)
    if op == "eq":
        return a[0] == a[1]
    if op == "ne":
        return a[0] != a[1]
    if op == "samehash":
        return hash(a[0]) == hash(a[1])
    return {"lt": lambda: a[0] < a[1], "le": lambda: a[0] <= a[1], "gt": lambda: a[0] > a[1], "ge": lambda: a[0] >= a[1]}[op]()


# operations: kinds of their arguments
OPS = [("plus", "vv"), ("plus", "vs"), ("plus", "vb"), ("plus", "bv"), ("plus", "bb"), ("minus", "vv"), ("minus", "vs"), ("minus", "bv"),
       ("times", "vv"), ("times", "vs"), ("over", "vv"), ("over", "vs"), ("neg", "v"), ("length", "v"), ("unit", "v"), ("ccw", "vv"), ("cw", "vv"),
       ("around", "v*"), ("centred", "v"), ("width", "b"), ("height", "b"), ("center", "b"), ("after", "mm"), ("moved", "mv"), ("moved", "mv"), ("row", "m"),
       ("sametag", "mm"), ("rgba?", "c"), ("lsp", "p"), ("offset", "p"), ("eq", "vv"), ("ne", "vv"), ("eq", "bb"), ("ne", "bb"), ("eq", "cc"), ("ne", "cc"), ("eq", "pp"),
       ("ne", "pp"), ("samehash", "vv"), ("samehash", "cc"), ("samehash", "bb")] + [(o, k) for o in ORDER for k in ("vv", "pp", "pp")]


def literal(r):
    """A new value."""
    def c():
        return r.choice([r.randrange(-6, 7) * 100, r.randrange(-40, 41) * 25, r.randrange(-2, 3) * 100, r.randrange(-1000, 1000)])
    k = r.random()
    if k < 0.1:
        return "number", [c()]
    if k < 0.4:
        return "vector", r.choice([lambda: [c(), c()], lambda: [x * y for x, y in zip(r.sample([300, 400], 2), r.choices([1, -1, 2], k=2))], lambda: [0, 0]])()
    if k < 0.5:
        x, y = c(), c()
        return "box", [x, y, x + abs(c()), y + abs(c())]
    if k < 0.54:
        return "nobox", []
    if k < 0.75:
        return r.choice([("translate", [c(), c()]), ("scale", [r.choice([100, 200, 50, -100, 25]), r.choice([100, 200, 50, 300])]),
                         ("reflect", [r.randrange(2), r.randrange(2)]), ("quarter", [r.randrange(-9, 10)]), ("turn345", [r.choice([1, -1])])])
    if k < 0.9:
        ch = lambda: r.choice([0, 255, r.randrange(256), r.randrange(256)])
        return r.choice([("rgba", [ch(), ch(), ch(), ch()]), ("hex", [ch(), ch(), ch(), r.choice([255, ch()])]), ("badhex", []),
                         ("rgba", [r.choice([-1, 256, ch()]), r.choice([ch(), 300]), ch(), r.choice([256, 255, -1])]),
                         ("hsv", [r.choice([0, 60, 120, 180, 240, 300, 360, r.randrange(361), r.randrange(361)]), r.choice([0, 100, r.randrange(101)]), r.choice([100, r.randrange(101)]), ch()])])
    p = [r.randrange(1, 5), r.randrange(1, 5)]
    return r.choice([("position", p), ("vscode", [p[0] - 1, p[1] - 1]), ("zerobased", [p[0] - 1, p[1] - 1])])


def generate(r):
    return [(None, None, None)] * r.randrange(8, 60)


def program(job):
    ident, seed, prog = job
    r = random.Random(seed)
    regs, kinds, steps = [], [], []
    for op, a, n in (prog if prog is not None else generate(r)):
        if op is None:
            op = None
            if regs and r.random() < 0.72:
                for _ in range(20):
                    o, ks = r.choice(OPS)
                    of = {k: [i for i, kk in enumerate(kinds) if (kk if kk != "e" else "b") == k] for k in set(ks) - {"*"}}
                    if all(of.values()):
                        op = o
                        a = [r.choice(of["v"]) for _ in range(r.randrange(1, 5))] if ks == "v*" else [r.choice(of[k][-6:] if r.random() < 0.5 else of[k]) for k in ks]
                        a = [i + 1 for i in a]
                        n = {"centred": [r.randrange(0, 9) * 50, r.randrange(0, 9) * 50], "row": [r.randrange(3)], "offset": [r.randrange(0, 3), r.randrange(0, 3)]}.get(o, [])
                        break
            if op is None:
                a = []
                op, n = literal(r)
        try:
            x = perform(op, [regs[i - 1] for i in a], n, r.randrange(64))
            k, q, fine = seen(x)
            if op in ("cw", "ccw"):
                k, fine = "s", True
                if q == [36000] and x < 360:
                    q = [35999]
        except Exception as e:  # noqa: BLE001
            x, k, q, fine = e, "!", [], True
        regs.append(x)
        kinds.append(k)
        steps.append({"op": op, "a": a, "n": n, "k": k, "q": q, "fine": fine, "raw": raw(x)})
    return {"id": ident, "steps": steps, "after": [raw(x) for x in regs]}


def run(ctx, n):
    res = ctx.model_check("ValuesMC", {"Depth": str(ctx.n(3, 4))}, invariants=["Laws"])
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        behs.append(json.loads(json.loads(s[:s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    total = len(behs)
    if total > ctx.n(3000, 20000):
        behs = ctx.rng("beh").sample(behs, ctx.n(3000, 20000))
    ctx.note("behaviours", {"enumerated": total, "replayed": len(behs)})
    jobs = [(i, repr((ctx.seed, "m", i)), [(x["op"], list(x["a"]), list(x["n"])) for x in h]) for i, h in enumerate(behs)]
    jobs += [(len(behs) + i, repr((ctx.seed, "r", i)), None) for i in range(n)]
    recs = pmap(program, jobs)
    ctx.sample(recs[-1]["steps"][-3:])
    count = {}
    for r in recs:
        for s in r["steps"]:
            count[s["op"]] = count.get(s["op"], 0) + 1
    ctx.note("operations", dict(sorted(count.items())))
    ctx.validate("ValuesTrace", recs, label="programs", replay={r["id"]: {"steps": r["steps"]} for r in recs}, chunk=1500)
