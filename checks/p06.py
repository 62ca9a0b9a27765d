"""Packed coordinate codec."""
import itertools
from decimal import Decimal

from vlib.pool import pmap


def digits_of(value: float, i: int, d: int, extra: int = 0):
    q = Decimal(repr(float(value))) * (Decimal(10) ** (d + extra))
    n = int(q.to_integral_value())
    if q != n:
        return [1, [8] * (i + d + 1)]  # not on the lattice: cannot match
    s = f"{abs(n):0{i + d + extra}d}"
    return [-1 if n < 0 else 1, [int(c) for c in s]]


def observe(job):
    from vlib import pg
    ident, route, fmt, items = job
    obs = []
    z, i, d = fmt["z"], fmt["int"], fmt["dec"]
    from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat, StateTrackingVisitor
    from pygerber.gerber.ast.nodes.enums import Zeros
    mk = dict(zeros=Zeros(fmt["raw"]))
    # the other axis uses a different format: axes must not be mixed up
    oi, od = (i % 6) + 1, (d % 6) + 1
    if route.endswith("y"):
        mk.update(x_integral=oi, x_decimal=od, y_integral=i, y_decimal=d)
    else:
        mk.update(x_integral=i, x_decimal=d, y_integral=oi, y_decimal=od)
    texts = []
    for it in items:
        err, packed, value, extra = "", [1, []], [1, []], 0
        if it[0] == "unpack":
            s = it[1]
            sign = -1 if s[:1] == "-" else 1
            packed = [sign, [int(c) for c in s.lstrip("+-")]]
            try:
                if route.startswith("api"):
                    f = CoordinateFormat(**mk)
                    val = (f.unpack_y if route.endswith("y") else f.unpack_x)(s)
                else:
                    a = route[-1]
                    letter = {"x": "X", "y": "Y", "i": "I", "j": "J"}[a]
                    fx = (mk["x_integral"], mk["x_decimal"]) if a in "xy" else None
                    if a in "xi":
                        fs = f"X{i}{d}Y{oi}{od}"
                    else:
                        fs = f"X{oi}{od}Y{i}{d}"
                    text = f"%FS{fmt['raw']}A{fs}*%\n{letter}{s}D01*\n"
                    texts.append(text)
                    v = StateTrackingVisitor()
                    pg.parse(text).visit(v)
                    val = {"x": lambda: v.state.current_x, "y": lambda: v.state.current_y, "i": lambda: v.coordinate_i,
                           "j": lambda: v.coordinate_j}[a]()
                value = digits_of(val, i, d)
            except Exception as e:  # noqa: BLE001
                err = pg.exc_name(e)
        else:
            _, sign, ds, extra = it
            num = int("".join(map(str, ds)) or "0")
            fl = float(Decimal(sign * num) / (Decimal(10) ** (d + extra)))
            value = [sign, ds]
            try:
                f = CoordinateFormat(**mk)
                s = (f.pack_y if route.endswith("y") else f.pack_x)(fl)
                packed = [-1 if s[:1] == "-" else 1, [int(c) for c in s.lstrip("+-")]]
            except Exception as e:  # noqa: BLE001
                err = pg.exc_name(e)
        obs.append(dict(kind=it[0], fmt={"z": "T" if z == "T" else "L", "int": i, "dec": d}, packed=packed, value=value, extra=extra, err=err))
    return dict(id=ident, obs=obs), texts[:3]


def check(ctx):
    ctx.model_check("CodecMC", {"MaxInt": str(ctx.n(3, 4)), "MaxDec": str(ctx.n(3, 4))},
                    invariants=["RoundTrip", "Inverse", "Minimal", "SkipZero"], label="CodecMC")
    jobs = []
    n = 0

    def add(route, fmt, items):
        nonlocal n
        jobs.append((n, route, fmt, items))
        n += 1

    # exhaustive: every digit string over a small digit set for every small format
    for raw, i, d in itertools.product(["L", "T", ""], range(1, 3), range(0, 3)):
        fmt = {"z": "T" if raw == "T" else "L", "raw": raw, "int": i, "dec": d}
        items = []
        for ln in range(0, i + d + 2):
            for q in itertools.product("059", repeat=ln):
                for s in ("", "-", "+"):
                    if s == "+" and ln % 2:
                        continue
                    items.append(("unpack", s + "".join(q)))
        for ax in "xy":
            for k in range(0, len(items), 200):
                add("api" + ax, fmt, items[k:k + 200])
        pk = []
        for q in itertools.product(range(10), repeat=i + d):
            if (i + d) < 4 or sum(q) % 7 == 0:
                for sg in (1, -1):
                    pk.append(("pack", sg, list(q), 0))
        for ax in "xy":
            for k in range(0, len(pk), 200):
                add("api" + ax, fmt, pk[k:k + 200])
    # random: all formats, through the API and through whole files
    for c in range(ctx.n(500, 5000)):
        r = ctx.rng("r", c)
        raw = r.choice(["L", "T", "", "L"])
        i, d = r.randrange(1, 7), r.randrange(0, 8)
        fmt = {"z": "T" if raw == "T" else "L", "raw": raw, "int": i, "dec": d}
        items = []
        for _ in range(12):
            ln = r.choice([1, i + d, i + d, r.randrange(1, i + d + 1), r.randrange(1, i + d + 3)])
            s = "".join(r.choice("0123456789" if r.random() < 0.8 else "00009") for _ in range(ln))
            items.append(("unpack", r.choice(["", "", "-", "+"]) + s))
        add("api" + r.choice("xy"), fmt, items)
        add("file" + r.choice("xyij"), fmt, items)
        pk = []
        for _ in range(12):
            extra = r.choice([0, 0, 0, 2])
            ln = i + d + extra + (1 if r.random() < 0.1 else 0)
            ds = [r.choice([0, 9, r.randrange(10)]) for _ in range(ln)]
            if extra:
                # stay clear of ties, binary floating point cannot represent them
                ds[-2] = r.choice([0, 1, 2, 3, 6, 7, 8, 9])
            if ln - extra > i + d and ds[0] == 0:
                ds[0] = 1
            if ln > 15:
                continue
            pk.append(("pack", r.choice([1, -1]), ds, extra))
        if pk:
            add("api" + r.choice("xy"), fmt, pk)
    res = pmap(observe, jobs)
    recs = [r for r, _ in res]
    ctx.count("coordinates", sum(len(r["obs"]) for r in recs))
    ctx.sample(recs[-1]["obs"][0])
    ctx.validate("CodecTrace", recs, label="codec", replay={r["id"]: {"files": t} for r, t in res})
