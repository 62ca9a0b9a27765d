"""Pictures of generated files: single raster and vector pictures (P16), composed views (P20)."""
from __future__ import annotations

import io
import math
import os
import random
import re
import tempfile
from pathlib import Path

from vlib.pool import pmap

TU = 10000


def gen_file(r: random.Random, unit=None, span=40, opaque=None):
    """File of rectangles: in millimetres on a grid of 0.05 mm, in inches of 1 mil."""
    unit = unit or r.choice(["MM", "MM", "IN"])
    g = 500 if unit == "MM" else 254            # length of a grid step
    k = span * (1 if unit == "MM" else 2)       # grid steps the file spreads over
    ox, oy = r.randrange(-3 * k, 3 * k), r.randrange(-3 * k, 3 * k)
    rects = []
    for i in range(r.randint(1, 5)):
        w, h = 2 * r.randint(3, k // 2), 2 * r.randint(3, k // 2)
        x, y = ox + r.randrange(0, k), oy + r.randrange(0, k)
        rects.append([(x - w // 2) * g, (y - h // 2) * g, (x + w // 2) * g, (y + h // 2) * g, 0 if i and r.random() < 0.35 else 1])
    return {"unit": unit, "rects": rects, "fg": colour(r, opaque), "bg": colour(r, opaque)}


def colour(r, opaque=None):
    c = [r.randrange(256) for _ in range(3)]
    return c + [opaque if opaque is not None else r.choice([255, 255, 255, 0, 0, r.randrange(256)])]


def source(f, r=None, function=None):
    """Gerber source of a file."""
    mm = f["unit"] == "MM"
    g = 500 if mm else 254
    one = 0.05 if mm else 0.001
    packed = 5000 if mm else 1000   # a step in a X.5 (mm) or X.6 (inch) format
    out = ["%FSLAX35Y35*%" if mm else "%FSLAX36Y36*%", f"%MO{f['unit']}*%"]
    if function:
        out.append(f"%TF.FileFunction,{function}*%")
    dark, sizes = 1, {}
    for x1, y1, x2, y2, d in f["rects"]:
        w, h = (x2 - x1) // g, (y2 - y1) // g
        if (w, h) not in sizes:
            sizes[w, h] = 10 + len(sizes)
            out.append(f"%ADD{sizes[w, h]}R,{w * one:.6f}X{h * one:.6f}*%")
        if d != dark:
            out.append("%LPD*%" if d else "%LPC*%")
            dark = d
        out.append(f"D{sizes[w, h]}*")
        out.append(f"X{(x1 + x2) // (2 * g) * packed}Y{(y1 + y2) // (2 * g) * packed}D03*")
    out.append("M02*")
    return "\n".join(out) + "\n"


def style(f):
    from pygerber.gerber.api import Color, Style
    return Style(foreground=Color.from_rgba(*f["fg"]), background=Color.from_rgba(*f["bg"]))


def space(s, unit):
    k = TU if unit == "MM" else TU * 25.4
    rnd = lambda v, q=TU: round(v * q)  # noqa: E731
    return {"unit": s.units.value, "dpmm": s.dpmm, "box": [rnd(v, k) for v in (s.min_x, s.min_y, s.max_x, s.max_y)],
            "mm": [rnd(v) for v in (s.min_x_mm, s.min_y_mm, s.max_x_mm, s.max_y_mm)],
            "size": [rnd(s.width_mm), rnd(s.height_mm)], "mid": [rnd(s.center_x_mm), rnd(s.center_y_mm)],
            "px": [s.min_x_pixels, s.min_y_pixels, s.max_x_pixels, s.max_y_pixels]}


def sample(img, r, n):
    img = img.convert("RGBA")
    w, h = img.size
    px = img.load()
    pts = [(r.randrange(w), r.randrange(h)) for _ in range(n)] if w and h else []
    return [[x, y, *px[x, y]] for x, y in pts]


FORMATS = {"png": (False, 0, 2), "tiff": (False, 0, 2), "bmp": (True, 0, 2), "jpeg": (True, 60, 12), "webp": (True, 60, 12)}


def store(img, fmt, r, work: Path):
    """Save in a format through one of the ways offered and read back."""
    from PIL import Image
    kw = {}
    exact = FORMATS[fmt]
    if fmt == "webp" and r.random() < 0.5:
        kw, exact = {"lossless": True}, (True, 0, 2)
    if fmt == "jpeg":
        kw = {"quality": 95, "subsampling": 0}
    how = r.choice(["str", "path", "bytes", "file"])
    path = work / f"p{os.getpid()}.{fmt}"
    direct = r.random() < 0.5
    call = (lambda d: getattr(img, f"save_{fmt}")(d, **kw)) if direct else (lambda d: img.save(d, r.choice([fmt, fmt.upper(), fmt.capitalize()]), **kw))
    if how == "bytes":
        b = io.BytesIO()
        call(b)
        b.seek(0)
        out = Image.open(b)
    else:
        if how == "file":
            with path.open("wb") as fp:
                call(fp)
        else:
            call(str(path) if how == "str" else path)
        out = Image.open(io.BytesIO(path.read_bytes()))
        path.unlink()
    assert out.format == {"png": "PNG", "tiff": "TIFF", "bmp": "BMP", "jpeg": "JPEG", "webp": "WEBP"}[fmt], out.format
    out.load()
    return out, exact, f"{fmt}/{how}/{'direct' if direct else 'by name'}"


def single(job):
    ident, seed, work = job
    r = random.Random(seed)
    f = gen_file(r)
    dpmm = r.choice([5, 8, 10, 20, 33, 40])
    while any(max(q[i + 2] for q in f["rects"]) - min(q[i] for q in f["rects"]) < 3 * TU // dpmm for i in (0, 1)):
        dpmm += 10      # pictures of less than a pixel are not judged
    fmt = r.choice(["none", *FORMATS])
    rec = dict(id=ident, kind="single", files=[f], dpmm=dpmm, spaces=[], margin=0, tol=0, rgb=False, err="", w=0, h=0, px=[], how=fmt, source=source(f))
    try:
        from pygerber.gerber.api import GerberFile
        img = GerberFile.from_str(rec["source"]).render_with_pillow(style(f), dpmm)
        rec["spaces"] = [space(img.get_image_space(), f["unit"])]
        if fmt == "none":
            pic, (rec["rgb"], rec["tol"], far) = img.get_image(), (False, 0, 2)
        else:
            pic, (rec["rgb"], rec["tol"], far), rec["how"] = store(img, fmt, r, Path(work))
        rec["margin"] = far * TU // dpmm
        rec["w"], rec["h"] = pic.size
        rec["px"] = sample(pic, r, 60)
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    return rec


NUM = r"[-+0-9.eE]+"


def inside(rings, x, y):
    """Even-odd rule over all rings of a path."""
    c = False
    for ring in rings:
        for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
            if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
                c = not c
    return c


def read_svg(data: bytes):
    """(width, height, view box, matrix, filled paths as rings, colour)"""
    import xml.etree.ElementTree as ET
    root = ET.fromstring(data)
    paths, inks = [], set()

    def walk(e, mat):
        tr = e.get("transform")
        if tr:
            m = [float(v) for v in re.fullmatch(r"matrix\((.*)\)", tr).group(1).split(",")]
            mat = (mat[0] * m[0] + mat[2] * m[1], mat[1] * m[0] + mat[3] * m[1], mat[0] * m[2] + mat[2] * m[3],
                   mat[1] * m[2] + mat[3] * m[3], mat[0] * m[4] + mat[2] * m[5] + mat[4], mat[1] * m[4] + mat[3] * m[5] + mat[5])
        if e.tag.endswith("path"):
            rings = []
            for part in re.split(r"[zZ]", e.get("d")):
                pts = re.findall(rf"({NUM})\s*,\s*({NUM})", part)
                if pts:
                    ring = [(float(a), float(b)) for a, b in pts]
                    rings.append([(mat[0] * x + mat[2] * y + mat[4], mat[1] * x + mat[3] * y + mat[5]) for x, y in ring])
            paths.append(rings)
            inks.add(e.get("fill"))
        for c in e:
            walk(c, mat)

    walk(root, (1, 0, 0, 1, 0, 0))
    vb = root.get("viewBox")
    return (float(root.get("width", 0)), float(root.get("height", 0)), [float(v) for v in vb.split()] if vb else None, paths, inks)


def vector(job):
    ident, seed, work = job
    r = random.Random(seed)
    f = gen_file(r)
    k = TU if f["unit"] == "MM" else TU * 25.4
    rec = dict(id=ident, kind="vector", files=[f], dpmm=0, spaces=[], margin=20, tol=0, rgb=False, err="", w=0, h=0, px=[], view=[0] * 4,
               ink=[], empty=False, how="", source=source(f))
    try:
        from pygerber.gerber.api import GerberFile
        img = GerberFile.from_str(rec["source"]).render_with_shapely(style(f))
        rec["spaces"] = [space(img.get_image_space(), f["unit"])]
        rec["how"] = how = r.choice(["str", "path", "bytes", "file"])
        call = r.choice([img.save, img.save_svg])
        path = Path(work) / f"v{os.getpid()}.svg"
        if how == "bytes":
            b = io.BytesIO()
            call(b)
            data = b.getvalue()
        else:
            if how == "file":
                with path.open("wb") as fp:
                    call(fp)
            else:
                call(str(path) if how == "str" else path)
            data = path.read_bytes()
            path.unlink()
        w, h, vb, paths, inks = read_svg(data)
        rec["empty"] = not paths
        if paths:
            rec["w"], rec["h"] = round(w * k), round(h * k)
            rec["view"] = [round(v * k) for v in vb]
            assert len(inks) == 1, inks
            hexc = inks.pop().lstrip("#")
            rec["ink"] = [int(hexc[i:i + 2], 16) for i in range(0, len(hexc), 2)]
            b = [min(q[0] for q in f["rects"]), min(q[1] for q in f["rects"]), max(q[2] for q in f["rects"]), max(q[3] for q in f["rects"])]
            for _ in range(60):   # points of the file's extents, as distance right and down of the corner
                x, y = r.randrange(b[0], b[2]), r.randrange(b[1], b[3])
                u, v = x - rec["view"][0], rec["view"][1] + rec["view"][3] - y
                if r.random() < 0.3:
                    u, v = r.randrange(0, rec["w"] + 1), r.randrange(0, rec["h"] + 1)
                seen = 0 <= u <= rec["w"] and 0 <= v <= rec["h"]
                X, Y = vb[0] + u / k, vb[1] + v / k
                rec["px"].append([u, v, 1 if seen and any(inside(p, X, Y) for p in paths) else 0])
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    return rec


def composite(job):
    ident, seed, work = job
    r = random.Random(seed)
    units = r.choice(["MM", "IN", None])
    files = [gen_file(r, units, span=30) for _ in range(r.randint(1, 4))]
    for f in files:
        for c in ("fg", "bg"):
            if f[c][3] not in (0, 255):
                f[c][3] = 255
        if r.random() < 0.6:
            f["bg"][3], f["fg"][3] = 0, 255
    dpmm = r.choice([5, 10, 20])
    rec = dict(id=ident, kind="composite", files=files, dpmm=dpmm, spaces=[], margin=3 * TU // dpmm, tol=0, rgb=False, err="", w=0, h=0, px=[],
               how="", source=[source(f) for f in files])
    try:
        from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, CompositeView, FileTypeEnum, GerberFile
        types = r.sample([t for t in FileTypeEnum if not t.name.startswith("INFER")], len(files))
        gfs = [GerberFile.from_str(s, t) for s, t in zip(rec["source"], types)]
        view = CompositeView(gfs if r.random() < 0.5 else iter(gfs))
        assert len(view) == len(gfs) and list(view.files) == gfs
        if r.random() < 0.5:
            assert view.set_color_map({**DEFAULT_ALPHA_COLOR_MAP, **{t: style(f) for f, t in zip(files, types)}}) is view
        else:
            for g, f, t in zip(gfs, files, types):
                g.set_color_map({t: style(f)})
        img = view.render_with_pillow(dpmm)
        rec["spaces"] = [space(s.get_image_space(), f["unit"]) for s, f in zip(img.get_sub_images(), files)]
        assert len(rec["spaces"]) == len(files)
        pic = img.get_image()
        if r.random() < 0.2:
            pic, _, rec["how"] = store(img, "png", r, Path(work))
        rec["w"], rec["h"] = pic.size
        rec["px"] = sample(pic, r, 40)
        ext = lambda f: [min(q[i] for q in f["rects"]) if i < 2 else max(q[i] for q in f["rects"]) for i in range(4)]  # noqa: E731
        left, top = min(ext(f)[0] for f in files), max(ext(f)[3] for f in files)
        px = pic.convert("RGBA").load()
        for f in files:   # points of each file
            b = ext(f)
            for _ in range(25):
                x, y = r.randrange(b[0], b[2]), r.randrange(b[1], b[3])
                i, j = (x - left) * dpmm // TU, (top - y) * dpmm // TU
                if 0 <= i < rec["w"] and 0 <= j < rec["h"]:
                    rec["px"].append([i, j, *px[i, j]])
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    return rec


def model(ctx):
    ctx.model_check("RasterMC", {"Files": "2", "Rects": str(ctx.n(2, 3)), "Dots": str(ctx.n(1, 1))},
                    invariants=["PaintedIsStacked", "SizesOk", "TopRules"], label="pictures")


def run(ctx, fn, n, label):
    with tempfile.TemporaryDirectory(prefix="pics_") as work:
        recs = pmap(fn, [(i, repr((ctx.seed, label, i)), work) for i in range(n)])
    ctx.count("pixels_compared", sum(len(r["px"]) for r in recs))
    ctx.sample({"kind": label, "source": recs[0]["source"], "pixels": recs[0]["px"][:4]})
    for r in recs:
        ctx.count(f"{label}:{r['how'] or 'direct'}")
    ctx.validate("RasterTrace", recs, label=label)
