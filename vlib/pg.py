"""Observation of the real code (public API only)."""
from __future__ import annotations

import math

import shapely

from pygerber.gerber.compiler import compile as gcompile
from pygerber.gerber.parser import parse
from pygerber.vm import render as vm_render


def exc_name(e: BaseException) -> str:
    return f"{type(e).__name__}: {e}"[:200]


def paint_shapely(rvmc, pts, k=1.0):
    res = vm_render(rvmc, backend="shapely")
    shp = res.shape
    xs = [x * k / 1000 for x, _ in pts]
    ys = [y * k / 1000 for _, y in pts]
    return [int(v) for v in shapely.contains_xy(shp, xs, ys)], res


def paint_pillow(rvmc, pts, dpmm=40, k=1.0):
    res = vm_render(rvmc, backend="pillow", dpmm=dpmm)
    img = res.get_image_no_style()
    w, h = img.size
    px = img.load()
    box = res.main_box
    out = []
    for x, y in pts:
        cx = math.floor((x * k / 1000 - box.min_x) * dpmm)
        cy = math.floor((y * k / 1000 - box.min_y) * dpmm)
        if 0 <= cx < w and 0 <= cy < h:
            out.append(1 if px[cx, h - 1 - cy] else 0)
        else:
            out.append(0)
    return out, res


def parse_with(parse, text, **kw):
    """Call parse; pyparsing's own memoization is switched on for sources with
    nested parentheses, which are otherwise parsed in exponential time."""
    import pyparsing as pp
    depth = top = 0
    for ch in text:
        depth = depth + 1 if ch == "(" else max(0, depth - 1) if ch == ")" else depth
        top = max(top, depth)
    if top < 2:
        pp.ParserElement.disable_memoization()
        return parse(text, **kw)
    pp.ParserElement.enable_packrat(None, force=True)
    try:
        return parse(text, **kw)
    finally:
        pp.ParserElement.disable_memoization()


def parse_source(text, **kw):
    """pygerber's parse."""
    from pygerber.gerber.parser import parse
    return parse_with(parse, text, **kw)
