"""Image conformance: programs (random, or behaviours enumerated by TLC from ImageMC) are
run through parse -> compile -> render and the painted image is judged by ImageTrace."""
from __future__ import annotations

import json
import random

from vlib import gprog
from vlib.core import Ctx
from vlib.pool import pmap

MARGIN = {"shapely": 14, "pillow": 90}


def sample_points(cmds, rng: random.Random, wide: int, near_flash: int, near_draw: int):
    pts = [(rng.randrange(-4500, 4501, 10) + 5, rng.randrange(-4500, 4501, 10) + 5) for _ in range(wide)]
    shifts = [(0, 0)]
    for c in cmds:
        if c["c"] == "SRO":
            shifts = [(a * c["dx"], b * c["dy"]) for a in range(c["nx"]) for b in range(c["ny"])]
    anchors = []
    cur = [0, 0]
    in_block = 0
    block_pts: list = []
    flashes = []
    for c in cmds:
        if c["c"] == "ABO":
            in_block += 1
        elif c["c"] == "ABC":
            in_block -= 1
        if c["c"] in ("D01", "D02", "D03"):
            if c.get("x"):
                cur[0] = c["x"][0]
            if c.get("y"):
                cur[1] = c["y"][0]
            (block_pts if in_block else anchors).append((tuple(cur), c["c"]))
            if c["c"] == "D03" and not in_block:
                flashes.append(tuple(cur))
    for (x, y), k in anchors:
        for _ in range(near_flash if k == "D03" else near_draw):
            s = rng.choice(shifts)
            pts.append((x + s[0] + rng.randrange(-900, 901), y + s[1] + rng.randrange(-900, 901)))
    for f in flashes if block_pts else []:
        for (x, y), _ in block_pts:
            for _ in range(max(1, near_draw // 2)):
                s = rng.choice(shifts)
                pts.append((f[0] + x + s[0] + rng.randrange(-700, 701), f[1] + y + s[1] + rng.randrange(-700, 701)))
    lim = 9000
    return [p for p in pts if abs(p[0]) < lim and abs(p[1]) < lim]


def normalise(cmds):
    for c in cmds:
        if c["c"] in ("D01", "D02", "D03"):
            for a in "xyij":
                c.setdefault(a, [])
    return cmds


def observe(job):
    """job: (id, cmds, seed, backend, points spec, options)"""
    ident, cmds, seed, backend, (wide, nf, nd), opt = job
    from vlib import pg  # imported in the worker: a broken import is a rejected trace
    rng = random.Random(seed)
    cmds = normalise(cmds)
    text = gprog.render(cmds, dec=opt.get("dec", 6), integral=opt.get("int", 3), unit=opt.get("unit", "MM"),
                        style=opt.get("style", 0), rng=random.Random(seed + 1))
    pts = sample_points(cmds, rng, wide, nf, nd)
    err = ""
    obs = [0] * len(pts)
    try:
        rv = pg.gcompile(pg.parse(text), **({"ignore_program_stop": True} if opt.get("ignore_stop") else {}))
        if backend == "shapely":
            obs, _ = pg.paint_shapely(rv, pts)
        else:
            obs, _ = pg.paint_pillow(rv, pts, 40)
    except Exception as e:  # noqa: BLE001
        err = pg.exc_name(e)
    eff = [c for c in cmds if c["c"] != "M02"] if opt.get("ignore_stop") else cmds
    rec = dict(id=ident, cmds=eff, samples=[[x, y, o] for (x, y), o in zip(pts, obs)], margin=opt.get("margin", MARGIN[backend]),
               err=err)
    return text, rec


def run_jobs(ctx: Ctx, jobs, label: str) -> None:
    res = pmap(observe, jobs)
    recs = [r for _, r in res]
    texts = {r["id"]: {"gerber": t} for t, r in res}
    for t, r in res[:1]:
        ctx.sample({"gerber": t, "samples": r["samples"][:5], "kind": label})
    ctx.count("points_compared", sum(len(r["samples"]) for r in recs))
    ctx.count("points_dark", sum(s[2] for r in recs for s in r["samples"]))
    ctx.validate("ImageTrace", recs, label=label, replay=texts)


def random_jobs(ctx: Ctx, label: str, feats, n: int, backend: str, pts=(40, 30, 8), opts=None, start=0, gen=None):
    jobs = []
    for i in range(n):
        rng = ctx.rng(label, backend, i)
        g = (gen or gprog.ImgGen)(rng, feats)
        cmds = g.generate()
        opt = dict(opts or {})
        opt.setdefault("dec", rng.choice([3, 4, 5, 6]))
        opt.setdefault("int", rng.choice([3, 4, 5]))
        opt.setdefault("style", rng.choice([0, 0, 1]))
        jobs.append((start + i, cmds, rng.randrange(1 << 30), backend, pts, opt))
    return jobs


def behaviours(ctx: Ctx, alphabet: str, depth: int, limit: int, backends=("shapely",)) -> None:
    r = ctx.model_check("ImageMC", {"Alphabet": f'"{alphabet}"', "Depth": str(depth)},
                        invariants=["TypeOK", "ContourInv", "LastWriter"], properties=["Monotone", "StopFinal"],
                        label=f"ImageMC/{alphabet}/{depth}")
    behs = []
    for v in r.tagged("BEHAVIOUR"):
        s = v[v.index('"[') :].rstrip()
        s = s[: s.rindex('"') + 1]
        behs.append(json.loads(json.loads(s)))
    behs.sort(key=lambda b: json.dumps(b))
    total = len(behs)
    if len(behs) > limit:
        behs = ctx.rng("beh", alphabet).sample(behs, limit)
    ctx.note(f"behaviours:{alphabet}", {"enumerated": total, "replayed": len(behs)})
    for backend in backends:
        jobs = [(i, json.loads(json.dumps(b)), i * 7 + ctx.seed, backend, (8, 10, 6), {}) for i, b in enumerate(behs)]
        run_jobs(ctx, jobs, f"behaviours/{alphabet}/{backend}")
