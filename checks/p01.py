"""Draws, flashes, regions and polarity produce the described image."""
from vlib.imgcheck import behaviours, random_jobs, run_jobs

FEAT = {"hole", "clear", "region", "poly", "rot_poly", "arc"}


def check(ctx):
    behaviours(ctx, "prim", ctx.n(4, 5), ctx.n(800, 8000), ("shapely", "pillow") if ctx.thorough else ("shapely",))
    behaviours(ctx, "region", 6, ctx.n(500, 8000))
    for backend, n in (("shapely", ctx.n(600, 8000)), ("pillow", ctx.n(300, 5000))):
        run_jobs(ctx, random_jobs(ctx, "draw", FEAT, n, backend), f"draw/{backend}")
    run_jobs(ctx, random_jobs(ctx, "inch", FEAT, ctx.n(200, 1500), "shapely", opts={"unit": "IN"}), "inch/shapely")
    run_jobs(ctx, random_jobs(ctx, "stop", FEAT | {"m02"}, ctx.n(250, 2000), "shapely"), "program end/shapely")
    run_jobs(ctx, random_jobs(ctx, "nostop", FEAT | {"m02"}, ctx.n(150, 1500), "shapely", opts={"ignore_stop": True}), "ignored program end/shapely")
