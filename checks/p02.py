"""Aperture transformations (mirror, rotate, scale)."""
from vlib.imgcheck import behaviours, random_jobs, run_jobs

FEAT = {"hole", "clear", "poly", "rot", "mirror", "scale", "arc"}


def check(ctx):
    behaviours(ctx, "tr", ctx.n(5, 6), ctx.n(1200, 10000))
    for backend, n in (("shapely", ctx.n(900, 8000)), ("pillow", ctx.n(400, 5000))):
        run_jobs(ctx, random_jobs(ctx, "tr", FEAT, n, backend), f"transform/{backend}")
