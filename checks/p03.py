"""Block apertures and step and repeat."""
from vlib.imgcheck import behaviours, random_jobs, run_jobs

FEAT = {"hole", "clear", "poly", "rot", "mirror", "scale", "arc", "region", "block", "sr", "blockclear", "blocktr"}


def check(ctx):
    behaviours(ctx, "block", ctx.n(5, 6), ctx.n(1500, 12000))
    for backend, n in (("shapely", ctx.n(900, 8000)), ("pillow", ctx.n(400, 5000))):
        run_jobs(ctx, random_jobs(ctx, "blk", FEAT, n, backend), f"block/{backend}")
