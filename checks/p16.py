"""Pictures of single files."""
from vlib import rastcheck


def check(ctx):
    rastcheck.model(ctx)
    rastcheck.run(ctx, rastcheck.single, ctx.n(2500, 30000), "raster")
    rastcheck.run(ctx, rastcheck.vector, ctx.n(1200, 15000), "vector")
