"""Layer discipline of the rendering virtual machines."""
from vlib import laycheck


def check(ctx):
    laycheck.behaviours(ctx, ctx.n(5, 6), ctx.n(1500, 20000))
    laycheck.run(ctx, ctx.n(1200, 15000))
