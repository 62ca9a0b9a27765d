"""Composed views."""
from vlib import rastcheck


def check(ctx):
    rastcheck.model(ctx)
    rastcheck.run(ctx, rastcheck.composite, ctx.n(1500, 20000), "composite")
