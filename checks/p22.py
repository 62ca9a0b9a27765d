"""Repeatability: results depend on document and settings only."""
from vlib import reusecheck


def check(ctx):
    reusecheck.run(ctx, ctx.n(160, 4000))
