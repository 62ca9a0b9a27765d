"""Visits."""
from vlib import doccheck


def check(ctx):
    doccheck.model(ctx)
    doccheck.run(ctx, "visits", ctx.n(1500, 12000))
