"""Lookup."""
from vlib import doccheck


def check(ctx):
    doccheck.model(ctx)
    doccheck.run(ctx, "lookup", ctx.n(1000, 8000))
