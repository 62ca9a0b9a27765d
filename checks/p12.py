"""Modes."""
from vlib import doccheck


def check(ctx):
    doccheck.model(ctx)
    doccheck.run(ctx, "modes", ctx.n(1200, 10000))
