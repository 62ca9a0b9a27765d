"""Linter reports and listener events."""
from vlib import lintcheck


def check(ctx):
    behs = lintcheck.model(ctx)
    lintcheck.run(ctx, behs, ctx.n(2000, 30000))
