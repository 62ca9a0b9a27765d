"""Algebra of the value types."""
from vlib import valcheck


def check(ctx):
    valcheck.run(ctx, ctx.n(1500, 40000))
