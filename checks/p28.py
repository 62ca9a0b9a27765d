"""Parsers use the node classes they were given."""
from vlib import overcheck


def check(ctx):
    overcheck.run(ctx, ctx.n(200, 3000))
