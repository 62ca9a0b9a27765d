"""Parsed_trees."""
from vlib import doccheck


def check(ctx):
    doccheck.model(ctx)
    doccheck.run(ctx, "nodes", ctx.n(1500, 12000))
