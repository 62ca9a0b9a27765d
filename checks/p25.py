"""The command line does what the API does."""
from vlib import clicheck


def check(ctx):
    clicheck.run(ctx, ctx.n(500, 8000))
