"""Types and colours of files."""
from vlib import filecheck


def check(ctx):
    filecheck.model(ctx)
    filecheck.run_types(ctx, ctx.n(3000, 40000))
