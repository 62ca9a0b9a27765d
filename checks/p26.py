"""MD5 attribute of files."""
from vlib import integrity


def check(ctx):
    integrity.run(ctx, ctx.n(450, 12000))
