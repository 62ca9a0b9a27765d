"""The language server answers for the document as it is."""
from vlib import lspcheck


def check(ctx):
    lspcheck.run(ctx, ctx.n(220, 6000))
