"""Formatting is laid out by the options and stable."""
from checks.p09 import INV
from vlib import fmtcheck


def check(ctx):
    ctx.model_check("FormatMC", {"Depth": str(ctx.n(3, 4))}, invariants=INV, label="writer")
    fmtcheck.run(ctx, "layout", ctx.n(1000, 12000), "random sources and options")
