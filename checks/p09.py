"""Formatting keeps the meaning."""
from vlib import fmtcheck

INV = ["Machine", "Meaning", "Glue", "Stripped", "Idempotent"]


def check(ctx):
    ctx.model_check("FormatMC", {"Depth": str(ctx.n(3, 4))}, invariants=INV, label="writer")
    fmtcheck.run(ctx, "meaning", ctx.n(1000, 12000), "random sources and options")
