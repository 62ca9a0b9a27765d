"""Gerber builder."""
from vlib import buildcheck

INV = ["WrittenMeansCalled", "NothingLost"]


def check(ctx):
    ctx.model_check("BuilderMC", {"Depth": str(ctx.n(3, 4))}, invariants=INV, label="builder")
    buildcheck.run(ctx, ctx.n(1500, 15000))
