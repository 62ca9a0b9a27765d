"""RVMC builder and the JSON form of programs."""
from vlib import rvmccheck


def check(ctx):
    ctx.model_check("RvmcBuildMC", {"Depth": str(ctx.n(5, 6))}, invariants=["Agree", "OneChild"], properties=["LockedFinal", "DoneFrozen"], label="builder")
    rvmccheck.run(ctx, ctx.n(1000, 15000), ctx.n(120, 3000))
