"""Graphics state machine."""
from vlib import gstate


def check(ctx):
    behs = gstate.behaviours(ctx, "modal", ctx.n(4, 5), ctx.n(4000, 40000))
    gstate.run(ctx, "modal", behs, [{}] * len(behs), "behaviours")
    progs, opts = [], []
    for i in range(ctx.n(2500, 25000)):
        rng = ctx.rng("gen", i)
        progs.append(gstate.GStateGen(rng, False).generate())
        opts.append({"ignore": rng.random() < 0.2})
    gstate.run(ctx, "modal", progs, opts, "random")
