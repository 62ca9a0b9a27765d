"""Attribute dictionaries and the metadata attached to compiled objects."""
from vlib import gstate


def check(ctx):
    behs = gstate.behaviours(ctx, "attr", ctx.n(4, 5), ctx.n(4000, 40000))
    gstate.run(ctx, "attr", behs, [{"compile": True}] * len(behs), "behaviours")
    progs, opts = [], []
    for i in range(ctx.n(2000, 20000)):
        rng = ctx.rng("gen", i)
        progs.append(gstate.GStateGen(rng, True).generate())
        opts.append({"ignore": rng.random() < 0.2, "compile": True})
    gstate.run(ctx, "attr", progs, opts, "random")
