"""Projects made of job files."""
from vlib import filecheck


def check(ctx):
    filecheck.run_jobs(ctx, filecheck.model(ctx), ctx.n(2000, 25000))
