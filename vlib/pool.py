"""Ordered parallel map over worker processes (the code under test is pure Python).

A job that does not come back within LIMIT seconds of processor time, or needs more than
MEMORY bytes, means that the code under test does not terminate on that input: `Hung` is raised."""
from __future__ import annotations

import multiprocessing as mp
import os
import resource
import signal

LIMIT = 60
MEMORY = 5 << 30


class Hung(Exception):
    """A job did not come back."""

    def __init__(self, job) -> None:
        super().__init__("the code under test did not terminate")
        self.job = job


class _Alarm(BaseException):
    pass


class _Sentinel:
    def __init__(self, job) -> None:
        self.job = job


def _ring(*_):
    raise _Alarm


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.RLIM_INFINITY))
    signal.signal(signal.SIGVTALRM, _ring)


class _Guard:
    def __init__(self, fn) -> None:
        self.fn = fn

    def __call__(self, job):
        signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
        try:
            return self.fn(job)
        except (_Alarm, MemoryError):
            return _Sentinel(repr(job)[:20000])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def pmap(fn, items, procs: int | None = None, chunksize: int | None = None):
    items = list(items)
    n = procs or min(8, os.cpu_count() or 1)
    if not items:
        return []
    ctx = mp.get_context("fork")
    out = []
    with ctx.Pool(min(n, len(items)), _init) as pool:
        for r in pool.imap(_Guard(fn), items, chunksize or min(20, max(1, len(items) // (n * 8)))):
            if isinstance(r, _Sentinel):
                raise Hung(r.job)
            out.append(r)
    return out
