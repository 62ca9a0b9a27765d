"""Parsers with their own node classes."""
from __future__ import annotations

import functools
import inspect
import json
import random

from vlib import gsyn, lintcheck
from vlib.pool import pmap


def nodes_of(node):
    """All nodes of a tree."""
    from pygerber.gerber.ast.nodes.base import Node
    yield node
    for f in type(node).model_fields:
        stack = [getattr(node, f)]
        while stack:
            x = stack.pop()
            if isinstance(x, Node):
                yield from nodes_of(x)
            elif isinstance(x, (list, tuple)):
                stack.extend(x)
            elif isinstance(x, dict):
                stack.extend(x.values())


def classes():
    """Node classes by label; parts get a "~"."""
    import pygerber.gerber.ast.nodes as nodes
    from pygerber.gerber.ast.nodes.base import Node
    out = {lab: c for lab, c in lintcheck.listening().items()}
    known = set(out.values())
    for name, c in vars(nodes).items():
        if inspect.isclass(c) and issubclass(c, Node) and c not in known and not inspect.isabstract(c):
            out["~" + name] = c
    return out


def history(job):
    ident, seed, acts = job
    r = random.Random(seed)
    from pygerber.gerber.formatter import Formatter
    from pygerber.gerber.parser import parse
    from pygerber.gerber.parser.pyparsing.parser import Parser
    from vlib.pg import parse_source, parse_with
    table = classes()
    if acts is None:
        acts, n = [], 0
        for _ in range(r.randrange(3, 9)):
            if n == 0 or (n < 3 and r.random() < 0.3):
                n += 1
                share = r.choice([0, 0.1, 0.5, 0.9, 1, 1])
                acts.append({"a": "new", "p": n, "over": sorted(k for k in table if r.random() < share), "resilient": r.random() < 0.3, "oneshot": r.random() < 0.3, "same": r.random() < 0.5})
            else:
                acts.append({"a": "use", "p": r.randrange(1, n + 1), "src": gsyn.SynGen(r).generate()})
    parsers, events, texts = [], [], []
    for a in acts:
        if a["a"] == "new":
            p = a["p"]
            made = {k: type(table[k].__name__ + "Mine", (table[k],), {"__module__": __name__, "__qualname__": table[k].__name__ if a.get("same") else f"{table[k].__name__}Mine{p}"}) for k in a["over"]}
            kind = {c: k for k, c in made.items()}
            given, resilient = {table[k].__name__: c for k, c in made.items()}, a.get("resilient", False)
            use = functools.partial(parse, ast_node_class_overrides=given, resilient=resilient) if a.get("oneshot") else Parser(given, resilient=resilient).parse
            parsers.append((a, kind, use))
            events.append({"a": "new", "p": p, "over": a["over"], "src": [], "seen": [], "same": True, "err": ""})
            continue
        p = a["p"]
        text, _ = gsyn.Writer(r, r.choice([0, 0, 0.05])).text(a["src"])
        resilient = parsers[p - 1][0].get("resilient", False)
        if resilient and r.random() < 0.7:
            text = "\n?1;*\n" + text if r.random() < 0.5 else text + "\n?1;*\n"
        texts.append([p, text])
        e = {"a": "use", "p": p, "over": [], "src": a["src"], "seen": [], "same": True, "err": ""}
        try:
            tree = parse_with(parsers[p - 1][2], text)
            back = {c: k for k, c in table.items()}
            count = {}
            for n in nodes_of(tree):
                c = type(n)
                for q, (_, kind, _) in enumerate(parsers, 1):
                    if c in kind:
                        key = (kind[c], q)
                        break
                else:
                    key = (back.get(c, c.__name__), 0)
                count[key] = count.get(key, 0) + 1
            e["seen"] = [[k, q, n] for (k, q), n in sorted(count.items())]
            e["same"] = Formatter().formats(tree) == Formatter().formats(parse_source(text, resilient=resilient))
        except Exception as x:  # noqa: BLE001
            e["err"] = f"raised {type(x).__name__}: {x}"[:200]
        events.append(e)
    return {"id": ident, "events": events, "texts": texts}


def from_model(h, seed):
    """Histories of the model: two kinds, two documents."""
    from vlib.gsyn import NONE, S, cmd
    docs = {1: [cmd("D01", S("1"), S("2"), NONE, NONE)], 2: [cmd("G01"), cmd("D02", S("3"), NONE, NONE, NONE)]}
    return [{"a": "new", "p": x["p"], "over": sorted(k for k, v in x["over"].items() if v)} if x["a"] == "new" else {"a": "use", "p": x["p"], "src": docs[x["d"]]} for x in h]


def run(ctx, n):
    res = ctx.model_check("OverridesMC", {"Kinds": '{"X", "D01"}', "Docs": "{1, 2}", "Depth": "4"}, invariants=["Own"])
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        behs.append(json.loads(json.loads(s[:s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    total = len(behs)
    if total > ctx.n(150, 100000):
        behs = ctx.rng("beh").sample(behs, 150)
    ctx.note("behaviours", {"enumerated": total, "replayed": len(behs)})
    jobs = [(i, repr((ctx.seed, "m", i)), from_model(h, i)) for i, h in enumerate(behs)]
    jobs += [(len(behs) + i, repr((ctx.seed, "r", i)), None) for i in range(n)]
    recs = pmap(history, jobs)
    replay = {r["id"]: {"texts": r.pop("texts")} for r in recs}
    ctx.sample(replay[recs[-1]["id"]])
    ctx.note("trees", sum(e["a"] == "use" for r in recs for e in r["events"]))
    ctx.note("nodes", sum(s[2] for r in recs for e in r["events"] for s in e["seen"]))
    ctx.validate("OverridesTrace", recs, label="parsers", replay=replay, chunk=1500)
