"""Lints documents with the real linter and listens to the real event visitor."""
from __future__ import annotations

import json
import random
import re

from vlib import doccheck, gsyn
from vlib.gsyn import NONE, S, cmd
from vlib.pool import pmap

RULES = ["DEP001", "DEP002", "GRB001"]
SHORT = {"ABopen": "ABo", "ABclose": "ABc", "AMopen": "AMo", "AMclose": "AMc", "SRopen": "SRo", "SRclose": "SRc", "ADmacro": "ADM", "Assignment": "Pset",
         "Constant": "n", "Variable": "v", "CoordinateX": "X", "CoordinateY": "Y", "CoordinateI": "I", "CoordinateJ": "J"}


def listening():
    """Node classes by the label the specification uses."""
    import pygerber.gerber.ast.nodes as nodes
    out = {}
    for name in dir(nodes):
        if name in SHORT:
            out[SHORT[name]] = getattr(nodes, name)
        elif name in gsyn.ATTR:
            out[name[:2] + gsyn.ATTR[name][0]] = getattr(nodes, name)
        elif name.endswith("_UserName"):
            out[name[:2] + "user"] = getattr(nodes, name)
        elif re.fullmatch(r"Code\d+", name):
            out["P" + name[4:]] = getattr(nodes, name)
        elif re.fullmatch(r"[A-Z]{2}|[DGM]\d\d|Dnn|AD[CROP]", name) and name not in ("AB", "AD", "AM", "SR", "TA", "TF", "TO"):
            out[name] = getattr(nodes, name)
    return out


def text_of(r, cmds):
    ws = r.choice([0, 0, 0.05])
    text, spans = gsyn.Writer(r, ws).text(cmds)
    return text, spans, ws == 0


def documents(job):
    """One linter over several documents."""
    seed, docs = job
    r = random.Random(seed)
    from pygerber.gerber.linter.event_ast_visitor import EventAstVisitor
    from pygerber.gerber.linter.linter import Linter
    from pygerber.gerber.linter.rules import RULE_REGISTRY
    from vlib.pg import parse_source
    out = []
    classes = listening()
    rules = [x for x in RULES if r.random() < 0.85]
    r.shuffle(rules)
    linter = Linter([RULE_REGISTRY[x]() for x in rules])
    for cmds in docs:
        text, spans, tight = text_of(r, cmds)
        rec = {"src": cmds, "span": [list(s) for s in spans], "nl": doccheck.newlines(text), "tight": tight, "rules": rules, "reports": [], "hear": [], "heard": [],
               "err": "", "text": text}
        try:
            ast = parse_source(text)
            for v in linter.lint(ast):
                named = re.findall(r"\b[GDM]\d\d\b", v.title)
                rec["reports"].append({"rule": v.rule_id, "start": v.start_offset, "stop": v.end_offset, "line": v.line, "col": v.column,
                                       "named": named[0] if len(named) == 1 else v.title})
            visitor = EventAstVisitor()
            share = r.choice([0.2, 0.5, 1.0])
            rec["hear"] = sorted(c for c in classes if r.random() < share)
            for lab in rec["hear"]:
                visitor.register_listener(classes[lab], lambda n, lab=lab: rec["heard"].append([lab, str(n.value) if lab in "XYIJ" else ""]))
            ast.visit(visitor)
        except Exception as e:  # noqa: BLE001
            rec["err"] = f"raised {type(e).__name__}: {e}"[:200]
        out.append(rec)
    return out


def modal(r):
    """Many interpolation commands, blocks and deprecated commands."""
    g = gsyn.SynGen(r)
    out = []

    def some(depth):
        for _ in range(r.randint(1, 8)):
            q = r.random()
            if q < 0.55:
                k = r.choice(["G01", "G01", "G02", "G03"])
                out.extend([cmd(k)] if r.random() < 0.5 else [cmd(k, j=1), g.dcode()])
            elif q < 0.65:
                out.extend([cmd(r.choice(["G54", "G55"]), j=1), g.dcode()] if r.random() < 0.6 else [cmd(r.choice(["G54", "G55"]))])
            elif q < 0.75 and depth:
                out.append(cmd("ABo", S("D31")))
                some(depth - 1)
                out.append(cmd("ABc"))
            else:
                out.extend(g.command())
    some(2)
    return out


def from_history(h):
    make = {"D01": lambda: cmd("D01", S("1"), S("2"), NONE, NONE), "ABo": lambda: cmd("ABo", S("D12"))}
    return [make.get(k, lambda: cmd(k))() for k in h]


def run(ctx, behs, n):
    docs = [from_history(h) for h in behs]
    for i in range(n):
        r = ctx.rng("lint", i)
        docs.append(modal(r) if r.random() < 0.6 else gsyn.SynGen(r).generate())
    ctx.rng("order").shuffle(docs)
    jobs = [(repr((ctx.seed, "lint", k)), docs[k:k + 6]) for k in range(0, len(docs), 6)]
    recs = [x for part in pmap(documents, jobs) for x in part]
    replay = {}
    for i, rec in enumerate(recs):
        rec["id"] = i
        replay[i] = {"source": rec.pop("text")}
    ctx.sample(replay[0])
    ctx.note("reports", sum(len(r["reports"]) for r in recs))
    ctx.note("events heard", sum(len(r["heard"]) for r in recs))
    ctx.validate("LintTrace", recs, label="lint", replay=replay, chunk=2000)


def model(ctx):
    r = ctx.model_check("LintMC", {"Depth": str(ctx.n(4, 5))}, invariants=["Deprecated", "Redundant", "Complete", "InOrder", "Emit"], label="lint")
    out = []
    for v in r.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        out.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    return sorted(out)
