"""Files with MD5 attributes, signed and edited."""
from __future__ import annotations

import hashlib
import json
import random

from vlib import gsyn
from vlib.pool import pmap

# a file of the model: comment text between commands
UNIT = {65: "G04 A*", 42: "D10*", 10: "\n", 13: "\r", 32: "G04 \u00e9*"}


def digest(codes):
    return hashlib.md5("".join(map(chr, codes)).encode("utf-8")).hexdigest()


def strip(text):
    return [ord(c) for c in text if c not in "\r\n"]


def observe(job):
    ident, text, locs, signed, mode = job
    from pygerber.gerber.ast.nodes import TF_MD5
    from pygerber.gerber.parser import parse
    rec = {"id": ident, "text": [ord(c) for c in text], "marks": [], "err": ""}
    try:
        ast = parse(text, resilient=mode == "resilient")
        nodes = [n for n, _ in __import__("vlib.doccheck", fromlist=["x"]).leaf_depths(ast.nodes) if isinstance(n, TF_MD5)]
        if len(nodes) != len(locs):
            raise AssertionError(f"{len(nodes)} MD5 commands read, {len(locs)} written")
        for n, loc, s in zip(nodes, locs, signed):
            rec["marks"].append({"loc": loc, "signed": s, "said": n.check_source_hash()})
    except Exception as e:  # noqa: BLE001
        rec["err"] = f"raised {type(e).__name__}: {e}"[:200]
    return rec


def mark(r, codes):
    d = digest(codes)
    gap = r.choice(["", "", "", " ", "\n"])
    return f"%{gap}TF.MD5,{d}*{r.choice(['', '', chr(10)])}%"


def build(r):
    """A document with one or more marks, maybe edited after signing."""
    text, locs, signed = "", [], []
    for _ in range(r.randint(1, 3)):
        part = gsyn.Writer(r, r.choice([0, 0.03])).text([c for c in gsyn.SynGen(r).generate(r.randint(1, 6)) if not (c["k"] == "TF" and c["f"][0]["s"] == ".MD5")])[0]
        if r.random() < 0.4:
            part = part.rstrip("\n\r\t ")
        if r.random() < 0.2:
            part = part.replace("\n", "\r\n")
        text += part
        signed.append(strip(text))
        locs.append(len(text))
        text += mark(r, signed[-1]) + r.choice(["", "\n", "\r\n", " "])
    if r.random() < 0.5:
        text += "M02*" + r.choice(["", "\n"])
    if r.random() < 0.6:  # edit between commands so that the document stays readable
        ends = [0] + [i + 1 for i, c in enumerate(text) if c == "*" and "%" not in text[i + 1:i + 3]]
        inside = []
        depth = 0
        for i, c in enumerate(text + " "):
            if depth % 2 == 0 and (i == 0 or text[i - 1] in "*%\n"):
                inside.append(i)
            if i < len(text):
                depth += c == "%"
        q = r.choice([p for p in ends if p in inside] or [0])
        what = r.choice(["\n", "\r\n", " ", "\t", "G04 x*", "\n\n", "D11*"])
        text = text[:q] + what + text[q:]
        locs = [p + len(what) if p >= q else p for p in locs]
    return text, locs, signed


def from_model(r, b):
    text = "".join(UNIT[c] for c in b["text"])
    sign = strip("".join(UNIT[c] for c in b["signed"]))
    return text + mark(r, sign) + "M02*", [len(text)], [sign]


def run(ctx, n):
    res = ctx.model_check("IntegrityMC", {"Size": str(ctx.n(2, 3))}, invariants=["LineEnds", "Emit"], label="integrity")
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"{'):].rstrip()
        behs.append(json.loads(json.loads(s[: s.rindex('"') + 1])))
    behs.sort(key=json.dumps)
    jobs, replay = [], {}
    for i, b in enumerate(behs):
        jobs.append((i, *from_model(ctx.rng("m", i), b), "strict"))
    for k in range(n):
        r = ctx.rng("doc", k)
        jobs.append((len(jobs), *build(r), r.choice(["strict", "strict", "resilient"])))
    for j in jobs:
        replay[j[0]] = {"source": j[1]}
    recs = pmap(observe, jobs)
    ctx.sample(replay[0])
    ctx.note("marks accepted", sum(m["said"] for x in recs for m in x["marks"]))
    ctx.note("marks refused", sum(not m["said"] for x in recs for m in x["marks"]))
    ctx.validate("IntegrityTrace", recs, label="integrity", replay=replay)
