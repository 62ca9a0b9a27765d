#!/usr/bin/env python3
"""Small random changes of the code a property is anchored in, each judged by the quick
check of the property: mutate.py P27 N [SEED] [FILE ...].  Works in a scratch copy and prints
the changes the check did not notice."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SRC = os.environ.get("MUT_SRC", "/repo/src")
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "*"}
NAMES = {"x": "y", "y": "x", "min_x": "min_y", "min_y": "min_x", "max_x": "max_y", "max_y": "max_x", "width": "height", "height": "width", "start": "end", "end": "start",
         "min": "max", "max": "min", "sin": "cos", "cos": "sin", "coordinate_x": "coordinate_y", "coordinate_y": "coordinate_x", "coordinate_i": "coordinate_j", "coordinate_j": "coordinate_i"}


def mutants(src):
    """(start, end, new text, what) for every place."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []
    inside = []
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for st in fn.body:
                inside.append(st)
    done = set()
    for st in inside:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        for n in ast.walk(st):
            if id(n) in done:
                continue
            done.add(id(n))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
                a, b = span(n)
                out.append((a, b, f"{text(n.left)} {SWAP[type(n.ops[0])]} {text(n.comparators[0])}", "compare"))
            elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not isinstance(n.left, ast.Constant):
                a, b = span(n)
                out.append((a, b, f"({text(n.left)} {ARITH[type(n.op)]} {text(n.right)})", "arith"))
            elif isinstance(n, ast.BoolOp):
                a, b = span(n)
                op = " or " if isinstance(n.op, ast.And) else " and "
                out.append((a, b, "(" + op.join(text(v) for v in n.values) + ")", "bool"))
                k = random.randrange(len(n.values))
                out.append((a, b, text(n.values[k]), "bool-drop"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                a, b = span(n)
                out.append((a, b, text(n.operand), "unary-drop"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                a, b = span(n)
                out.append((a, b, str(not n.value), "const"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                a, b = span(n)
                out.append((a, b, repr(n.value + 1), "const"))
            elif isinstance(n, ast.If):
                a, b = span(n.test)
                out.append((a, b, f"not ({text(n.test)})", "if-not"))
                if not n.orelse and n.body:
                    out.append((a, b, "True", "if-true"))
                    out.append((a, b, "False", "if-false"))
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                a, b = span(n)
                out.append((b - len(n.attr), b, NAMES[n.attr], "name"))
            elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
                a, b = span(n)
                out.append((a, b, NAMES[n.id], "name"))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    continue
                a, b = span(n)
                out.append((a, b, "pass", "drop"))
            elif isinstance(n, ast.Continue):
                a, b = span(n)
                out.append((a, b, "break", "loop"))
            elif isinstance(n, ast.Break):
                a, b = span(n)
                out.append((a, b, "continue", "loop"))
    return raw, out


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    files = sys.argv[4:]
    if not files:
        for ln in (ROOT / "properties.jsonl").read_text().splitlines():
            p = json.loads(ln)
            if p["id"] == prop:
                files = p["anchors"]["files"]
    r = random.Random(f"{prop} {seed}")
    random.seed(seed)
    d = Path(tempfile.mkdtemp(prefix="mut_"))
    subprocess.check_call(["cp", "-a", SRC, str(d / "src")])
    out = open(f"/tmp/mut/{prop}.jsonl", "a")
    pool = []
    for f in files:
        src = Path(SRC).parent.joinpath(f).read_text()
        raw, ms = mutants(src)
        pool += [(f, raw, m) for m in ms]
    # every file gets its share
    r.shuffle(pool)
    by = {}
    for x in pool:
        by.setdefault(x[0], []).append(x)
    pick = []
    while len(pick) < n and any(by.values()):
        for f in sorted(by):
            if by[f] and len(pick) < n:
                pick.append(by[f].pop())
    caught = 0
    for f, raw, (a, b, new, what) in pick:
        body = raw[:a] + new.encode() + raw[b:]
        try:
            compile(body, f, "exec")
        except SyntaxError:
            continue
        (d / f).write_bytes(body)
        t = time.time()
        for scale in ("0.3", "1"):
          try:
            c = subprocess.run([str(ROOT / "run.py"), prop, "quick"], cwd=ROOT, capture_output=True, text=True, timeout=300,
                               env={**os.environ, "VERIF_REPO_SRC": str(d / "src"), "VERIF_NO_EVIDENCE": "1", "VERIF_SEED": "1", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SCALE": scale})
            rc = c.returncode
            tail = (c.stdout + c.stderr)[-300:]
          except subprocess.TimeoutExpired:
            rc, tail = 99, "timeout"
          if rc != 0:
            break
        line = raw[:a].count(b"\n") + 1
        ctx = raw.splitlines()[line - 1].decode().strip()
        rec = {"prop": prop, "file": f, "line": line, "what": what, "old": raw[a:b].decode(), "new": new, "ctx": ctx, "rc": rc, "s": round(time.time() - t)}
        out.write(json.dumps(rec) + "\n")
        out.flush()
        caught += rc == 1
        if rc != 1:
            print(f"rc={rc} {f}:{line} {what}: {rec['old']!r} -> {new!r}   [{ctx}]" + (f"\n   {tail}" if rc not in (0, 1) else ""), flush=True)
        (d / f).write_bytes(raw)
    print(f"{prop}: {caught} of {len(pick)} noticed")
    shutil.rmtree(d)


main()
