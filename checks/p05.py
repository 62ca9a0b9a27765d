"""Macro arithmetic: precedence, associativity, unary signs, parentheses, variables."""
import json
from fractions import Fraction

from vlib.pool import pmap

OPS = {1: "+", 2: "-", 3: "x", 4: "/", 5: "(", 6: ")"}


class DivZero(Exception):
    pass


def ev(ts, env, p=0):
    """Reference evaluation used only to keep generated values inside TLC's integers."""
    mx = [0]

    def chk(v):
        if abs(v.numerator) > 60000 or v.denominator > 20000:
            raise DivZero
        return v

    def factor(p):
        k, a, b = ts[p]
        if k == "o" and a == 2:
            v, p = factor(p + 1)
            return -v, p
        if k == "o" and a == 1:
            return factor(p + 1)
        if k == "o" and a == 5:
            v, p = expr(p + 1)
            return v, p + 1
        if k == "n":
            return Fraction(a, b), p + 1
        return env.get(a, Fraction(0)), p + 1

    def term(p):
        v, p = factor(p)
        while p < len(ts) and ts[p][0] == "o" and ts[p][1] in (3, 4):
            o = ts[p][1]
            w, p = factor(p + 1)
            if o == 4 and w == 0:
                raise DivZero
            v = chk(v * w if o == 3 else v / w)
        return v, p

    def expr(p):
        v, p = term(p)
        while p < len(ts) and ts[p][0] == "o" and ts[p][1] in (1, 2):
            o = ts[p][1]
            w, p = term(p + 1)
            v = chk(v + w if o == 1 else v - w)
        return v, p

    v, p = expr(0)
    return v


def gen_tokens(r, depth, nvar):
    def number():
        return ["n", *r.choice([(1, 1), (2, 1), (3, 1), (5, 1), (1, 2), (3, 4), (1, 10), (25, 10), (7, 1), (0, 1)])]

    def factor(d, plus=True):
        q = r.random()
        if q < 0.12:
            return [["o", 2, 0]] + factor(d, False)
        if q < 0.16 and plus:  # a plus sign directly after a minus sign is not part of the language
            return [["o", 1, 0]] + factor(d)
        if q < 0.34 and d > 0:
            return [["o", 5, 0]] + expr(d - 1) + [["o", 6, 0]]
        if q < 0.65:
            return [["v", r.randrange(1, nvar + 1), 0]]
        return [number()]

    def expr(d):
        out = factor(d)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            out += [["o", r.choice([1, 2, 2, 3, 3, 4]), 0]] + factor(d)
        return out

    return expr(depth)


def text(ts, r=None):
    s = ""
    for k, a, b in ts:
        if k == "n":
            s += str(a) if b == 1 else (str(Fraction(a, b).numerator / Fraction(a, b).denominator))
        elif k == "v":
            s += f"${a}"
        else:
            s += "X" if a == 3 and r and r.random() < 0.3 else OPS[a]
    return s


def gen(r):
    nparam = r.randrange(0, 4)
    params = [r.choice([(1, 1), (2, 1), (1, 2), (3, 1), (15, 10), (-2, 1)]) for _ in range(nparam)]
    env = {i + 1: Fraction(*p) for i, p in enumerate(params)}
    nvar = 5
    stmts = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        for _ in range(20):
            ts = gen_tokens(r, 1, nvar)
            k = r.randrange(1, nvar + 1)
            try:
                v = ev(ts, env)
            except DivZero:
                continue
            if abs(v) < 200:
                env[k] = v
                stmts.append(["set", k, ts])
                break
    for o in (1, 2):
        while True:
            ts = gen_tokens(r, r.choice([0, 1, 1, 2]), nvar)
            try:
                v = ev(ts, env)
            except DivZero:
                continue
            if abs(v) < 200:
                stmts.append(["out", o, ts])
                break
    return params, stmts


def observe(job):
    ident, params, stmts, seed = job
    import random

    from vlib import pg
    r = random.Random(seed)
    body = ""
    for k, a, ts in stmts:
        if k == "set":
            body += f"${a}={text(ts, r)}*\n"
    e = [text(ts, r) for k, a, ts in stmts if k == "out"]
    body += f"1,1,0.5,{e[0]},{e[1]}*"
    ps = "X".join(str(n / d) for n, d in params)
    prog = f"%FSLAX34Y34*%\n%MOMM*%\n%AMMAC*\n{body}%\n%ADD10MAC{',' + ps if ps else ''}*%\nD10*\nX0Y0D03*\nM02*\n"
    err, seen = "", [0, 0]
    try:
        rv = pg.gcompile(pg.parse(prog))
        box = pg.vm_render(rv, backend="shapely").main_box
        seen = [round((box.min_x + box.max_x) * 500), round((box.min_y + box.max_y) * 500)]
        if abs(box.max_x - box.min_x - 0.5) > 1e-6:
            err = "circle size"
    except Exception as ex:  # noqa: BLE001
        err = pg.exc_name(ex)
    return prog, dict(id=ident, params=[list(p) for p in params], stmts=stmts, seen=seen, err=err)


def run(ctx, jobs, label):
    res = pmap(observe, jobs)
    ctx.sample({"gerber": res[0][0], "seen": res[0][1]["seen"]})
    ctx.validate("MacroExprTrace", [r for _, r in res], label=label, replay={r["id"]: {"gerber": p} for p, r in res})


def check(ctx):
    n = ctx.n(5, 7)
    res = ctx.model_check("MacroExprMC", {"MaxLen": str(n)}, invariants=["ParsesWhole", "Laws"], label=f"MacroExprMC/{n}")
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"[') :].rstrip()
        ts = json.loads(json.loads(s[: s.rindex('"') + 1]))
        try:
            ev(ts, {1: Fraction(5)})
        except DivZero:
            continue
        behs.append(ts)
    behs.sort(key=json.dumps)
    total = len(behs)
    behs = ctx.rng("b").sample(behs, min(total, ctx.n(1200, 12000)))
    ctx.note("behaviours", {"enumerated": total, "replayed": len(behs)})
    jobs = []
    for i in range(0, len(behs) - 1, 2):
        jobs.append((i, [(5, 1)], [["out", 1, behs[i]], ["out", 2, behs[i + 1]]], i))
    run(ctx, jobs, "behaviours")
    jobs = []
    for i in range(ctx.n(500, 5000)):
        r = ctx.rng("gen", i)
        p, s = gen(r)
        jobs.append((i, p, s, r.randrange(1 << 30)))
    run(ctx, jobs, "random")
