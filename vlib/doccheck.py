"""Reads generated documents with the real parser and records trees, visits, lookups
and the results of the reading modes."""
from __future__ import annotations

import bisect

from vlib import gsyn
from vlib.pool import pmap

JUNK = ["hello world", "G99*G98*", "junk*G01*", "%XX*%%YY*%", "%XX12*%", "G99*", "%ADD5C,1*%", "%LPQ*%", "?", "&^#", "M99*", "%MOKM*%", "D1A*", "%TX.Part*%", "\u00e9\u00e8",
        "%FSLAX3Y36*%", "%AMX"]


def leaf_depths(nodes, depth=0):
    for n in nodes:
        name = type(n).__name__
        if name in ("AB", "SR"):
            yield n.open, depth + 1
            yield from leaf_depths(n.nodes, depth + 1)
            yield n.close, depth + 1
        elif name == "AM":
            yield n.open, depth + 1
            for p in n.primitives:
                yield p, depth + 1
            yield n.close, depth + 1
        else:
            yield n, depth


def newlines(text):
    return [i for i, ch in enumerate(text) if ch == "\n"]


def nodes_of(text, cmds, spans, tight):
    from vlib.pg import parse_source
    rec = {"src": cmds, "span": [list(s) for s in spans], "nl": newlines(text), "tight": tight, "nodes": [], "err": ""}
    try:
        ast = parse_source(text)
        for n, depth in leaf_depths(ast.nodes):
            si = n.source_info
            c = gsyn.node_cmd(n)
            for f in c["f"]:
                if f["t"] == "e" and not gsyn.measurable(f["e"]):
                    f["t"], f["s"], f["e"] = "s", "unreadable expression", []
            rec["nodes"].append({"c": c, "depth": depth, "loc": si.location, "len": si.length, "line": si.line, "col": si.column,
                                 "eline": si.end_line, "ecol": si.end_column})
    except Exception as e:  # noqa: BLE001
        rec["err"] = "parser raised " + repr(e)[:150]
    return rec


# -- visits
LABEL = {"on_ad_macro": "ADM", "on_ab_open": "ABo", "on_ab_close": "ABc", "on_am_open": "AMo", "on_am_close": "AMc",
         "on_sr_open": "SRo", "on_sr_close": "SRc", "on_assignment": "Pset", "on_constant": "n", "on_variable": "v",
         "on_coordinate_x": "X", "on_coordinate_y": "Y", "on_coordinate_i": "I", "on_coordinate_j": "J", "on_dnn": "Dnn"}
SKIP = {"on_file", "on_end_of_file", "on_exception", "on_ab", "on_am", "on_sr", "on_expression", "on_add", "on_sub", "on_mul", "on_div",
        "on_neg", "on_pos", "on_parenthesis", "on_point", "on_coordinate"}


def label(method):
    if method in LABEL:
        return LABEL[method]
    name = method[3:]
    if name.startswith("code_"):
        return "P" + name[5:]
    for k in ("ta", "tf", "to"):
        if name.startswith(k + "_"):
            rest = name[3:]
            if rest == "user_name":
                return k.upper() + "user"
            for cls, spec in gsyn.ATTR.items():
                if cls.lower().replace("_", "") == name.replace("_", ""):
                    return k.upper() + spec[0]
    return name.upper()


def visits_of(text, cmds, fail, policy):
    from pygerber.gerber.ast.ast_visitor import AstVisitor
    from vlib.pg import parse_source
    rec = {"src": cmds, "fail": fail, "policy": policy, "seen": [], "ends": 0, "exc": 0, "raised": False, "err": ""}
    try:
        ast = parse_source(text)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "parser raised " + repr(e)[:150]}
    leaves = {id(n): i for i, (n, _) in enumerate(leaf_depths(ast.nodes))}
    keep = [n for n, _ in leaf_depths(ast.nodes)]  # noqa: F841

    class Boom(Exception):
        pass

    class Rec(AstVisitor):
        def on_end_of_file(self, node):
            rec["ends"] += 1
            return super().on_end_of_file(node)

        def on_exception(self, node, exception):
            if isinstance(exception, Boom):
                rec["exc"] += 1
                return policy == "raise"
            return True

    def wrap(name):
        lab = label(name)

        def method(self, node):
            arg = str(node.value) if lab in "XYIJ" else ""
            rec["seen"].append([lab, arg])
            i = leaves.get(id(node))
            if i is not None and fail[i] and lab not in ("AD", "TA", "TF", "TO"):
                raise Boom
            return getattr(AstVisitor, name)(self, node)
        return method

    for name in dir(AstVisitor):
        if name.startswith("on_") and name not in SKIP:
            setattr(Rec, name, wrap(name))
    try:
        Rec().on_file(ast)
    except Boom:
        rec["raised"] = True
    except Exception as e:  # noqa: BLE001
        rec["err"] = "visitor raised " + repr(e)[:150]
    return rec


# -- lookup
def lookup_of(text, cmds, spans, points):
    from pygerber.gerber.ast.node_finder import NodeFinder, OneBasedPosition
    from vlib.pg import parse_source
    nl = newlines(text)
    rec = {"src": cmds, "span": [list(s) for s in spans], "nl": nl, "q": [], "err": ""}
    try:
        ast = parse_source(text)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "parser raised " + repr(e)[:150]}
    leaves = {id(n): i + 1 for i, (n, _) in enumerate(leaf_depths(ast.nodes))}
    finder = NodeFinder(ast)
    for line, col in points:
        try:
            n = finder.find_node(OneBasedPosition(line=line, column=col))
        except Exception as e:  # noqa: BLE001
            return {**rec, "err": "lookup raised " + repr(e)[:150]}
        rec["q"].append([line, col, 0 if n is None or n is ast else leaves.get(id(n), -1)])
    return rec


def points(r, text, spans):
    nl = newlines(text)

    def lc(off):
        k = bisect.bisect_left(nl, off)
        return k + 1, off + 1 if k == 0 else off - nl[k - 1]
    out = []
    for s, e in spans:
        out += [lc(s), lc(s + (e - s) // 2)]
        if s:
            out.append(lc(s - 1))
        if e < len(text):
            out.append(lc(e))
    for _ in range(6):
        out.append(lc(r.randrange(len(text) + 1)))
    out.append((len(nl) + 3, 1))
    out.append((r.randint(1, len(nl) + 1), 200))
    r.shuffle(out)
    return out[:25]


# -- modes
def modes_of(args):
    parts, items = args  # text of every item (one top level command or one unreadable line)
    from vlib.pg import parse_source
    text = "\n".join(parts) + "\n"
    lines, line = [], 1
    for p in parts:
        lines.append(line)
        line += p.count("\n") + 1
    rec = {"src": [], "items": items, "texts": ["" if k == "cmd" else p for k, p in zip(items, parts)], "lines": lines,
           "strict": True, "nstrict": 0, "prefixok": True, "nprefix": 0, "resok": True, "res": [], "same": True, "err": ""}
    try:
        rec["nstrict"] = len(parse_source(text).nodes)
    except Exception:  # noqa: BLE001
        rec["strict"] = False
    prefix = []
    try:
        prefix = parse_source(text, strict=False).nodes
        rec["nprefix"] = len(prefix)
    except Exception:  # noqa: BLE001
        rec["prefixok"] = False
    try:
        ast = parse_source(text, resilient=True)
        for n in ast.nodes:
            bad = type(n).__name__ == "Invalid"
            rec["res"].append({"kind": "junk" if bad else "cmd", "text": n.string if bad else "", "line": n.source_info.line})
        clean = "\n".join(p for k, p in zip(items, parts) if k == "cmd")
        if clean:
            want = [gsyn.node_cmd(n) for n in gsyn.flatten(parse_source(clean).nodes)]
            got = [gsyn.node_cmd(n) for n in gsyn.flatten([n for n in ast.nodes if type(n).__name__ != "Invalid"])]
            rec["same"] = want == got
            first = [gsyn.node_cmd(n) for n in gsyn.flatten(prefix)]
            rec["same"] = rec["same"] and first == want[:len(first)]
    except Exception:  # noqa: BLE001
        rec["resok"] = False
    return rec


def one(args):
    focus, cmds, text, spans, extra = args
    if focus == "nodes":
        return nodes_of(text, cmds, spans, extra)
    if focus == "visits":
        return visits_of(text, cmds, *extra)
    return lookup_of(text, cmds, spans, extra)


def groups(cmds):
    """Split a command list into top level items."""
    out, cur, depth = [], [], 0
    for c in cmds:
        cur.append(c)
        depth += c["k"] in ("ABo", "SRo", "AMo")
        depth -= c["k"] in ("ABc", "SRc", "AMc")
        if depth == 0 and not c["j"]:
            out.append(cur)
            cur = []
    return out


def run(ctx, focus, n):
    jobs = []
    for i in range(n):
        r = ctx.rng("doc", focus, i)
        g = gsyn.SynGen(r)
        if focus == "modes":
            parts, items = [], []
            for grp in groups(g.generate(r.randint(1, 6))):
                if grp[0]["j"]:  # one item is one node
                    grp = [dict(grp[0], j=0)]
                parts.append(gsyn.Writer().text(grp)[0].strip())
                items.append("cmd")
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                k = r.randint(0, len(items))
                parts.insert(k, r.choice(JUNK))
                items.insert(k, "junk")
            jobs.append((parts, items))
            continue
        cmds = g.generate(1 if r.random() < 0.1 else None)
        if focus == "visits":  # spacing does not matter here
            text, spans = gsyn.Writer(r).text(cmds)
            fail = [r.random() < 0.06 for _ in cmds] if r.random() < 0.5 else [False] * len(cmds)
            extra = (fail, r.choice(["raise", "continue"]))
        else:
            ws = r.choice([0, 0, 0.05]) if focus == "nodes" else 0
            w = gsyn.Writer(r, ws)
            text, spans = w.text(cmds)
            extra = points(r, text, spans) if focus == "lookup" else [ws == 0] * len(cmds)
        jobs.append((focus, cmds, text, spans, extra))
    recs, replay = [], {}
    for i, rec in enumerate(pmap(modes_of if focus == "modes" else one, jobs)):
        rec["id"] = i
        recs.append(rec)
        replay[i] = {"source": "\n".join(jobs[i][0]) if focus == "modes" else jobs[i][2]}
    ctx.sample(replay[0])
    ctx.note("commands", sum(len(r["src"] or r.get("items", [])) for r in recs))
    if focus == "lookup":
        ctx.note("positions", sum(len(r["q"]) for r in recs))
    ctx.validate("DocumentTrace", recs, constants={"Focus": f'"{focus}"'}, label=focus, replay=replay, chunk=1500)


INV = ["SearchAgrees", "FindsItself", "DepthOK", "ModesAgree"]


def model(ctx):
    ctx.model_check("DocumentMC", {"Size": str(ctx.n(3, 4)), "Cols": "2"}, invariants=INV, label="documents")
