"""Drives the real formatter on generated sources and records what it wrote."""
from __future__ import annotations

from vlib import gsyn
from vlib.pool import pmap

WS = {" ": "s", "\t": "t", "\n": "n", "\r": "r"}


def enc(ws):
    return "".join(WS[c] for c in ws)


def options(r):
    """Random option set: (kwargs for Options, record for the specification)."""
    def indent():
        return r.choice([0, 0, 1, 2, 4, "\t", "  \t"])
    char = r.choice([" ", " ", "\t"])
    o = {"indent_character": char, "line_end": r.choice(["\n", "\n", "\r\n"]),
         "float_decimal_places": r.choice([-1, -1, 0, 1, 2, 3, 4, 6]),
         "float_trim_trailing_zeros": r.choice(["Yes", "Yes", "No"]),
         "macro_split_mode": r.choice(["NoSplit", "SplitOnPrimitives", "SplitOnParameters"]),
         "macro_end_in_new_line": r.choice(["Yes", "No"]), "empty_line_before_polarity_switch": r.choice(["Yes", "No"]),
         "keep_non_standalone_codes": r.choice(["Keep", "SeparateCodes"]), "remove_g54": r.choice(["Remove", "Keep"]),
         "remove_g55": r.choice(["Remove", "Keep"]), "explicit_parenthesis": r.choice(["AddExplicit", "KeepOriginal"]),
         "strip_whitespace": r.choice(["StripAll", "Default", "Default", "Default"])}
    for k in ("macro_body_indent", "macro_param_indent", "block_aperture_body_indent", "step_and_repeat_body_indent", "d01_indent",
              "d02_indent", "d03_indent"):
        o[k] = indent()
    return o


def spec_options(o):
    def ind(v):
        return enc(o["indent_character"] * v if isinstance(v, int) else v)
    return {"places": o["float_decimal_places"], "trim": o["float_trim_trailing_zeros"] == "Yes",
            "sep": o["keep_non_standalone_codes"] == "SeparateCodes", "rg54": o["remove_g54"] == "Remove",
            "rg55": o["remove_g55"] == "Remove", "expl": o["explicit_parenthesis"] == "AddExplicit",
            "strip": o["strip_whitespace"] == "StripAll", "lf": enc(o["line_end"]),
            "split": {"NoSplit": "no", "SplitOnPrimitives": "prim", "SplitOnParameters": "param"}[o["macro_split_mode"]],
            "mend": o["macro_end_in_new_line"] == "Yes", "empty": o["empty_line_before_polarity_switch"] == "Yes",
            "mbody": ind(o["macro_body_indent"]), "mparam": ind(o["macro_param_indent"]), "ab": ind(o["block_aperture_body_indent"]),
            "sr": ind(o["step_and_repeat_body_indent"]), "d1": ind(o["d01_indent"]), "d2": ind(o["d02_indent"]),
            "d3": ind(o["d03_indent"])}


def observe(text):
    """Commands, white space and final white space of formatted text."""
    pairs, trail = gsyn.read(text)
    out = []
    depth = 0
    macro = False
    for pre, c in pairs:
        if c["k"] in ("ABc", "SRc"):
            depth -= 1
        if c["k"] == "AMc" or gsyn_prim(c["k"]):
            macro = True
        # white space around the parts of a macro inside a block is not judged
        nest = (macro or c["k"] == "AMc") and depth > 0
        for f in c["f"]:
            if f["t"] == "e" and not gsyn.measurable(f["e"]):
                f["t"], f["s"], f["e"] = "s", "unreadable expression", []
        out.append({"pre": enc(pre), "pw": [enc(x) for x in c.pop("pw", [])], "c": c, "nest": bool(nest or (depth > 0 and prev_macro_end(out)))})
        if c["k"] in ("ABo", "SRo"):
            depth += 1
        macro = False
    return out, enc(trail)


def gsyn_prim(k):
    return k[0] == "P"


def prev_macro_end(out):
    return bool(out) and out[-1]["c"]["k"] == "AMc"


def run_one(args):
    cmds, text, opt, style = args
    from pygerber.gerber.formatter import Formatter, Options, format, formats
    from vlib.pg import parse_source as parse
    from io import StringIO
    rec = {"src": cmds, "o": spec_options(opt), "out": [], "trail": "", "err": "", "reparse": True, "again": True, "fixed": True}
    one = two = ""
    try:
        ast = parse(text)
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "source does not parse: " + repr(e)[:120]}, one, two
    try:
        options_ = Options(**opt)
        if style == 0:
            one = formats(ast, options_)
        elif style == 1:
            buf = StringIO()
            format(ast, buf, options_)
            one = buf.getvalue()
        else:  # one formatter object used repeatedly
            fm = Formatter(options_)
            first = fm.formats(ast)
            one = fm.formats(ast)
            rec["fixed"] = first == one
        rec["out"], rec["trail"] = observe(one)
    except gsyn.ReadError as e:
        return {**rec, "err": "output is not readable: " + str(e)[:120]}, one, two
    except Exception as e:  # noqa: BLE001
        return {**rec, "err": "formatter raised " + repr(e)[:120]}, one, two
    if not one.strip():  # nothing left, nothing to parse
        return rec, one, two
    try:
        again = parse(one)
    except Exception:  # noqa: BLE001
        rec["reparse"] = False
        return rec, one, two
    try:
        two = formats(again, options_)
        rec["again"] = two == one
    except Exception:  # noqa: BLE001
        rec["again"] = False
    return rec, one, two


def generate(ctx, n):
    jobs = []
    for i in range(n):
        r = ctx.rng("fmt", i)
        opt = options(r)
        g = gsyn.SynGen(r, opt["float_decimal_places"])
        cmds = g.generate()
        text, _ = gsyn.Writer(r, r.choice([0, 0, 0.05])).text(cmds)
        jobs.append((cmds, text, opt, r.randrange(3)))
    return jobs


def run(ctx, focus, n, label):
    jobs = generate(ctx, n)
    recs, replay = [], {}
    kinds = {}
    for i, (rec, one, two) in enumerate(pmap(run_one, jobs)):
        rec["id"] = i
        recs.append(rec)
        replay[i] = {"source": jobs[i][1], "options": jobs[i][2], "output": one, "second": two}
        for c in jobs[i][0]:
            kinds[c["k"]] = kinds.get(c["k"], 0) + 1
    ctx.note("commands_formatted", kinds)
    ctx.sample({"source": jobs[0][1], "options": jobs[0][2], "output": replay[0]["output"]})
    ctx.validate("FormatTrace", recs, constants={"Focus": f'"{focus}"'}, label=label, replay=replay, chunk=1500)
