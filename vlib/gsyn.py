"""Abstract Gerber syntax: command lists, a text writer with free lexical choices, an
independent strict reader, and an observer turning pygerber AST nodes into the same
command lists.

A command is {"k": kind, "j": 0/1, "f": [field...]}; `j` is 1 for a G code written
without its asterisk in front of the operation that follows.  A field is
  {"t": "-"}                           absent
  {"t": "s", "s": text}                text
  {"t": "n", "n": int, "d": int}       number n * 10**-d in lowest terms ("w": decimals written)
  {"t": "e", "e": [[k, a, b]...]}      macro expression tokens (see MacroExpr.tla)
"""
from __future__ import annotations

import re
from fractions import Fraction

NONE = {"t": "-", "s": "", "n": 0, "d": 0, "w": 0, "e": []}


def S(text):
    return {"t": "s", "s": text, "n": 0, "d": 0, "w": 0, "e": []}


def N(n, d=0, w=None):
    w = d if w is None else w
    while d and n % 10 == 0:
        n, d = n // 10, d - 1
    return {"t": "n", "s": "", "n": n, "d": d, "w": w, "e": []}


def E(tokens):
    return {"t": "e", "s": "", "n": 0, "d": 0, "w": 0, "e": tokens}


def cmd(k, *f, j=0):
    return {"k": k, "j": j, "f": list(f)}


NUMERIC_ATTR = {"TA.DrillTolerance", "TO.CRot", "TO.CHgt"}
PRIMS = {"1": (4, 5), "2": (7, 7), "4": (4, 99), "5": (6, 6), "6": (9, 9), "7": (6, 6), "20": (7, 7), "21": (6, 6),
         "22": (6, 6)}
GCODES = ["G01", "G02", "G03", "G36", "G37", "G54", "G55", "G70", "G71", "G74", "G75", "G90", "G91"]
OPS = {1: "+", 2: "-", 3: "x", 4: "/", 5: "(", 6: ")"}
DEFAULT = {"decimals": 3}


# -- writer ----------------------------------------------------------------------------
class Writer:
    """Text of a command list with layout and lexical freedom taken from `r`
    (None: canonical).  Returns (text, spans); spans[i] = (start, end) of command i."""

    def __init__(self, r=None, ws=0.0):
        self.r = r
        self.ws = ws

    def num(self, f):
        n, d = f["n"], f["d"]
        sign = "-" if n < 0 else ""
        digits = str(abs(n)).rjust(d + 1, "0")
        text = digits[:-d] + "." + digits[-d:] if d else digits
        if self.r is not None:
            q = self.r.random()
            if q < 0.1 and n >= 0:
                sign = "+"
            elif q < 0.2 and d:
                text += "0"
            elif q < 0.3 and d and text.startswith("0."):
                text = text[1:]
            elif q < 0.35:
                text = "0" + text
            elif q < 0.4 and not d:
                text += ".0"
        return sign + text

    def expr(self, f):
        out = []
        for k, a, b in f["e"]:
            if k == "o":
                out.append("X" if a == 3 and self.r is not None and self.r.random() < 0.3 else OPS[a])
            elif k == "v":
                out.append(f"${a}")
            else:
                d = len(str(b)) - 1
                t = Writer().num(N(a, d))
                if self.r is not None and d and t.startswith("0.") and self.r.random() < 0.2:
                    t = t[1:]
                out.append(t)
        return out

    def code(self, letter, n):
        if self.r is None:
            return f"{letter}{n:02d}"
        return letter + self.r.choice(["0", "0", "", "00"] if n < 10 else ["", "", "0"]) + str(n)

    def toks(self, c):
        k, f = c["k"], c["f"]
        num = self.num

        def opt(letter, x):
            if x["t"] == "-":
                return []
            return [letter + (x["s"] if x["t"] == "s" else num(x))]
        if k in ("D01", "D02", "D03"):
            out = []
            for letter, x in zip("XYIJ", f):
                out += opt(letter, x)
            return [*out, self.code("D", int(k[1:])), "*"]
        if k == "Dnn":
            return [f[0]["s"], "*"]
        if k == "G04":
            return [self.code("G", 4) + f[0]["s"] + "*"]
        if k in GCODES:
            return [self.code("G", int(k[1:])), *([] if c["j"] else ["*"])]
        if k in ("M00", "M01", "M02"):
            return [self.code("M", int(k[1:])), "*"]
        if k in ("LN", "IN"):
            return ["%", k, f[0]["s"] + "*", "%"]
        if k in ("LP", "LM", "MO", "IP", "AS"):
            return ["%", k, f[0]["s"], "*", "%"]
        if k in ("IR", "MI"):
            num = Writer().num
        if k in ("LR", "LS", "IR"):
            return ["%", k, num(f[0]), "*", "%"]
        if k in ("OF", "SF", "MI"):
            return ["%", k, *opt("A", f[0]), *opt("B", f[1]), "*", "%"]
        if k == "FS":
            return ["%", "FS" + f[0]["s"], f[1]["s"], f"X{f[2]['n']}{f[3]['n']}", f"Y{f[4]['n']}{f[5]['n']}", "*", "%"]
        if k == "ABo":
            return ["%", "AB", f[0]["s"], "*", "%"]
        if k in ("ABc", "SRc"):
            return ["%", k[:2], "*", "%"]
        if k == "SRo":
            out = ["%", "SR"]
            for letter, x in zip("XYIJ", f):
                out += opt(letter, x)
            return [*out, "*", "%"]
        if k in ("ADC", "ADR", "ADO", "ADP"):
            out = ["%", "AD", f[0]["s"], k[2] + ",", num(f[1])]
            for x in f[2:]:
                if x["t"] != "-":
                    out += ["X", num(x)]
            return [*out, "*", "%"]
        if k == "ADM":
            out = ["%", "AD", f[0]["s"], f[1]["s"]]
            for i, x in enumerate(f[2:]):
                out += ["X" if i else ",", num(x)]
            return [*out, "*", "%"]
        if k in ("TA", "TF", "TO"):
            out = ["%", k, f[0]["s"]]
            for x in f[1:]:
                out += ["," + (x["s"] if x["t"] == "s" else num(x))]
            return [*out, "*", "%"]
        if k == "TD":
            return ["%", "TD" + (f[0]["s"] if f[0]["t"] == "s" else "") + "*", "%"]
        if k == "AMo":
            return ["%", "AM", f[0]["s"], "*"]
        if k == "AMc":
            return ["%"]
        if k == "P0":
            return ["0" + f[0]["s"] + "*"]
        if k == "Pset":
            return [f[0]["s"], "=", *self.expr(f[1]), "*"]
        if k[0] == "P":
            out = [k[1:]]
            for x in f:
                out += [",", *self.expr(x)]
            return [*out, "*"]
        raise ValueError(k)

    def gap(self, between):
        r = self.r
        if r is None:
            return "\n" if between else ""
        if between:
            return r.choice(["\n", "\n", "\n", "\r\n", "\n\n", " ", "", "\n  ", "\t", "\n\t\n"])
        return r.choice([" ", "\n", "\t"]) if self.ws and r.random() < self.ws else ""

    def text(self, cmds):
        out, spans = "", []
        for i, c in enumerate(cmds):
            if i and not cmds[i - 1]["j"]:
                out += self.gap(True)
            elif i:
                out += self.gap(False)
            start = len(out)
            # blanks inside text that is taken literally would become part of it
            literal = c["k"] in ("G04", "LN", "IN", "TD", "P0", "TA", "TF", "TO")
            for q, t in enumerate(self.toks(c)):
                if q and not literal:
                    out += self.gap(False)
                out += t
            spans.append((start, len(out)))
        return out + (self.gap(True) if self.r is not None else "\n"), spans


# -- reader ----------------------------------------------------------------------------
class ReadError(Exception):
    pass


NUM = r"[+-]?(?:\d+\.\d+|\.\d+|\d+)"


def rnum(t):
    t = t.strip()
    if not re.fullmatch(NUM, t):
        raise ReadError(f"number {t!r}")
    a, _, b = t.partition(".")
    n = int((a + b).replace("+", "") or "0")
    if abs(n) >= 2 ** 31 or len(b) > 9:
        raise ReadError(f"number {t!r} outside the harness range")
    return N(n, len(b))


def rexpr(t):
    out = []
    pos = 0
    t = "".join(t.split())
    for m in re.finditer(r"\$(\d+)|(\d+\.\d+|\.\d+|\d+)|([-+xX/()])", t):
        if m.start() != pos:
            raise ReadError(f"expression {t!r}")
        pos = m.end()
        if m.group(1):
            out.append(["v", int(m.group(1)), 0])
        elif m.group(2):
            f = rnum(m.group(2))
            out.append(["n", f["n"], 10 ** f["d"]])
        else:
            out.append(["o", "+-xX/()".replace("X", "").index(m.group(3).lower()) + 1, 0])
    if pos != len(t) or not out:
        raise ReadError(f"expression {t!r}")
    return E(out)


def _coords(t, letters):
    """Split 'X1Y2' style text (blanks removed) into optional pieces."""
    out = []
    for letter in letters:
        m = re.match(letter + r"([+-]?[0-9.]+)", t)
        if m:
            out.append(m.group(1))
            t = t[m.end():]
        else:
            out.append(None)
    return out, t


def read(text):
    """Command list of `text` with, for every command, the white space in front of it:
    [(pre, command)...], trailing white space."""
    out = []
    pos = 0
    n = len(text)

    def ws():
        nonlocal pos
        m = re.compile(r"[ \t\r\n]*").match(text, pos)
        pos = m.end()
        return m.group(0)

    def until_star():
        nonlocal pos
        e = text.find("*", pos)
        if e < 0:
            raise ReadError("missing asterisk at " + text[pos:pos + 30])
        body = text[pos:e]
        pos = e + 1
        return body

    while True:
        pre = ws()
        if pos >= n:
            return out, pre
        if text[pos] == "%":
            pos += 1
            body = until_star().lstrip()
            if body.startswith("AM"):
                out.append((pre, cmd("AMo", S(body[2:].strip()))))
                while True:
                    pre = ws()
                    if pos >= n:
                        raise ReadError("unterminated macro")
                    if text[pos] == "%":
                        pos += 1
                        out.append((pre, cmd("AMc")))
                        break
                    out.append((pre, read_primitive(until_star())))
                continue
            ws()
            if pos >= n or text[pos] != "%":
                raise ReadError("missing percent at " + text[pos:pos + 30])
            pos += 1
            out.append((pre, read_extended(body)))
        else:
            body = until_star()
            m = re.match(r"(G0*(\d+))\s*", body)
            if m and m.group(2) == "4":
                out.append((pre, cmd("G04", S(body[len(m.group(1)):]))))
                continue
            if m:
                k = f"G{int(m.group(2)):02d}"
                if k not in GCODES:
                    raise ReadError(f"unknown {k}")
                rest = body[m.end():]
                out.append((pre, cmd(k, j=1 if rest.strip() else 0)))
                if not rest.strip():
                    continue
                pre = body[len(m.group(1)):m.end()]
                body = rest
            out.append((pre, read_word(body)))


def read_word(body):
    b = "".join(body.split())
    m = re.fullmatch(r"M0*([012])", b)
    if m:
        return cmd(f"M0{m.group(1)}")
    if re.fullmatch(r"D0*[1-9]\d+", b):
        return cmd("Dnn", S(b))
    vals, rest = _coords(b, "XYIJ")
    m = re.fullmatch(r"D0*([123])", rest)
    if not m:
        raise ReadError(f"word {body!r}")
    k = "D0" + m.group(1)
    fs = [NONE if v is None else S(v) for v in vals]
    if k == "D01":
        return cmd(k, *fs)
    if vals[2] is not None or vals[3] is not None:
        raise ReadError(f"offsets on {k}")
    return cmd(k, *fs[:2])


def read_primitive(body):
    b = body.strip()
    if b.startswith("$"):
        name, _, ex = b.partition("=")
        return cmd("Pset", S(name.strip()), rexpr(ex))
    if b.startswith("0"):
        return cmd("P0", S(b[1:]))
    code, *rest = b.split(",")
    code = code.strip()
    if code not in PRIMS:
        raise ReadError(f"primitive {body!r}")
    out = cmd("P" + code, *[rexpr(x) for x in rest])
    out["pw"] = [x[:len(x) - len(x.lstrip())] for x in rest]  # white space in front of the parameters
    return out


def read_extended(body):
    k = body[:2]
    b = body[2:]
    c = "".join(b.split())
    if k in ("TA", "TF", "TO"):
        name, *fields = b.split(",")
        name = name.strip()
        if k + name in NUMERIC_ATTR:
            return cmd(k, S(name), *[rnum(x) for x in fields])
        return cmd(k, S(name), *[S(x) for x in fields])
    if k == "TD":
        return cmd(k, S(b) if b else NONE)
    if k in ("LN", "IN"):
        return cmd(k, S(b))
    if k in ("LP", "LM", "MO", "IP", "AS"):
        return cmd(k, S(c))
    if k in ("LR", "LS", "IR"):
        return cmd(k, rnum(c))
    if k in ("OF", "SF", "MI"):
        vals, rest = _coords(c, "AB")
        if rest:
            raise ReadError(body)
        return cmd(k, *[NONE if v is None else rnum(v) for v in vals])
    if k == "FS":
        m = re.fullmatch(r"([LT]?)([AI])X(\d)(\d)Y(\d)(\d)", c)
        if not m:
            raise ReadError(body)
        return cmd(k, S(m.group(1)), S(m.group(2)), *[N(int(x)) for x in m.groups()[2:]])
    if k == "AB":
        return cmd("ABo", S(c)) if c else cmd("ABc")
    if k == "SR":
        if not c:
            return cmd("SRc")
        vals, rest = _coords(c, "XYIJ")
        if rest:
            raise ReadError(body)
        return cmd("SRo", *[NONE if v is None else rnum(v) for v in vals])
    if k == "AD":
        m = re.fullmatch(r"(D0*[1-9]\d+)([._a-zA-Z$][._a-zA-Z0-9]*)(?:,(.*))?", c)
        if not m:
            raise ReadError(body)
        idn, name, ps = m.groups()
        params = [rnum(x) for x in ps.split("X")] if ps is not None else []
        size = {"C": (1, 2), "R": (2, 3), "O": (2, 3), "P": (2, 4)}.get(name)
        if size is None:
            return cmd("ADM", S(idn), S(name), *params)
        if not size[0] <= len(params) <= size[1]:
            raise ReadError(body)
        return cmd("AD" + name, S(idn), *params, *[NONE] * (size[1] - len(params)))
    raise ReadError(body)


# -- observer of pygerber nodes -----------------------------------------------------------
def fnum(x):
    """A float the parser produced, as an exact decimal number."""
    if x is None:
        return NONE
    from decimal import Decimal
    t = format(Decimal(repr(float(x))), "f") if not isinstance(x, str) else x
    try:
        f = rnum(t)
    except ReadError:
        return S("number " + t)
    return f


def nexpr(node):
    """Tokens of an expression node, every operation in parentheses so that the nodes'
    own structure decides the meaning."""
    name = type(node).__name__
    if name == "Constant":
        f = fnum(node.constant)
        if f["t"] != "n":
            return [["n", 0, 1], ["o", 6, 0]]
        n = f["n"]
        return [["n", n, 10 ** f["d"]]] if n >= 0 else [["o", 5, 0], ["o", 2, 0], ["n", -n, 10 ** f["d"]], ["o", 6, 0]]
    if name == "Variable":
        return [["v", int(node.variable[1:]), 0]]
    if name == "Parenthesis":
        return nexpr(node.inner)
    if name in ("Neg", "Pos"):
        return [["o", 5, 0], ["o", 2 if name == "Neg" else 1, 0], *nexpr(node.operand), ["o", 6, 0]]
    op = {"Add": 1, "Sub": 2, "Mul": 3, "Div": 4}[name]
    out = nexpr(node.head)
    for t in node.tail:
        out = [["o", 5, 0], *out, ["o", op, 0], *nexpr(t), ["o", 6, 0]]
    return out


PRIM_FIELDS = {
    "Code1": ("exposure", "diameter", "center_x", "center_y", "rotation"),
    "Code2": ("exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"),
    "Code5": ("exposure", "number_of_vertices", "center_x", "center_y", "diameter", "rotation"),
    "Code6": ("center_x", "center_y", "outer_diameter", "ring_thickness", "gap_between_rings", "max_ring_count",
              "crosshair_thickness", "crosshair_length", "rotation"),
    "Code7": ("center_x", "center_y", "outer_diameter", "inner_diameter", "gap_thickness", "rotation"),
    "Code20": ("exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"),
    "Code21": ("exposure", "width", "height", "center_x", "center_y", "rotation"),
    "Code22": ("exposure", "width", "height", "x_lower_left", "y_lower_left", "rotation"),
}
ATTR = {
    "TA_AperFunction": (".AperFunction", "function", "*fields"),
    "TA_DrillTolerance": (".DrillTolerance", "#plus_tolerance", "#minus_tolerance"),
    "TA_FlashText": (".FlashText", "string", "mode", "mirroring", "font", "size", "*comments"),
    "TF_Part": (".Part", "part", "*fields"), "TF_FileFunction": (".FileFunction", "file_function", "*fields"),
    "TF_FilePolarity": (".FilePolarity", "polarity"), "TF_SameCoordinates": (".SameCoordinates", "identifier"),
    "TF_CreationDate": (".CreationDate", "creation_date"),
    "TF_GenerationSoftware": (".GenerationSoftware", "vendor", "application", "version"),
    "TF_ProjectId": (".ProjectId", "name", "guid", "revision"), "TF_MD5": (".MD5", "md5"),
    "TO_N": (".N", "*net_names"), "TO_P": (".P", "refdes", "number", "function"), "TO_C": (".C", "refdes"),
    "TO_CRot": (".CRot", "#angle"), "TO_CMfr": (".CMfr", "manufacturer"), "TO_CMNP": (".CMPN", "part_number"),
    "TO_CVal": (".CVal", "value"), "TO_CMnt": (".CMnt", "mount"), "TO_CFtp": (".CFtp", "footprint"),
    "TO_CPgN": (".CPgN", "name"), "TO_CPgD": (".CPgD", "description"), "TO_CHgt": (".CHgt", "#height"),
    "TO_CLbN": (".CLbN", "name"), "TO_CLbD": (".CLbD", "description"),
    "TO_CSup": (".CSup", "supplier", "supplier_part", "*other_suppliers"),
}


def _txt(v):
    if v is None:
        return NONE
    if hasattr(v, "isoformat"):
        return S(v.isoformat())
    v = getattr(v, "value", v)
    return S(str(v))


def node_cmd(n):
    """The command a (leaf) node stands for."""
    name = type(n).__name__
    if name in ("D01", "D02", "D03"):
        names = "xyij" if name == "D01" else "xy"
        return cmd(name, *[NONE if getattr(n, a) is None else S(str(getattr(n, a).value)) for a in names])
    if name == "Dnn":
        return cmd("Dnn", S(str(n.aperture_id)))
    if name == "G04":
        return cmd("G04", S(n.string or ""))
    if name in GCODES:
        return cmd(name, j=0 if n.is_standalone else 1)
    if name in ("M00", "M01", "M02"):
        return cmd(name)
    if name in ("LN", "IN"):
        return cmd(name, S(n.name))
    simple = {"LP": "polarity", "LM": "mirroring", "MO": "mode", "IP": "polarity", "AS": "correspondence"}
    if name in simple:
        return cmd(name, _txt(getattr(n, simple[name])))
    single = {"LR": "rotation", "LS": "scale", "IR": "rotation_degrees"}
    if name in single:
        return cmd(name, fnum(getattr(n, single[name])))
    if name == "OF":
        return cmd(name, fnum(n.a_offset), fnum(n.b_offset))
    if name == "SF":
        return cmd(name, fnum(n.a_scale), fnum(n.b_scale))
    if name == "MI":
        return cmd(name, fnum(n.a_mirroring), fnum(n.b_mirroring))
    if name == "FS":
        return cmd(name, _txt(n.zeros), _txt(n.coordinate_mode), N(n.x_integral), N(n.x_decimal), N(n.y_integral),
                   N(n.y_decimal))
    if name == "ABopen":
        return cmd("ABo", S(str(n.aperture_id)))
    if name == "ABclose":
        return cmd("ABc")
    if name == "SRopen":
        return cmd("SRo", *[NONE if v is None else fnum(str(v)) for v in (n.x, n.y, n.i, n.j)])
    if name == "SRclose":
        return cmd("SRc")
    if name == "ADC":
        return cmd(name, S(str(n.aperture_id)), fnum(n.diameter), fnum(n.hole_diameter))
    if name in ("ADR", "ADO"):
        return cmd(name, S(str(n.aperture_id)), fnum(n.width), fnum(n.height), fnum(n.hole_diameter))
    if name == "ADP":
        return cmd(name, S(str(n.aperture_id)), fnum(n.outer_diameter), fnum(n.vertices), fnum(n.rotation),
                   fnum(n.hole_diameter))
    if name == "ADmacro":
        return cmd("ADM", S(str(n.aperture_id)), S(n.name), *[fnum(x) for x in n.params or ()])
    if name in ("TA_UserName", "TF_UserName", "TO_UserName"):
        return cmd(name[:2], S(n.user_name), *[S(x) for x in n.fields])
    if name in ATTR:
        an, *fields = ATTR[name]
        out = [S(an)]
        for f in fields:
            if f[0] == "*":
                out += [_txt(x) for x in getattr(n, f[1:])]
            elif f[0] == "#":
                out.append(fnum(getattr(n, f[1:])))
            else:
                out.append(_txt(getattr(n, f)))
        while out[-1]["t"] == "-":
            out.pop()
        out = [S("") if x["t"] == "-" else x for x in out]
        return cmd(name[:2], *out)
    if name == "TD":
        return cmd("TD", _txt(n.name))
    if name == "AMopen":
        return cmd("AMo", S(n.name))
    if name == "AMclose":
        return cmd("AMc")
    if name == "Code0":
        return cmd("P0", S(n.string))
    if name == "Assignment":
        return cmd("Pset", S(n.variable.variable), E(nexpr(n.expression)))
    if name == "Code4":
        fs = [n.exposure, n.number_of_points, n.start_x, n.start_y]
        for p in n.points:
            fs += [p.x, p.y]
        return cmd("P4", *[E(nexpr(x)) for x in [*fs, n.rotation]])
    if name in PRIM_FIELDS:
        fs = [getattr(n, a) for a in PRIM_FIELDS[name]]
        return cmd("P" + name[4:], *[E(nexpr(x)) for x in fs if x is not None])
    return cmd("?" + name, S(getattr(n, "string", "")))


def flatten(nodes):
    """Leaf nodes of a File / block in document order."""
    for n in nodes:
        name = type(n).__name__
        if name in ("AB", "SR"):
            yield n.open
            yield from flatten(n.nodes)
            yield n.close
        elif name == "AM":
            yield n.open
            yield from n.primitives
            yield n.close
        else:
            yield n


# -- generator -------------------------------------------------------------------------
VAL = [{k: Fraction(k + 1) for k in range(10)}, {k: Fraction(2 * k - 5, 4) for k in range(10)}]


def value(ts, env, limit=20000):
    """Value of tokens; raises ReadError when malformed, divided by zero or too large."""
    def chk(v):
        if abs(v.numerator) > limit or v.denominator > limit:
            raise ReadError("range")
        return v

    def factor(p):
        if p >= len(ts):
            raise ReadError("short")
        k, a, b = ts[p]
        if k == "o":
            if a == 2:
                v, p = factor(p + 1)
                return -v, p
            if a == 1:
                return factor(p + 1)
            if a == 5:
                v, p = expr(p + 1)
                if p >= len(ts) or ts[p][:2] != ["o", 6]:
                    raise ReadError("paren")
                return v, p + 1
            raise ReadError("operator")
        if k == "n":
            return chk(Fraction(a, b)), p + 1
        return env.get(a, Fraction(0)), p + 1

    def chain(p, sub, ops):
        v, p = sub(p)
        while p < len(ts) and ts[p][0] == "o" and ts[p][1] in ops:
            o = ts[p][1]
            w, p = sub(p + 1)
            if o == 4 and w == 0:
                raise ReadError("division")
            v = chk({1: lambda: v + w, 2: lambda: v - w, 3: lambda: v * w, 4: lambda: v / w}[o]())
        return v, p

    def term(p):
        return chain(p, factor, (3, 4))

    def expr(p):
        return chain(p, term, (1, 2))

    v, p = expr(0)
    if p != len(ts):
        raise ReadError("rest")
    return v


def measurable(ts):
    try:
        for env in VAL:
            value(ts, env)
        return True
    except ReadError:
        return False


def round_tokens(ts, places):
    """Tokens with numbers rounded the way `places` decimals would."""
    if places < 0:
        return ts
    out = []
    for k, a, b in ts:
        if k == "n" and b > 10 ** places:
            q = b // 10 ** places
            out.append(["n", (2 * a + q) // (2 * q), 10 ** places])
        else:
            out.append([k, a, b])
    return out


WORDS = ["Alpha", "beta2", "R1", "C12", "GND", "net 5", "a_b", "x.y", "Q(7)", "u-1", "100n", "", "Long text with = signs",
         "\u00b5F"]


class SynGen:
    def __init__(self, r, places=-1, deep=True):
        self.r = r
        self.places = places
        self.deep = deep

    def tie(self, n, d):
        """Rounding n*10**-d to `places` would be a tie (left open)."""
        if self.places < 0 or d <= self.places:
            return False
        q = 10 ** (d - self.places)
        return 2 * (abs(n) % q) == q

    def num(self, pos=True, maxint=20):
        r = self.r
        while True:
            d = r.choice([0, 0, 1, 2, 3, 3, 4, 5, 6])
            n = r.choice([r.randrange(0, maxint * 10 ** d + 1), r.randrange(0, maxint + 1) * 10 ** d, r.randrange(0, 30), 10 ** r.randrange(0, d + 1), 100 * 10 ** d])
            if not pos and r.random() < 0.4:
                n = -n
            if not self.tie(n, d):
                return N(n, d)

    def word(self, empty=True):
        while True:
            w = self.r.choice(WORDS)
            if w or empty:
                return w

    def coord(self):
        r = self.r
        return r.choice(["", "", "-", "+"]) + str(r.choice([0, 5, 100, 12345, 1000000, r.randrange(10 ** 7)])).zfill(r.choice([1, 1, 4]))

    def expr(self, depth=2):
        r = self.r
        while True:
            ts = self._expr(depth if r.random() < 0.6 else 0)
            if measurable(ts) and (self.places < 0 or measurable(round_tokens(ts, self.places))):
                return E(ts)

    def _expr(self, d):
        r = self.r

        def factor(d, plus=True):
            q = r.random()
            if q < 0.12:
                return [["o", 2, 0], *factor(d, False)]
            if q < 0.15 and plus:
                return [["o", 1, 0], *factor(d)]
            if q < 0.33 and d > 0:
                return [["o", 5, 0], *self._expr_in(d - 1), ["o", 6, 0]]
            if q < 0.6:
                return [["v", r.randrange(1, 5), 0]]
            while True:
                dd = r.choice([0, 0, 1, 2, 3])
                n = r.choice([1, 2, 3, 5, 7, 10, 100, 120]) if dd == 0 else r.choice([1, 3, 7, 12, 15, 125, 10, 2500]) % (10 ** (dd + 1))
                if not self.tie(n, dd):
                    return [["n", n, 10 ** dd]]
        self._factor = factor
        out = factor(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3] if d else [0, 0, 0, 1])):
            out += [["o", r.choice([1, 2, 2, 3, 3, 4]), 0], *factor(d)]
        return out

    def _expr_in(self, d):
        """Expression inside parentheses; a leading plus sign there could end up directly
        behind a minus sign when parentheses are rewritten, which the language has no
        notation for."""
        while True:
            ts = self._expr(d)
            if ts[0][:2] != ["o", 1]:
                return ts

    def primitive(self):
        r = self.r
        q = r.random()
        if q < 0.1:
            return cmd("P0", S(r.choice([" comment", " Alpha, beta", " 1,1,$1,2,3"])))
        if q < 0.3:
            return cmd("Pset", S(f"${r.randrange(1, 6)}"), self.expr())
        code = r.choice(["1", "1", "2", "20", "21", "22", "4", "5", "6", "7"])
        lo, hi = PRIMS[code]
        n = r.randint(lo, hi) if code != "4" else 4 + 2 * r.randint(1, 4) + 1
        deep = 2 if code in ("1", "5", "7") else 0
        return cmd("P" + code, *[self.expr(deep if r.random() < 0.4 else 0) for _ in range(n)])

    def macro(self):
        return [cmd("AMo", S(self.r.choice(["MAC", "Donut", "_m.1", "$x", "RoundRect"]))),
                *[self.primitive() for _ in range(self.r.randint(0, 3))], cmd("AMc")]

    def dcode(self):
        r = self.r
        k = r.choice(["D01", "D01", "D02", "D03", "Dnn"])
        if k == "Dnn":
            return cmd("Dnn", S(r.choice(["D10", "D11", "D123", "D010"])))
        return cmd(k, *[S(self.coord()) if r.random() < 0.6 else NONE for _ in range(4 if k == "D01" else 2)])

    def attribute(self):
        r = self.r
        k = r.choice(["TA", "TF", "TO"])
        if r.random() < 0.25:
            return cmd(k, S(r.choice(["User", "_u1", "$v", "my.attr"])), *[S(self.word()) for _ in range(r.randint(0, 3))])
        name = r.choice([x for x in ATTR if x.startswith(k)])
        an, *fields = ATTR[name]
        out = []
        fixed = {"function": ["ViaDrill", "ComponentDrill", "SMDPad", "Other", "Profile"], "mode": ["B", "C"],
                 "mirroring": ["R", "M"], "part": ["Single", "Array", "Other"], "polarity": ["Positive", "Negative"],
                 "file_function": ["Copper", "Profile", "Soldermask", "Other", "Vcut"], "mount": ["SMD", "TH", "Other"],
                 "md5": ["0123456789abcdef0123456789abcdef"],
                 "creation_date": ["2024-03-01T12:30:05", "2001-12-31T00:00:00+02:00", "2020-02-29T23:59:59-05:30"]}
        optional = {"TA_AperFunction": 0, "TA_DrillTolerance": 0, "TF_SameCoordinates": 0, "TF_GenerationSoftware": 0,
                    "TF_ProjectId": 0, "TO_P": 2}
        for f in fields:
            if name in optional and f[0] != "*" and len(out) >= optional[name] and r.random() < 0.3:
                break
            if f[0] == "*":
                out += [S(self.word()) for _ in range(r.choice([0, 0, 1, 2]))]
            elif f[0] == "#":
                out.append(self.num(name == "TA_DrillTolerance"))
            elif f in fixed and not (name == "TO_P" and f == "function"):
                out.append(S(r.choice(fixed[f])))
            else:
                out.append(S(self.word()))
        return cmd(k, S(an), *out)

    def command(self):
        r = self.r
        q = r.random()
        if q < 0.25:
            return [self.dcode()]
        if q < 0.33:
            return [cmd(r.choice(GCODES))]
        if q < 0.43:
            g = r.choice(GCODES)
            return [cmd(g, j=1), self.dcode()]
        if q < 0.47:
            return [cmd("G04", S(r.choice(["", " comment", " a,b=c", " #@! TF.Part,Single", "x"])))]
        if q < 0.6:
            k = r.choice(["LN", "LP", "LP", "LR", "LS", "LM"])
            return [cmd(k, {"LN": lambda: S(self.word(False)), "LP": lambda: S(r.choice("CD")), "LR": lambda: self.num(False, 360),
                            "LS": self.num, "LM": lambda: S(r.choice(["N", "X", "Y", "XY"]))}[k]())]
        if q < 0.72:
            return [self.aperture()]
        if q < 0.84:
            return [self.attribute()]
        if q < 0.88:
            return [cmd("TD", S(r.choice([".AperFunction", "User", "_u1", ".P"])) if r.random() < 0.7 else NONE)]
        if q < 0.97:
            k = r.choice(["FS", "MO", "IP", "IR", "OF", "AS", "MI", "IN", "SF"])
            opt = (lambda f: f() if r.random() < 0.7 else NONE)
            return [{"FS": lambda: cmd("FS", S(r.choice(["L", "L", "T", ""])), S(r.choice("AAI")), *[N(r.randrange(0, 8)) for _ in range(4)]),
                     "MO": lambda: cmd("MO", S(r.choice(["IN", "MM"]))), "IP": lambda: cmd("IP", S(r.choice(["POS", "NEG"]))),
                     "IR": lambda: cmd("IR", N(90 * r.randrange(4))), "AS": lambda: cmd("AS", S(r.choice(["AXBY", "AYBX"]))),
                     "OF": lambda: cmd("OF", opt(self.num), opt(self.num)), "SF": lambda: cmd("SF", opt(self.num), opt(self.num)),
                     "MI": lambda: cmd("MI", opt(lambda: N(r.choice([0, 1]))), opt(lambda: N(r.choice([0, 1])))),
                     "IN": lambda: cmd("IN", S(self.word(False)))}[k]()]
        return [cmd(r.choice(["M00", "M01", "M02"]))]

    def aperture(self):
        r = self.r
        idn = S(f"D{r.randrange(10, 20)}")
        k = r.choice(["ADC", "ADR", "ADO", "ADP", "ADM"])
        opt = (lambda f: f() if r.random() < 0.5 else NONE)
        if k == "ADC":
            return cmd(k, idn, self.num(), opt(self.num))
        if k in ("ADR", "ADO"):
            return cmd(k, idn, self.num(), self.num(), opt(self.num))
        if k == "ADP":
            rot = opt(lambda: self.num(False, 360))
            return cmd(k, idn, self.num(), N(r.randrange(3, 13)), rot, opt(self.num) if rot["t"] != "-" else NONE)
        return cmd(k, idn, S(r.choice(["MAC", "Donut", "_m.1", "CC", "Rect"])), *[self.num(False) for _ in range(r.randint(0, 4))])

    def block(self, depth, inner):
        r = self.r
        out = []
        for _ in range(r.randint(0, 4)):
            q = r.random()
            if depth and q < 0.15 and inner != "SR":
                out += [cmd("ABo", S("D30")), *self.block(depth - 1, "AB"), cmd("ABc")]
            elif q < 0.2:
                out += self.macro()
            else:
                out += self.command()
        return out

    def generate(self, n=None):
        r = self.r
        out = []
        for _ in range(n or r.randint(1, 9)):
            q = r.random()
            if q < 0.07:
                out += [cmd("ABo", S("D2" + str(r.randrange(10)))), *self.block(2, "AB"), cmd("ABc")]
            elif q < 0.14:
                opt = [N(r.randint(1, 4)), N(r.randint(1, 4)), self.num(), self.num()]
                opt = [x if r.random() < 0.85 else NONE for x in opt]
                if all(x["t"] == "-" for x in opt):
                    opt[r.randrange(2)] = N(2)
                out += [cmd("SRo", *opt), *self.block(1, "SR"), cmd("SRc")]
            elif q < 0.24:
                out += self.macro()
            else:
                out += self.command()
        return out
