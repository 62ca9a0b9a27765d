"""Conversations with the real language server over its standard input and output."""
from __future__ import annotations

import base64
import ctypes
import hashlib
import io
import json
import os
import random
import re
import select
import signal
import subprocess
import sys
import time

from vlib import gstate
from vlib.pool import pmap

WAIT = 100  # seconds without an answer


class Dead(Exception):
    pass


class Client:
    """The server and a minimal client for it."""

    def __init__(self):
        # the server goes with this process
        def die():
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        self.proc = subprocess.Popen([sys.executable, "-m", "pygerber.gerber.language_server", "--quiet"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, preexec_fn=die, cwd="/",
                                     env={**os.environ, "PYTHONPATH": os.environ.get("VERIF_REPO_SRC", "/repo/src"), "PYTHONDONTWRITEBYTECODE": "1"})
        self.buf = b""
        self.n = 0
        self.got = {}
        i = self.request("initialize", {"processId": None, "rootUri": None, "capabilities": {}})
        self.flush()
        self.wait(i)
        self.note("initialized", {})
        self.flush()

    out = b""

    def _put(self, m):
        b = json.dumps({"jsonrpc": "2.0", **m}).encode()
        self.out += b"Content-Length: %d\r\n\r\n" % len(b) + b

    def flush(self):
        try:
            self.proc.stdin.write(self.out)
            self.proc.stdin.flush()
        except OSError as e:
            raise Dead("server ended") from e
        finally:
            self.out = b""

    def request(self, method, params):
        self.n += 1
        self._put({"id": self.n, "method": method, "params": params})
        return self.n

    def note(self, method, params):
        self._put({"method": method, "params": params})

    def _message(self):
        end = time.time() + WAIT
        while True:
            m = re.match(rb"(?s)(.*?)\r\n\r\n", self.buf)
            if m:
                n = int(re.search(rb"(?i)content-length:\s*(\d+)", m.group(1)).group(1))
                if len(self.buf) >= m.end() + n:
                    body = self.buf[m.end():m.end() + n]
                    self.buf = self.buf[m.end() + n:]
                    return json.loads(body)
            if not select.select([self.proc.stdout], [], [], max(0, end - time.time()))[0]:
                raise Dead("no answer")
            more = os.read(self.proc.stdout.fileno(), 1 << 16)
            if not more:
                raise Dead("server ended")
            self.buf += more

    def answer(self):
        """The next answer that comes."""
        while True:
            m = self._message()
            if "id" in m and "method" not in m:
                return m

    def wait(self, i):
        while True:
            m = self.answer()
            if m["id"] == i:
                return m

    def close(self):
        self.proc.kill()
        self.proc.wait()


CLIENT = None


def client():
    global CLIENT
    if CLIENT is None:
        CLIENT = Client()
    return CLIENT


def drop():
    global CLIENT
    if CLIENT is not None:
        CLIENT.close()
        CLIENT = None


# ---------------------------------------------------------------- documents
FORMATS = [dict(c="FS", z="L", m="A", xi=3, xd=4, yi=3, yd=4), dict(c="FS", z="L", m="A", xi=2, xd=6, yi=2, yd=6), dict(c="FS", z="T", m="A", xi=3, xd=4, yi=4, yd=3)]
JUNK = [("G", "G"), ("G0", "G"), ("G", "G"), ("D", "D"), ("D1", "D"), ("D", "D"), ("%", "%"), ("%", "%"), ("foo", "other"), ("Q1", "other")]
TAN = [".AperFunction", ".FlashText", "userA", "userB"]
TON = [".N", ".C", ".P", ".CMfr", ".CVal", ".CFtp", "userO", "userA"]


class Doc:
    """Units of a document; `fs` is the coordinate format at its beginning."""

    def __init__(self, r: random.Random):
        self.r = r
        self.k = r.randrange(10, 90)
        self.wild = r.random() < 0.12
        self.focus = not self.wild and r.random() < 0.35  # apertures come and go
        self.fs = r.choice(FORMATS)
        self.nid = 10
        self.units = []
        self.ids = []
        if not self.wild or r.random() < 0.5:
            self.units.append(self.fs)
        self.units.append(dict(c="MO", v=r.choice(["MM", "MM", "IN"])))
        for _ in range(r.randrange(0, 4)):
            self.units.append(self.ad())
        if self.ids and r.random() < 0.8:
            self.units.append(dict(c="Dnn", id=r.choice(self.ids)))
        for _ in range(r.randrange(2, 14)):
            self.units.extend(self.some(True))
        if self.focus:
            self.units += [dict(c="JUNK", text=t, t=t) for t in r.choice([["D"], ["%"], ["D", "%"]])]
        if r.random() < 0.4:
            self.units.append(dict(c="M02"))

    def new(self):
        self.nid += self.r.choice([1, 1, 1, 3])
        self.ids.append(self.nid - 1)
        return self.nid - 1

    def ad(self):
        return dict(c="AD", id=self.new(), t=self.r.choice("CCCROP"))

    def op(self, c):
        r = self.r
        out = dict(c=c, x=[], y=[], i=[], j=[])
        for a, d, p in (("x", self.fs["xd"], 0.75), ("y", self.fs["yd"], 0.75), ("i", self.fs["xd"], 0.5), ("j", self.fs["yd"], 0.5)):
            if (a in "xy" or c == "D01") and r.random() < p:
                out[a] = [r.choice([0, 500000, 1000000, -1000000, r.randrange(-80, 80) * 100000, r.randrange(-800, 800) * 10 ** (6 - min(d, 4))])]
        return out

    def simple(self):
        r = self.r
        q = r.random()
        self.k += 1
        if q < 0.25:
            return self.op("D01")
        if q < 0.37:
            return self.op("D02")
        if q < 0.5:
            return self.op("D03") if self.ids or self.wild else self.op("D02")
        if q < 0.62:
            return dict(c=r.choice(["G01", "G02", "G03", "G75", "G75", "G74", "G04"]))
        if q < 0.7:
            k = r.choice(["LP", "LM", "LR", "LS"])
            return dict(c=k, v={"LP": r.choice("DC"), "LM": r.choice(["N", "X", "Y", "XY"]), "LR": r.choice([0, 90000, 45500]), "LS": r.choice([1000, 500, 2000])}[k])
        if q < 0.8 and (self.ids or self.wild):
            return dict(c="Dnn", id=r.choice(self.ids) if self.ids and not (self.wild and r.random() < 0.3) else 77)
        if q < 0.84:
            return dict(c="TD", name=r.choice(["", r.choice(TAN), r.choice(TON)]))
        if q < 0.92:
            return dict(c="TA", name=r.choice(TAN), k=self.k) if r.random() < 0.5 else dict(c="TO", name=r.choice(TON), k=self.k)
        return self.op("D01")

    def some(self, top):
        r = self.r
        q = r.random()
        if q < 0.06:
            return [self.ad()]
        if q < 0.09:
            i = self.new()
            return [dict(c="AM", name=f"M{i}"), dict(c="AD", id=i, t="M", m=f"M{i}")]
        if q < 0.16 and top:
            body = [x for _ in range(r.randrange(1, 5)) for x in self.some(False)]
            if r.random() < 0.5:
                return [dict(c="SRo"), *body, dict(c="SRc")]
            i = self.new()
            if self.ids[:-1] and r.random() < 0.6:
                body = [dict(c="Dnn", id=r.choice(self.ids[:-1])), *[self.op(r.choice(["D02", "D03", "D01"])) for _ in range(r.randrange(1, 4))]]
            return [dict(c="ABo", id=i), *body, dict(c="ABc")]
        if q < 0.24 and top:
            t, kind = r.choice(JUNK)
            return [dict(c="JUNK", text=t, t=kind)]
        if q < 0.3:
            return [dict(c="G36"), *[self.op(r.choice(["D01", "D02"])) for _ in range(r.randrange(1, 4))], dict(c="G37")]
        return [self.simple()]

    def edited(self):
        """Another version; coordinates are always written in the format at the beginning."""
        r = self.r
        n = list(self.units)
        depth, ok = 0, []
        for i, u in enumerate(n):
            depth += {"ABo": 1, "SRo": 1, "ABc": -1, "SRc": -1}.get(u["c"], 0)
            if u["c"] not in ("FS", "ABo", "SRo", "ABc", "SRc"):
                ok.append(i)
        used = {u["id"] for u in n if u["c"] == "Dnn"}
        ads = [i for i, u in enumerate(n) if u["c"] == "AD" and u["t"] != "M" and u["id"] not in used]
        if self.focus and r.random() < 0.75:
            q = r.random()
            if ads and q < 0.35:
                i = r.choice(ads)
                self.ids = [x for x in self.ids if x != n[i]["id"]]
                del n[i]
            elif ads and q < 0.6:
                i = r.choice(ads)
                n[i] = dict(n[i], t=r.choice("CROP"))
            else:
                n.insert(2, self.ad())
            self.units = n
            return
        for _ in range(r.choice([1, 1, 1, 2])):
            ok = [i for i in ok if i < len(n)]
            q = r.random()
            if q < 0.35 and ok:
                del n[r.choice(ok)]
                break
            i = r.randrange(1, len(n) + 1) if n else 0
            level = sum({"ABo": 1, "SRo": 1, "ABc": -1, "SRc": -1}.get(u["c"], 0) for u in n[:i])
            if q < 0.7 or not ok:
                n[i:i] = self.some(level == 0)
                break
            j = r.choice(ok)
            n[j] = self.simple()
        self.units = n

    def text(self):
        """The text and the units with their places."""
        w = gstate.Renderer()
        w.fs = self.fs
        gstate.fill(self.units)
        out, units, line, col = "", [], 0, 0
        glue = random.Random(repr(self.k))
        for k, u in enumerate(self.units):
            if u["c"] == "JUNK":
                s = u["text"]
            elif u["c"] == "ABo":
                s = f"%ABD{u['id']}*%"
            elif u["c"] == "SRo":
                s = "%SRX2Y1I1.5J0*%"
            elif u["c"] in ("ABc", "SRc"):
                s = f"%{u['c'][:2]}*%"
            else:
                s = w.cmd(u)
            if out and (col == 0 or u["c"] != "JUNK" and self.units[k - 1]["c"] != "JUNK" and glue.random() < 0.15):
                pass
            elif out:
                out += "\n"
                line, col = line + 1, 0
            units.append({**u, "text": s, "line": line, "col": col, "len": len(s)})
            out += s
            col += len(s)
        # "%" must not swallow the command that follows
        return out + "\n", units


def fixed(name, focus):
    """Small documents for conversations of the model."""
    d = Doc(random.Random(name))
    d.wild, d.focus = False, focus
    d.fs = FORMATS[0]
    ad = dict(c="AD", id=10, t="C")
    d.ids, d.nid = [10], 11
    d.units = {"open": [d.fs, dict(c="MO", v="MM"), ad, dict(c="Dnn", id=10), dict(c="D02", x=[1000000], y=[0], i=[], j=[]), dict(c="JUNK", text="D", t="D"),
                        dict(c="D01", x=[2000000], y=[1000000], i=[], j=[])]}[name]
    return d


# ---------------------------------------------------------------- observation
def number(s, scale=10**6):
    return gstate.lattice(float(s), scale)


def point(md, label):
    m = re.search(label + r":[^\n]*?_x =_ `([^`]*)`\s*_y =_ `([^`]*)`", md)
    return [number(m.group(1)), number(m.group(2))] if m else []


def attributes(md, title):
    m = re.search(r"### " + title + r"[^\n]*\n(.*?)(?:\n---|\Z)", md, re.S)
    out = []
    for ln in m.group(1).splitlines() if m else []:
        if ln.startswith("-"):
            name = re.search(r"[`(](\.[A-Z]\w*|user\w)`", ln)
            k = re.findall(r"`k(\d+)`", ln)
            out.append([name.group(1) if name else ln, int(k[0]) if k else -1])
    return sorted(out)


def picture(md):
    m = re.search(r"base64,([A-Za-z0-9+/=]*)", md)
    if not m:
        return None
    from PIL import Image
    im = Image.open(io.BytesIO(base64.b64decode(m.group(1))))
    return hashlib.md5(repr((im.mode, im.size)).encode() + im.tobytes()).hexdigest()


CACHE = {}


def reference(text):
    """The picture of a document that does nothing else."""
    if text not in CACHE:
        from pygerber.gerber.compiler import compile
        from pygerber.gerber.parser import parse
        from pygerber.vm import render
        from pygerber.vm.types.style import Style
        try:
            code = compile(parse(text))
            dpmm = 200 / render(code, dpmm=1).main_box.width
            im = render(code, dpmm=dpmm).get_image(Style.presets.COPPER_ALPHA)
            buf = io.BytesIO()
            im.save(buf, format="PNG")
            CACHE[text] = picture("base64," + base64.b64encode(buf.getvalue()).decode())
        except Exception:  # noqa: BLE001
            CACHE[text] = None
    return CACHE[text]


def judge_picture(md, a, units, k, fs):
    """Does the picture show the command with what the text says about it?"""
    u = units[k]
    head, blocks, inside, moved = [], [], [], False
    for v in units[:k]:
        if v["c"] in ("FS", "MO", "AD", "AM") and not inside:
            head.append(v["text"])
        elif v["c"] == "ABo" or inside:
            if v["c"] not in ("ABo", "ABc", "Dnn", "D01", "D02", "D03", "G01", "G02", "G03", "G75"):
                return "unjudged"  # what a block leaves behind
            inside.append(v["text"])
            if v["c"] == "ABc":
                blocks.extend(inside)
                inside = []
        elif v["c"] in ("LM", "LR", "LS"):
            moved = True
    if inside:
        return "unjudged"
    w = gstate.Renderer()
    w.fs = fs
    if u["c"] == "Dnn":
        if moved:
            return "unjudged"
        body = ["X0Y0D02*", u["text"], "X0Y0D03*"]
    else:
        at = a["start"] or a["stop"]
        if not at or not a["ap"]:
            return "unjudged"
        if u["c"] == "D01" and a["quad"] == "SQ":
            return "unjudged"
        body = [w.cmd(gstate.fill([dict(c="D02", x=[at[0]], y=[at[1]])])[0]), {"L": "G01*", "CW": "G02*", "CCW": "G03*"}[a["plot"]], "G75*", f"%LM{a['mir']}*%",
                f"%LR{gstate.dec(a['rot'], 3)}*%", f"%LS{gstate.dec(a['scale'], 3)}*%", f"D{a['ap']}*", u["text"]]
    ref = reference("\n".join([*head, *blocks, *body]) + "\nM02*\n")
    p = picture(md)
    if ref is None:
        return "unjudged"
    return "same" if p == ref else "missing" if p is None else "differs"


def answer(m, q, units, fs):
    a = {"err": "", "null": False, "range": [], "code": "", "start": [], "stop": [], "center": [], "ap": 0, "plot": "", "quad": "", "pol": "", "mir": "", "rot": 0, "scale": 0,
         "apattrs": [], "to": [], "image": "unjudged", "gcodes": [], "aps": [], "codes": [], "n": 0}
    if "error" in m:
        a["err"] = str(m["error"].get("message", "?"))[:150]
        return a
    res = m.get("result")
    if res is None:
        a["null"] = True
        return a
    if q["kind"] == "comp":
        items = res["items"] if isinstance(res, dict) else res
        a["n"] = len(items)
        a["gcodes"] = sorted({i["label"][:3] for i in items})
        for i in items:
            m = re.fullmatch(r"D(\d+)", i["label"])
            d = re.match(r"%(AD|AB)D(\d+)([A-Z]?)(\w*)", i.get("detail") or "")
            if m:
                kind = "?" if not d or d.group(2) != m.group(1) else "B" if d.group(1) == "AB" else d.group(3) if not d.group(4) else "M"
                a["aps"].append([int(m.group(1)), kind])
            m = re.match(r"ADD(\d+)", i["label"])
            if m:
                a["codes"].append(int(m.group(1)))
        a["codes"] = sorted(set(a["codes"]))
        return a
    md = res["contents"]["value"] if isinstance(res["contents"], dict) else str(res["contents"])
    g = res.get("range")
    a["range"] = [g["start"]["line"], g["start"]["character"], g["end"]["line"], g["end"]["character"]] if g else []
    m = re.search(r"```gerber\n(.*?)\s*```", md, re.S)
    a["code"] = m.group(1) if m else ""
    a["start"], a["center"] = point(md, "Starts at"), point(md, "Arc center at")
    a["stop"] = point(md, "Ends at") or point(md, "Relocate to") or point(md, "Flash at")
    m = re.search(r"`Aperture: D(\d+)`", md)
    a["ap"] = int(m.group(1)) if m else 0
    for key, table in (("plot", {"`Linear`": "L", "`Clockwise Arc`": "CW", "`Counter-clockwise Arc`": "CCW"}), ("quad", {"`Multi-quadrant`": "MQ", "`Single-quadrant`": "SQ"}),
                       ("pol", {"`Dark polarity`": "D", "`Clear polarity`": "C"}), ("mir", {"`No Mirroring`": "N", "`Mirroring X`": "X", "`Mirroring Y`": "Y", "`Mirroring X and Y`": "XY"})):
        found = [v for s, v in table.items() if s in md]
        a[key] = found[0] if len(found) == 1 else "+".join(found)
    m = re.search(r"`Rotation: ([^`]*)`", md)
    a["rot"] = number(m.group(1), 1000) if m else 0
    m = re.search(r"`Scale: ([^`]*)`", md)
    a["scale"] = number(m.group(1), 1000) if m else 0
    a["apattrs"], a["to"] = attributes(md, "Aperture attributes"), attributes(md, "Object attributes")
    k = [i for i, u in enumerate(units) if u["line"] == q["line"] and u["col"] <= q["ch"] < u["col"] + u["len"]]
    if k and units[k[0]]["c"] in ("D01", "D03", "Dnn"):
        a["image"] = judge_picture(md, a, units, k[0], fs)
    return a


# ---------------------------------------------------------------- conversations
def place(text, i):
    return {"line": text.count("\n", 0, i), "character": i - (text.rfind("\n", 0, i) + 1)}


def difference(r, old, new):
    """Content changes that turn one text into the other."""
    if r.random() < 0.25:
        return [{"text": new}]
    p = 0
    while p < min(len(old), len(new)) and old[p] == new[p]:
        p += 1
    s = 0
    while s < min(len(old), len(new)) - p and old[-1 - s] == new[-1 - s]:
        s += 1
    a, b, mid = p, len(old) - s, new[p:len(new) - s]
    if r.random() < 0.4:  # in two steps: remove, then insert
        return [{"range": {"start": place(old, a), "end": place(old, b)}, "text": ""},
                {"range": {"start": place(old[:a] + old[b:], a), "end": place(old[:a] + old[b:], a)}, "text": mid}]
    return [{"range": {"start": place(old, a), "end": place(old, b)}, "text": mid}]


def conversation(job):
    """One conversation: actions [a, document] are sent in groups; answers are awaited after every group."""
    ident, seed, actions = job
    r = random.Random(seed)
    docs, events, sent = {}, [], []
    ext = r.choice(["gbr", "gbr", "gtl", "GBR", "g1"])
    uri = {u: f"file:///nowhere/{ident}-{r.randrange(10**9)}/doc%20{u}.{ext}" for u in ("a", "b", "c")}
    text, units, version, opened = {}, {}, 0, {}
    model = actions is not None
    if actions is None:
        actions = []
        live = {}
        for _ in range(r.randrange(5, 22)):
            u = r.choice("abc")
            if not live.get(u):
                actions.append(("open", u))
                live[u] = True
                continue
            q = r.random()
            actions.append(("ask" if q < 0.62 else "change" if q < 0.93 else "close", u))
            if actions[-1][0] == "close":
                live[u] = False
    group = r.choice([1, 1, 2, 4, 50])
    try:
        c = client()
        waiting = {}
        for n, (a, u) in enumerate(actions):
            if a == "open":
                docs[u] = fixed("open", ident % 2 == 0) if model else Doc(r)
                text[u], units[u] = docs[u].text()
                version += 1
                c.note("textDocument/didOpen", {"textDocument": {"uri": uri[u], "languageId": "gerber", "version": version, "text": text[u]}})
                events.append({"e": "set", "u": u, "units": units[u]})
                sent.append(["open", u, text[u]])
            elif a == "change":
                docs[u].edited()
                old = text[u]
                text[u], units[u] = docs[u].text()
                version += 1
                ch = difference(r, old, text[u])
                c.note("textDocument/didChange", {"textDocument": {"uri": uri[u], "version": version}, "contentChanges": ch})
                events.append({"e": "set", "u": u, "units": units[u]})
                sent.append(["change", u, ch])
            elif a == "close":
                c.note("textDocument/didClose", {"textDocument": {"uri": uri[u]}})
                events.append({"e": "close", "u": u})
                sent.append(["close", u])
            else:
                draws = [v for v in units[u] if v["c"] in ("D01", "D03", "Dnn", "JUNK")]
                junk = [v for v in units[u] if v["c"] == "JUNK"]
                if docs[u].focus and junk and r.random() < 0.75:
                    draws = junk
                v = r.choice(draws if draws and r.random() < 0.9 else units[u])
                kind = "comp" if r.random() < (0.8 if v["c"] == "JUNK" else 0.08) else "hover"
                q = {"e": "ask", "u": u, "line": v["line"], "ch": v["col"] + (v["len"] if v["c"] == "JUNK" and r.random() < 0.6 else r.randrange(v["len"])), "kind": kind}
                i = c.request("textDocument/" + ("hover" if kind == "hover" else "completion"),
                              {"textDocument": {"uri": uri[u]}, "position": {"line": q["line"], "character": q["ch"]}})
                q["id"] = i
                waiting[i] = (q, units[u], docs[u].fs)
                events.append(q)
                sent.append([kind, u, q["line"], q["ch"]])
            if (n + 1) % group == 0 or n + 1 == len(actions):
                c.flush()
                while waiting:
                    m = c.answer()
                    if m["id"] in waiting:
                        q, un, fs = waiting.pop(m["id"])
                        events.append({"e": "answer", "u": q["u"], "id": q["id"], "a": answer(m, q, un, fs)})
        err = ""
    except Dead as e:
        err = str(e)
        drop()
    return {"id": ident, "events": events, "dead": err, "sent": sent, "group": group}


def run(ctx, n):
    depth = ctx.n(6, 7)
    ctx.model_check("LspMC", {"Uris": '{"a", "b"}', "Depth": str(depth - 1), "Emit": "FALSE"}, invariants=["Window", "Quiet", "Exact"], label="server")
    res = ctx.model_check("LspMC", {"Uris": '{"a", "b"}', "Depth": str(depth), "Emit": "TRUE"}, label="client")
    behs = []
    for v in res.tagged("BEHAVIOUR"):
        s = v[v.index('"['):].rstrip()
        h = json.loads(json.loads(s[:s.rindex('"') + 1]))
        if sum(x["a"] == "ask" for x in h) >= 2 and any(x["a"] == "change" for x in h):
            behs.append([(x["a"], x["u"]) for x in h])
    behs = sorted(set(map(tuple, behs)))
    total = len(behs)
    limit = ctx.n(250, 4000)
    if total > limit:
        behs = ctx.rng("beh").sample(behs, limit)
    ctx.note("behaviours", {"enumerated": total, "replayed": len(behs)})
    jobs = [(i, repr((ctx.seed, "model", i)), list(b)) for i, b in enumerate(behs)]
    jobs += [(len(behs) + i, repr((ctx.seed, "random", i)), None) for i in range(n)]
    recs = pmap(conversation, jobs)
    replay = {}
    for rec in recs:
        replay[rec["id"]] = {"sent": rec.pop("sent"), "group": rec.pop("group")}
        dead = rec.pop("dead")
        if dead:
            ctx.violation(f"conversation: {dead}", {"trace": rec, **replay[rec["id"]]})
    ctx.sample(replay[recs[-1]["id"]]["sent"][:6])
    answers = [e["a"] for r in recs for e in r["events"] if e["e"] == "answer"]
    ctx.note("answers", len(answers))
    ctx.note("pictures", {k: sum(a["image"] == k for a in answers) for k in ("same", "differs", "missing", "unjudged")})
    ctx.note("errors", sum(bool(a["err"]) for a in answers))
    ctx.validate("LspTrace", [r for r in recs if r["events"]], label="conversations", replay=replay, chunk=1500)
