"""A deterministic simulator of the part of a Minecraft Bedrock world that
compiled Acacia programs run on.

Nothing here reads a clock, an unseeded random source or the iteration order
of a set: every choice Bedrock leaves open (order of entities matched by a
selector, which entity @r picks, the values of `scoreboard players random`)
is drawn from a `random.Random` seeded by the case.
"""

import json
import math
import random

I32 = 1 << 32
IMIN, IMAX = -(1 << 31), (1 << 31) - 1


def wrap(v):
    v &= I32 - 1
    return v - I32 if v > IMAX else v


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cmod(a, b):
    return a - cdiv(a, b) * b


class Malformed(Exception):
    """A command line Bedrock would refuse to parse."""


class Budget(Exception):
    """More commands run in one invocation than the game allows."""


# ---------------------------------------------------------------- parsing

def tokenize(line):
    """Split a command on spaces; quotes, brackets and braces group."""
    out = []
    i, n = 0, len(line)
    while i < n:
        if line[i] in " \t":
            i += 1
            continue
        st = i
        depth = 0
        while i < n and (depth or line[i] not in " \t"):
            c = line[i]
            if c == '"':
                i += 1
                while i < n and line[i] != '"':
                    i += 2 if line[i] == "\\" else 1
                if i >= n:
                    raise Malformed("unterminated string")
            elif c in "[{":
                depth += 1
            elif c in "]}":
                depth -= 1
                if depth < 0:
                    raise Malformed("unbalanced bracket")
            i += 1
        if depth:
            raise Malformed("unbalanced bracket")
        out.append((line[st:i], st))
    return out


def unquote(tok):
    if tok.startswith('"'):
        if len(tok) < 2 or not tok.endswith('"'):
            raise Malformed("bad string %r" % tok)
        body = tok[1:-1]
        res, i = [], 0
        while i < len(body):
            if body[i] == "\\" and i + 1 < len(body):
                i += 1
            elif body[i] == '"':
                raise Malformed("bad string %r" % tok)
            res.append(body[i])
            i += 1
        return "".join(res)
    return tok


_BARE_BAD = set(' "\\\',;:=[]{}@*?#$%^&()<>/|`~+!')


def plain_word(tok, what="word", extra=""):
    if not tok:
        raise Malformed("empty " + what)
    if tok.startswith('"'):
        return unquote(tok)
    for c in tok:
        if c in ' ",;=[]{}' and c not in extra:
            raise Malformed("bad %s %r" % (what, tok))
    return tok


def parse_int(tok):
    t = tok.lstrip("+-")
    if not t.isdigit() or not t.isascii() or len(tok) - len(t) > 1:
        raise Malformed("expected integer, got %r" % tok)
    v = int(tok)
    if not IMIN <= v <= IMAX:
        raise Malformed("integer out of range %r" % tok)
    return v


def parse_float(tok):
    try:
        if tok.lower().lstrip("+-") in ("nan", "inf", "infinity") \
                or "e" in tok.lower() or "_" in tok:
            raise ValueError
        return float(tok)
    except ValueError:
        raise Malformed("expected number, got %r" % tok)


def parse_range(s):
    """-> (lo, hi, negated)"""
    neg = s.startswith("!")
    if neg:
        s = s[1:]
    if ".." in s:
        a, _, b = s.partition("..")
        if not a and not b:
            raise Malformed("bad range")
        lo = parse_int(a) if a else None
        hi = parse_int(b) if b else None
    else:
        lo = hi = parse_int(s)
    if lo is not None and hi is not None and lo > hi:
        # Bedrock: such a range simply never matches
        pass
    return lo, hi, neg


def in_range(v, r):
    lo, hi, neg = r
    ok = (lo is None or v >= lo) and (hi is None or v <= hi)
    return ok != neg


class Coord:
    """Three coordinates."""
    __slots__ = ("parts",)

    def __init__(self, toks):
        parts = []
        for t in toks:
            if t[:1] in "~^":
                parts.append((t[0], parse_float(t[1:]) if len(t) > 1 else 0.0))
            else:
                v = parse_float(t)
                parts.append(("", v))
        kinds = {p[0] for p in parts}
        if "^" in kinds and len(kinds) > 1:
            raise Malformed("mixed local coordinates")
        self.parts = parts

    def resolve(self, ctx):
        p = ctx.pos
        if self.parts[0][0] == "^":
            return local_offset(ctx.base_pos(), ctx.rot,
                                *(v for _, v in self.parts))
        return tuple(round(p[i] + v, 6) if k == "~" else round(v, 6)
                     for i, (k, v) in enumerate(self.parts))


def local_offset(pos, rot, left, up, front):
    pitch, yaw = math.radians(rot[0]), math.radians(rot[1])
    # forward, up and left vectors of Minecraft's rotation convention
    f = (-math.sin(yaw) * math.cos(pitch), -math.sin(pitch),
         math.cos(yaw) * math.cos(pitch))
    u = (-math.sin(yaw) * math.sin(pitch), math.cos(pitch),
         math.cos(yaw) * math.sin(pitch))
    le = (math.cos(yaw), 0.0, math.sin(yaw))
    return tuple(round(pos[i] + left * le[i] + up * u[i] + front * f[i], 6)
                 for i in range(3))


def is_coord(t):
    if t[:1] in "~^":
        t = t[1:]
        if not t:
            return True
    try:
        parse_float(t)
        return True
    except Malformed:
        return False


class Selector:
    __slots__ = ("var", "args", "text")
    VARS = ("s", "a", "p", "e", "r", "initiator")
    SINGLE = ("c", "r", "rm", "x", "y", "z", "dx", "dy", "dz", "rx", "rxm",
              "ry", "rym", "l", "lm", "scores", "haspermission", "hasitem")

    def __init__(self, text):
        self.text = text
        if not text.startswith("@"):
            raise Malformed("expected selector, got %r" % text)
        body = text[1:]
        if "[" in body:
            var, _, rest = body.partition("[")
            if not rest.endswith("]"):
                raise Malformed("bad selector %r" % text)
            rest = rest[:-1]
        else:
            var, rest = body, ""
        if var not in self.VARS:
            raise Malformed("bad selector variable %r" % text)
        self.var = var
        self.args = {}
        if rest.strip():
            for part in split_top(rest):
                self._arg(part.strip())

    def _arg(self, part):
        if "=" not in part:
            raise Malformed("bad selector argument %r" % self.text)
        k, _, v = part.partition("=")
        k, v = k.strip(), v.strip()
        a = self.args
        if k in ("tag", "family", "type", "name", "m"):
            neg = v.startswith("!")
            if neg:
                v = v[1:].strip()
            if v:
                v = plain_word(v, k, extra=":")
            pos = a.setdefault(k, [])
            if not neg and k in ("type", "name", "m") \
                    and any(not n for n, _ in pos):
                raise Malformed("duplicate %s in %r" % (k, self.text))
            if k == "m":
                v = {"0": "survival", "s": "survival", "1": "creative",
                     "c": "creative", "2": "adventure", "a": "adventure",
                     "d": "default"}.get(v, v)
            if k == "type" and v.startswith("minecraft:"):
                v = v[10:]
            pos.append((neg, v))
            return
        if k not in self.SINGLE:
            raise Malformed("unknown selector argument %r" % self.text)
        if k in a:
            raise Malformed("duplicate argument %s in %r" % (k, self.text))
        if k in ("c", "l", "lm"):
            a[k] = parse_int(v)
            if k == "c" and a[k] == 0:
                raise Malformed("c=0")
        elif k in ("x", "y", "z"):
            a[k] = ("~", parse_float(v[1:]) if len(v) > 1 else 0.0) \
                if v.startswith("~") else ("", parse_float(v))
        elif k == "scores":
            if not (v.startswith("{") and v.endswith("}")):
                raise Malformed("bad scores in %r" % self.text)
            lst = []
            for p in split_top(v[1:-1]):
                o, eq, r = p.partition("=")
                if not eq:
                    raise Malformed("bad scores in %r" % self.text)
                lst.append((plain_word(o.strip()), parse_range(r.strip())))
            a[k] = lst
        elif k == "haspermission":
            if not (v.startswith("{") and v.endswith("}")):
                raise Malformed("bad haspermission in %r" % self.text)
            lst = []
            for p in split_top(v[1:-1]):
                o, eq, r = p.partition("=")
                if r not in ("enabled", "disabled"):
                    raise Malformed("bad haspermission in %r" % self.text)
                lst.append((o.strip(), r == "enabled"))
            a[k] = lst
        elif k == "hasitem":
            if v.startswith("["):
                if not v.endswith("]"):
                    raise Malformed("bad hasitem")
                items = split_top(v[1:-1])
            else:
                items = [v]
            lst = []
            for it in items:
                it = it.strip()
                if not (it.startswith("{") and it.endswith("}")):
                    raise Malformed("bad hasitem in %r" % self.text)
                d = {}
                for p in split_top(it[1:-1]):
                    o, eq, r = p.partition("=")
                    o = o.strip()
                    if o not in ("item", "quantity", "data", "location",
                                 "slot") or not eq or o in d:
                        raise Malformed("bad hasitem in %r" % self.text)
                    if o in ("quantity", "slot"):
                        d[o] = parse_range(r.strip())
                    elif o == "data":
                        d[o] = parse_int(r.strip())
                    else:
                        d[o] = plain_word(r.strip(), extra=":")
                if "item" not in d:
                    raise Malformed("hasitem without item")
                lst.append(d)
            a[k] = lst
        else:
            a[k] = parse_float(v)
            if k in ("r", "rm") and a[k] < 0:
                raise Malformed("negative radius")


def split_top(s):
    out, depth, cur, q = [], 0, [], False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur.append(c)
            if c == "\\" and i + 1 < len(s):
                i += 1
                cur.append(s[i])
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur.append(c)
        elif c == "," and depth == 0:
            out.append("".join(cur))
            cur = []
        else:
            if c in "[{":
                depth += 1
            elif c in "]}":
                depth -= 1
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def parse_holder(tok):
    """Score holder: ('sel', Selector) | ('name', str) | ('*',)"""
    if tok == "*":
        return ("*",)
    if tok.startswith("@"):
        return ("sel", Selector(tok))
    return ("name", plain_word(tok, "name", extra=":"))


OPS = ("=", "+=", "-=", "*=", "/=", "%=", "><", "<", ">")


class P:
    """Token stream of one command."""

    def __init__(self, line, toks=None):
        self.line = line
        self.toks = tokenize(line) if toks is None else toks
        self.i = 0

    def next(self, what="argument"):
        if self.i >= len(self.toks):
            raise Malformed("missing " + what)
        self.i += 1
        return self.toks[self.i - 1][0]

    def more(self):
        return self.i < len(self.toks)

    def peek(self):
        return self.toks[self.i][0] if self.more() else None

    def rest_text(self):
        if not self.more():
            return ""
        return self.line[self.toks[self.i][1]:]

    def end(self):
        if self.more():
            raise Malformed("trailing text %r" % self.rest_text())

    def coord(self):
        # "~~~" style (no spaces) is split too
        toks = []
        while len(toks) < 3:
            t = self.next("coordinate")
            cur = ""
            parts = []
            for ch in t:
                if ch in "~^" and cur:
                    parts.append(cur)
                    cur = ch
                else:
                    cur += ch
            if cur:
                parts.append(cur)
            toks.extend(parts)
        if len(toks) != 3:
            raise Malformed("bad coordinates")
        return Coord(toks)

    def sel(self):
        t = self.next("selector")
        return parse_holder(t)


def parse_command(line):
    """-> nested tuple.  Raises Malformed."""
    line = line.strip()
    if line.startswith("/"):
        line = line[1:]
    name = line.split(" ", 1)[0]
    if not name:
        raise Malformed("empty command")
    f = PARSERS.get(name)
    if f is None:
        if not name.replace("_", "a").isalnum():
            raise Malformed("bad command name %r" % name)
        return parse_opaque(line, name)
    if name in RAWTAIL:
        return f(line)
    return f(P(line))


def p_scoreboard(p):
    p.next()
    cat = p.next()
    if cat == "objectives":
        act = p.next()
        if act == "add":
            n = plain_word(p.next(), "objective")
            if p.next() != "dummy":
                raise Malformed("criterion")
            if p.more():
                p.next()
            p.end()
            return ("objadd", n)
        if act == "remove":
            n = plain_word(p.next(), "objective")
            p.end()
            return ("objremove", n)
        if act == "setdisplay":
            return ("opaque", p.line)
        raise Malformed("scoreboard objectives %s" % act)
    if cat != "players":
        raise Malformed("scoreboard %s" % cat)
    act = p.next()
    if act in ("set", "add", "remove"):
        h = parse_holder(p.next())
        o = plain_word(p.next(), "objective")
        v = parse_int(p.next())
        p.end()
        return ("sc" + act, h, o, v)
    if act == "random":
        h = parse_holder(p.next())
        o = plain_word(p.next(), "objective")
        a, b = parse_int(p.next()), parse_int(p.next())
        p.end()
        if a > b:
            raise Malformed("random: min > max")
        return ("screndom", h, o, a, b)
    if act == "operation":
        h = parse_holder(p.next())
        o = plain_word(p.next(), "objective")
        op = p.next()
        if op not in OPS:
            raise Malformed("bad operation %r" % op)
        h2 = parse_holder(p.next())
        o2 = plain_word(p.next(), "objective")
        p.end()
        return ("scop", h, o, op, h2, o2)
    if act == "reset":
        h = parse_holder(p.next())
        o = plain_word(p.next(), "objective") if p.more() else None
        p.end()
        return ("screset", h, o)
    if act == "test":
        return ("opaque", p.line)
    raise Malformed("scoreboard players %s" % act)


BLOCKID = "block"


def parse_block(p):
    """id [states]? -> normalised string"""
    b = plain_word(p.next("block"), "block", extra=":")
    if ":" in b and b.startswith("minecraft:"):
        b = b[10:]
    st = {}
    if p.peek() is not None and p.peek().startswith("["):
        t = p.next()
        body = t[1:-1].strip()
        if body:
            for part in split_top(body):
                k, eq, v = part.partition("=")
                if not eq:
                    k, eq, v = part.partition(":")
                if not eq:
                    raise Malformed("bad block state %r" % t)
                k = k.strip()
                if not (k.startswith('"') and k.endswith('"') and len(k) > 1):
                    raise Malformed("bad block state %r" % t)
                st[unquote(k)] = v.strip()
    return b, st


def p_execute(p):
    p.next()
    subs = []
    while True:
        s = p.next("execute subcommand")
        if s == "run":
            rest = p.rest_text()
            if not rest:
                raise Malformed("execute without command")
            return ("execute", subs, parse_command(rest))
        if s == "as":
            subs.append(("as", need_sel(p)))
        elif s == "at":
            subs.append(("at", need_sel(p)))
        elif s == "positioned":
            if p.peek() == "as":
                p.next()
                subs.append(("posas", need_sel(p)))
            else:
                subs.append(("pos", p.coord()))
        elif s == "anchored":
            a = p.next()
            if a not in ("feet", "eyes"):
                raise Malformed("anchored %s" % a)
            subs.append(("anchored", a))
        elif s == "align":
            a = p.next()
            if not a or len(set(a)) != len(a) or set(a) - set("xyz"):
                raise Malformed("align %s" % a)
            subs.append(("align", a))
        elif s == "in":
            d = p.next()
            if d not in ("overworld", "nether", "the_end"):
                raise Malformed("dimension %s" % d)
            subs.append(("in", d))
        elif s == "rotated":
            if p.peek() == "as":
                p.next()
                subs.append(("rotas", need_sel(p)))
            else:
                r = []
                for _ in range(2):
                    t = p.next()
                    if t.startswith("~"):
                        r.append(("~", parse_float(t[1:]) if len(t) > 1
                                  else 0.0))
                    else:
                        r.append(("", parse_float(t)))
                subs.append(("rot", r))
        elif s == "facing":
            if p.peek() == "entity":
                p.next()
                sel = need_sel(p)
                a = p.next()
                if a not in ("feet", "eyes"):
                    raise Malformed("facing anchor %s" % a)
                subs.append(("faceent", sel, a))
            else:
                subs.append(("facepos", p.coord()))
        elif s in ("if", "unless"):
            inv = s == "unless"
            k = p.next()
            if k == "entity":
                subs.append(("ifent", inv, need_sel(p)))
            elif k == "block":
                c = p.coord()
                subs.append(("ifblock", inv, c, parse_block(p)))
            elif k == "blocks":
                a, b, c = p.coord(), p.coord(), p.coord()
                m = p.next()
                if m not in ("all", "masked"):
                    raise Malformed("blocks mode %s" % m)
                subs.append(("ifblocks", inv, a, b, c, m))
            elif k == "score":
                h = parse_holder(p.next())
                o = plain_word(p.next(), "objective")
                op = p.next()
                if op == "matches":
                    subs.append(("ifmatch", inv, h, o, parse_range(p.next())))
                elif op in ("=", "<", "<=", ">", ">="):
                    h2 = parse_holder(p.next())
                    o2 = plain_word(p.next(), "objective")
                    subs.append(("ifscore", inv, h, o, op, h2, o2))
                else:
                    raise Malformed("score comparison %s" % op)
            else:
                raise Malformed("if %s" % k)
        else:
            raise Malformed("execute %s" % s)


def need_sel(p):
    t = p.next("selector")
    if t.startswith("@"):
        return Selector(t)
    w = plain_word(t, "player name")
    s = Selector("@a")
    s.args["name"] = [(False, w)]
    return s


def p_function(p):
    p.next()
    t = plain_word(p.next("function"), "function", extra="/:")
    p.end()
    return ("function", t)


def p_schedule(p):
    p.next()
    act = p.next()
    if act != "on_area_loaded" or p.next() != "add":
        raise Malformed("schedule %s" % act)
    k = p.peek()
    if k == "circle":
        p.next()
        c = p.coord()
        r = parse_int(p.next())
        area = ("circle", c, r)
    elif k == "tickingarea":
        p.next()
        area = ("tickingarea", plain_word(p.next()))
    else:
        area = ("box", p.coord(), p.coord())
    f = plain_word(p.next("function"), "function", extra="/:")
    p.end()
    return ("schedule", area, f)


def check_rawtext(j):
    if not isinstance(j, dict) or not isinstance(j.get("rawtext"), list):
        raise Malformed("bad rawtext")
    for c in j["rawtext"]:
        if not isinstance(c, dict):
            raise Malformed("bad rawtext component")
        if "text" in c:
            if not isinstance(c["text"], str):
                raise Malformed("bad text")
        elif "score" in c:
            s = c["score"]
            if not isinstance(s, dict) or "name" not in s \
                    or "objective" not in s:
                raise Malformed("bad score component")
            c["_h"] = parse_holder(s["name"]) if s["name"].startswith("@") \
                or s["name"] == "*" else ("name", s["name"])
        elif "selector" in c:
            c["_s"] = Selector(c["selector"]) \
                if c["selector"].startswith("@") else c["selector"]
        elif "translate" in c:
            w = c.get("with")
            if isinstance(w, dict):
                check_rawtext(w)
        else:
            raise Malformed("unknown rawtext component")
    return j


def parse_json(txt):
    try:
        return check_rawtext(json.loads(txt))
    except ValueError as e:
        raise Malformed("bad json: %s" % e)


def p_tellraw(line):
    rest = line[len("tellraw"):].lstrip()
    p = P(rest)
    s = need_sel(p)
    return ("tellraw", s, parse_json(p.rest_text()))


def p_titleraw(line):
    rest = line[len("titleraw"):].lstrip()
    p = P(rest)
    s = need_sel(p)
    k = p.next()
    if k in ("title", "subtitle", "actionbar"):
        return ("titleraw", s, k, parse_json(p.rest_text()))
    if k == "times":
        v = [parse_int(p.next()) for _ in range(3)]
        p.end()
        return ("titletimes", s, v)
    if k in ("reset", "clear"):
        p.end()
        return ("title" + k, s)
    raise Malformed("titleraw %s" % k)


def p_tag(p):
    p.next()
    h = p.sel()
    act = p.next()
    if act not in ("add", "remove"):
        raise Malformed("tag %s" % act)
    t = plain_word(p.next("tag"), "tag", extra=":")
    p.end()
    return ("tag" + act, h, t)


def p_summon(p):
    p.next()
    ty = plain_word(p.next("entity type"), "entity type", extra=":")
    if ty.startswith("minecraft:"):
        ty = ty[10:]
    if not p.more():
        return ("summon", ty, Coord(["~", "~", "~"]), None, "*", None)
    if not is_coord(p.peek()):
        # summon type name [pos]
        nm = unquote(p.next())
        c = p.coord() if p.more() else Coord(["~", "~", "~"])
        p.end()
        return ("summon", ty, c, None, "*", nm)
    c = p.coord()
    rot = None
    if p.more() and is_coord(p.peek()):
        rot = []
        for _ in range(2):
            t = p.next("rotation")
            if t.startswith("~"):
                rot.append(("~", parse_float(t[1:]) if len(t) > 1 else 0.0))
            else:
                rot.append(("", parse_float(t)))
    elif p.more() and p.peek() == "facing":
        p.next()
        p.coord() if is_coord(p.peek()) else p.next()
    ev = "*"
    nm = None
    if p.more():
        ev = plain_word(p.next(), "event", extra="*:")
    if p.more():
        nm = plain_word(p.next(), "name", extra=":")
    p.end()
    return ("summon", ty, c, rot, ev, nm)


def p_tp(p):
    p.next()
    who = None
    if not is_coord(p.peek() or "x"):
        who = need_sel(p)
    if p.peek() is None or not is_coord(p.peek()):
        if p.peek() is None:
            raise Malformed("tp without destination")
        dest = need_sel(p)
        if p.more() and p.next() not in ("true", "false"):
            raise Malformed("tp")
        p.end()
        return ("tpent", who, dest)
    c = p.coord()
    rot = None
    if p.more() and is_coord(p.peek()):
        rot = []
        for _ in range(2):
            t = p.next("rotation")
            if t.startswith("~"):
                rot.append(("~", parse_float(t[1:]) if len(t) > 1 else 0.0))
            else:
                rot.append(("", parse_float(t)))
    elif p.more() and p.peek() == "facing":
        p.next()
        raise Malformed("tp facing unsupported by simulator")
    if p.more() and p.next() not in ("true", "false"):
        raise Malformed("tp: expected boolean")
    p.end()
    return ("tp", who, c, rot)


def p_kill(p):
    p.next()
    s = need_sel(p) if p.more() else Selector("@s")
    p.end()
    return ("kill", s)


def p_setblock(p):
    p.next()
    c = p.coord()
    b = parse_block(p)
    m = "replace"
    if p.more():
        m = p.next()
        if m not in ("replace", "destroy", "keep"):
            raise Malformed("setblock %s" % m)
    p.end()
    return ("setblock", c, b, m)


def p_fill(p):
    p.next()
    a, b = p.coord(), p.coord()
    blk = parse_block(p)
    m, rep = "replace", None
    if p.more():
        m = p.next()
        if m not in ("replace", "destroy", "keep", "hollow", "outline"):
            raise Malformed("fill %s" % m)
        if m == "replace" and p.more():
            rep = parse_block(p)
    p.end()
    return ("fill", a, b, blk, m, rep)


def p_clone(p):
    p.next()
    a, b, c = p.coord(), p.coord(), p.coord()
    mask, mode, blk = "replace", "normal", None
    if p.more():
        mask = p.next()
        if mask not in ("replace", "masked", "filtered"):
            raise Malformed("clone %s" % mask)
    if p.more():
        mode = p.next()
        if mode not in ("normal", "move", "force"):
            raise Malformed("clone %s" % mode)
    if mask == "filtered":
        blk = parse_block(p)
    p.end()
    return ("clone", a, b, c, mask, mode, blk)


def p_say(line):
    name, _, msg = line.partition(" ")
    if not msg:
        raise Malformed(name + " without message")
    return (name, msg)


def p_tell(line):
    rest = line.split(" ", 1)[1] if " " in line else ""
    p = P(rest)
    s = need_sel(p)
    if not p.more():
        raise Malformed("tell without message")
    return ("tell", s, p.rest_text())


def parse_opaque(line, name):
    """Any other command: tokens, with selectors and coordinates parsed so
    that they can be resolved in the execution context."""
    try:
        toks = [t for t, _ in tokenize(line)]
    except Malformed:
        # free text (json etc.): keep verbatim
        return ("opaque", line)
    out = []
    for t in toks:
        if t.startswith("@"):
            out.append(Selector(t))
        elif t[:1] in "~^":
            is_c = is_coord(t)
            if not is_c:
                raise Malformed("bad coordinate %r" % t)
            out.append(("c", t))
        else:
            out.append(t)
    return ("opaquet", out)


PARSERS = {
    "scoreboard": p_scoreboard, "execute": p_execute,
    "function": p_function, "schedule": p_schedule,
    "tellraw": p_tellraw, "titleraw": p_titleraw, "tag": p_tag,
    "summon": p_summon, "tp": p_tp, "teleport": p_tp, "kill": p_kill,
    "setblock": p_setblock, "fill": p_fill, "clone": p_clone,
    "say": p_say, "me": p_say, "tell": p_tell, "msg": p_tell, "w": p_tell,
}
RAWTAIL = ("tellraw", "titleraw", "say", "me", "tell", "msg", "w")


# ------------------------------------------------------------------ world

class Entity:
    __slots__ = ("id", "type", "name", "tags", "pos", "rot", "dim", "alive",
                 "loaded", "families", "mode", "level", "perms", "items",
                 "events")

    def __init__(self, id_, type_, name=None, pos=(0.0, 0.0, 0.0),
                 rot=(0.0, 0.0), dim="overworld"):
        self.id = id_
        self.type = type_
        self.name = name if name is not None else type_
        self.tags = {}
        self.pos = tuple(float(v) for v in pos)
        self.rot = tuple(float(v) for v in rot)
        self.dim = dim
        self.alive = True
        self.loaded = True
        self.families = {type_: 1}
        self.mode = "survival"
        self.level = 0
        self.perms = {}
        self.items = []      # dicts item, quantity, data, location, slot
        self.events = []

    def clone(self):
        e = Entity.__new__(Entity)
        for s in Entity.__slots__:
            v = getattr(self, s)
            if isinstance(v, dict):
                v = dict(v)
            elif isinstance(v, list):
                v = [dict(x) if isinstance(x, dict) else x for x in v]
            setattr(e, s, v)
        return e

    @property
    def is_player(self):
        return self.type == "player"


EYE = 1.62


class Ctx:
    __slots__ = ("ent", "pos", "rot", "dim", "anchor")

    def __init__(self, ent=None, pos=(0.0, 0.0, 0.0), rot=(0.0, 0.0),
                 dim="overworld", anchor="feet"):
        self.ent, self.pos, self.rot = ent, pos, rot
        self.dim, self.anchor = dim, anchor

    def copy(self):
        return Ctx(self.ent, self.pos, self.rot, self.dim, self.anchor)

    def base_pos(self):
        if self.anchor == "eyes":
            return (self.pos[0], self.pos[1] + EYE, self.pos[2])
        return self.pos


class Draws:
    """The random source: the n-th draw from a range during an event is a
    function of the seed, the event, the range and n, whatever else was
    drawn in between."""

    def __init__(self, seed):
        self.seed = seed
        self.event = 0
        self.total = 0
        self.n = {}
        self.picks = {}
        self.ranks = {}

    def next(self):
        self.event += 1
        self.n = {}
        self.picks = {}
        self.ranks = {}

    def rank(self, eid):
        """Where an entity comes in the (arbitrary) order in which the game
        visits the entities of a selector, in this event."""
        v = self.ranks.get(eid)
        if v is None:
            v = self.ranks[eid] = random.Random(
                repr((self.seed, self.event, "rank", eid))).random()
        return v

    def pick(self, ids, count):
        """The entities that @r picks from a set: another choice each time
        it is asked, whatever else was asked in between."""
        ids = sorted(ids)
        k = tuple(ids)
        n = self.picks[k] = self.picks.get(k, 0) + 1
        random.Random(repr((self.seed, self.event, "pick", k, n))) \
            .shuffle(ids)
        return ids[:count]

    def randint(self, lo, hi):
        n = self.n[lo, hi] = self.n.get((lo, hi), 0) + 1
        self.total += 1
        return random.Random(repr((self.seed, self.event, lo, hi, n))) \
            .randint(lo, hi)


class World:
    """One simulated world with one or more packs of functions loaded."""

    def __init__(self, seed=0, budget=10000, files=None, tick_json=None):
        self.rand_stream = Draws(seed)
        self.obj = {}
        self.ents = {}
        self.next_ent = 1
        self.blocks = {}
        self.log = []
        self.budget = budget
        self.left = 0
        self.tickno = 0
        self.funcs = {}        # name -> list of (parsed, text) | None
        self.funcsrc = {}
        self.ticks = []
        self.areas = []        # pending on_area_loaded schedules
        self.chunks = {}       # loaded chunks and ticking areas
        self.problems = []     # malformed lines, unknown functions...
        self.strict_missing = True
        self.ncmds = 0
        self.maxinv = 0
        self.depth = 0
        self.obs_obj = None    # objective snapshotted by "say #..."
        self.covered = {}
        self.draws = []
        self.deferred = []
        if files is not None:
            self.load_pack(files, tick_json)

    # -- durable state (survives restart/crash): scores, entities, blocks
    def snapshot(self):
        return {
            "obj": {k: dict(v) for k, v in self.obj.items()},
            "ents": {k: e.clone() for k, e in self.ents.items()},
            "next_ent": self.next_ent, "blocks": dict(self.blocks),
            "areas": list(self.areas),
        }

    def restore(self, s):
        self.obj = {k: dict(v) for k, v in s["obj"].items()}
        self.ents = {k: e.clone() for k, e in s["ents"].items()}
        self.next_ent = s["next_ent"]
        self.blocks = dict(s["blocks"])
        self.areas = list(s["areas"])
        self.chunks = {}

    # -- packs
    def load_pack(self, files, tick_json=None):
        """files: {function name: text}"""
        for name in files:
            self.funcsrc[name] = files[name]
            cmds = []
            ok = True
            for no, line in enumerate(files[name].split("\n"), 1):
                st = line.strip()
                if not st or st.startswith("#"):
                    continue
                try:
                    cmds.append(parse_command(st))
                except Malformed as e:
                    self.problems.append(
                        ("malformed", name, no, st, str(e)))
                    ok = False
            self.funcs[name] = cmds if ok else None
        if tick_json is not None:
            try:
                v = json.loads(tick_json)["values"]
                assert isinstance(v, list)
            except Exception as e:
                self.problems.append(("badtick", repr(e)))
                v = []
            for n in v:
                if n not in self.ticks:
                    self.ticks.append(n)
                if n not in self.funcs:
                    self.problems.append(("tickmissing", n))

    # -- entities
    def spawn(self, type_, **kw):
        e = Entity(self.next_ent, type_, **kw)
        self.next_ent += 1
        self.ents[e.id] = e
        return e

    def despawn(self, eid):
        """kill: the entity and its scores are gone for good"""
        e = self.ents.pop(eid, None)
        if e is not None:
            e.alive = False

    # -- selectors
    def rank(self, e):
        return self.rand_stream.rank(e.id)

    def select(self, sel, ctx):
        if isinstance(sel, tuple):
            if sel[0] == "sel":
                return self.select(sel[1], ctx)
            return []
        var, a = sel.var, sel.args
        if var in ("s", "initiator"):
            cand = [ctx.ent] if ctx.ent is not None and ctx.ent.alive and \
                ctx.ent.id in self.ents else []
        else:
            cand = list(self.ents.values())
        if var in ("a", "p"):
            cand = [e for e in cand if e.is_player]
        elif var == "r":
            if not any(not n for n, _ in a.get("type", [])):
                cand = [e for e in cand if e.is_player]
        cand = [e for e in cand if e.loaded]
        if not cand:
            return cand
        ox, oy, oz = ctx.pos
        if a:
            px = []
            for i, k in enumerate("xyz"):
                if k in a:
                    m, v = a[k]
                    px.append(ctx.pos[i] + v if m else v)
                else:
                    px.append(ctx.pos[i])
            ox, oy, oz = px
            cand = [e for e in cand if self._match(e, a, (ox, oy, oz), ctx)]
        if var == "r":
            by = {e.id: e for e in cand}
            return [by[i] for i in self.rand_stream.pick(
                by, abs(a.get("c", 1)))]
        if var == "p":
            c = a.get("c", 1)
        elif "c" in a:
            c = a["c"]
        else:
            if len(cand) > 1:
                cand.sort(key=self.rank)
            return cand
        if len(cand) > 1:
            cand.sort(key=self.rank)   # break ties arbitrarily

            def dist(e):
                d = sum((p - q) ** 2 for p, q in zip(e.pos, (ox, oy, oz)))
                return (e.dim != ctx.dim, round(d, 6))
            cand.sort(key=dist, reverse=c < 0)
        return cand[:abs(c)]

    def _match(self, e, a, o, ctx):
        for k in a:
            v = a[k]
            if k == "tag":
                for neg, t in v:
                    if t == "":
                        has = not e.tags
                    else:
                        has = t in e.tags
                    if has == neg:
                        return False
            elif k == "type":
                for neg, t in v:
                    if (e.type == t) == neg:
                        return False
            elif k == "name":
                for neg, t in v:
                    if (e.name == t) == neg:
                        return False
            elif k == "family":
                for neg, t in v:
                    if (t in e.families) == neg:
                        return False
            elif k == "m":
                if not e.is_player:
                    return False
                pos = [t for n, t in v if not n]
                if pos and e.mode not in pos:
                    return False
                if any(n and e.mode == t for n, t in v):
                    return False
            elif k == "r":
                if e.dim != ctx.dim or self._d2(e, o) > v * v + 1e-9:
                    return False
            elif k == "rm":
                if e.dim != ctx.dim or self._d2(e, o) < v * v - 1e-9:
                    return False
            elif k in ("dx", "dy", "dz"):
                if e.dim != ctx.dim:
                    return False
                i = "xyz".index(k[1])
                lo, hi = min(o[i], o[i] + v), max(o[i], o[i] + v) + 1.0
                if not lo <= e.pos[i] < hi:
                    return False
            elif k == "rx":
                if e.rot[0] > v + 1e-9:
                    return False
            elif k == "rxm":
                if e.rot[0] < v - 1e-9:
                    return False
            elif k == "ry":
                if e.rot[1] > v + 1e-9:
                    return False
            elif k == "rym":
                if e.rot[1] < v - 1e-9:
                    return False
            elif k == "l":
                if not e.is_player or e.level > v:
                    return False
            elif k == "lm":
                if not e.is_player or e.level < v:
                    return False
            elif k == "scores":
                for o_, r in v:
                    if o_ not in self.obj:
                        self.problem("missing objective", o_)
                        return False
                    s = self.obj[o_].get(e.id)
                    if s is None:
                        return False
                    if not in_range(s, r):
                        return False
            elif k == "haspermission":
                for perm, en in v:
                    if not e.is_player or e.perms.get(perm, True) != en:
                        return False
            elif k == "hasitem":
                for d in v:
                    if not self._has_item(e, d):
                        return False
        return True

    @staticmethod
    def _has_item(e, d):
        q = d.get("quantity", (1, None, False))
        total = 0
        for it in e.items:
            if it["item"] != d["item"]:
                continue
            if "data" in d and d["data"] != -1 and it["data"] != d["data"]:
                continue
            if "location" in d and it["location"] != d["location"]:
                continue
            if "slot" in d and not in_range(it["slot"], d["slot"]):
                continue
            total += it["quantity"]
        return in_range(total, q)

    @staticmethod
    def _d2(e, o):
        return sum((p - q) ** 2 for p, q in zip(e.pos, o))

    # -- scores
    def problem(self, kind, *info):
        if len(self.problems) < 50:
            self.problems.append((kind,) + info)

    def holders(self, h, ctx, objname=None, reading=False):
        k = h[0]
        if k == "name":
            return [h[1]]
        if k == "sel":
            return [e.id for e in self.select(h[1], ctx)]
        if reading:
            return sorted(self.obj.get(objname, {}), key=str)
        seen = {}
        for o in self.obj.values():
            for x in o:
                seen[x] = 1
        return sorted(seen, key=str)

    def get(self, holder, objname):
        o = self.obj.get(objname)
        return None if o is None else o.get(holder)

    def _objective(self, name):
        o = self.obj.get(name)
        if o is None:
            self.problem("missing objective", name)
        return o

    # -- running
    def run_function(self, name, ctx=None, budget=None):
        """One top-level invocation: by a player, the server or the tick."""
        if name not in self.funcs:
            self.problem("unknown function", name)
            return False
        self.left = self.budget if budget is None else budget
        start = self.left
        try:
            self._function(name, ctx or Ctx())
        except Budget:
            self.problem("budget", name)
        except RecursionError:
            self.problem("recursion", name)
        self.maxinv = max(self.maxinv, start - self.left)
        return True

    def _function(self, name, ctx):
        body = self.funcs.get(name)
        if body is None:
            if name not in self.funcs:
                self.problem("unknown function", name)
            return
        ctx = ctx.copy()
        self.covered[name] = self.covered.get(name, 0) + 1
        for c in body:
            self.exec(c, ctx)

    def exec(self, c, ctx):
        self.left -= 1
        self.ncmds += 1
        if self.left < 0:
            raise Budget
        getattr(self, "x_" + c[0])(c, ctx)

    # scoreboard
    def x_objadd(self, c, ctx):
        if c[1] not in self.obj:
            self.obj[c[1]] = {}

    def x_objremove(self, c, ctx):
        self.obj.pop(c[1], None)

    def x_scset(self, c, ctx):
        o = self._objective(c[2])
        if o is None:
            return
        for h in self.holders(c[1], ctx):
            o[h] = c[3]

    def x_scadd(self, c, ctx):
        o = self._objective(c[2])
        if o is None:
            return
        for h in self.holders(c[1], ctx):
            o[h] = wrap(o.get(h, 0) + c[3])

    def x_scremove(self, c, ctx):
        o = self._objective(c[2])
        if o is None:
            return
        for h in self.holders(c[1], ctx):
            o[h] = wrap(o.get(h, 0) - c[3])

    def x_screndom(self, c, ctx):
        o = self._objective(c[2])
        if o is None:
            return
        for h in self.holders(c[1], ctx):
            o[h] = self.rand_stream.randint(c[3], c[4])
            self.draws.append((c[3], c[4], o[h]))

    def x_screset(self, c, ctx):
        for n, o in self.obj.items():
            if c[2] is None or n == c[2]:
                for h in self.holders(c[1], ctx):
                    o.pop(h, None)

    def x_scop(self, c, ctx):
        _, h, on, op, h2, on2 = c
        o, o2 = self._objective(on), self._objective(on2)
        if o is None or o2 is None:
            return
        srcs = self.holders(h2, ctx, on2, reading=True)
        for t in self.holders(h, ctx):
            for s in srcs:
                if s not in o2:
                    continue   # the command fails
                b = o2[s]
                if op == "=":
                    o[t] = b
                    continue
                if op == "><":
                    a = o.get(t, 0)
                    o[t], o2[s] = b, a
                    continue
                a = o.get(t, 0)
                if op == "+=":
                    v = wrap(a + b)
                elif op == "-=":
                    v = wrap(a - b)
                elif op == "*=":
                    v = wrap(a * b)
                elif op == "/=":
                    v = a if b == 0 else wrap(cdiv(a, b))
                elif op == "%=":
                    v = a if b == 0 else wrap(cmod(a, b))
                elif op == "<":
                    v = min(a, b)
                else:
                    v = max(a, b)
                o[t] = v

    # function calls
    def x_function(self, c, ctx):
        self.depth += 1
        if self.depth > 3000:
            raise Budget
        try:
            self._function(c[1], ctx)
        finally:
            self.depth -= 1

    def x_schedule(self, c, ctx):
        k = c[1]
        if k[0] == "circle":
            area = ("circle", k[1].resolve(ctx), k[2], ctx.dim)
        elif k[0] == "box":
            area = ("box", k[1].resolve(ctx), k[2].resolve(ctx), ctx.dim)
        else:
            area = k
        if c[2] not in self.funcs:
            self.problem("unknown function", c[2])
        self.areas.append((area, c[2]))
        self.log.append(("schedule", area, self.tickno))

    def x_execute(self, c, ctx):
        self._sub(c[1], 0, c[2], ctx)

    def _sub(self, subs, i, run, ctx):
        while i < len(subs):
            s = subs[i]
            k = s[0]
            i += 1
            if k == "as":
                for e in self.select(s[1], ctx):
                    if e.id not in self.ents:
                        continue
                    n = ctx.copy()
                    n.ent = e
                    self._sub(subs, i, run, n)
                return
            if k == "at":
                for e in self.select(s[1], ctx):
                    if e.id not in self.ents:
                        continue
                    n = ctx.copy()
                    n.pos, n.rot, n.dim = e.pos, e.rot, e.dim
                    self._sub(subs, i, run, n)
                return
            if k == "posas":
                for e in self.select(s[1], ctx):
                    n = ctx.copy()
                    n.pos = e.pos
                    self._sub(subs, i, run, n)
                return
            if k == "rotas":
                for e in self.select(s[1], ctx):
                    n = ctx.copy()
                    n.rot = e.rot
                    self._sub(subs, i, run, n)
                return
            if k == "faceent":
                for e in self.select(s[1], ctx):
                    n = ctx.copy()
                    q = e.pos if s[2] == "feet" else \
                        (e.pos[0], e.pos[1] + EYE, e.pos[2])
                    n.rot = facing(ctx.base_pos(), q)
                    self._sub(subs, i, run, n)
                return
            if k in ("pos", "anchored", "align", "in", "rot", "facepos"):
                ctx = ctx.copy()
                if k == "pos":
                    ctx.pos = s[1].resolve(ctx)
                elif k == "anchored":
                    ctx.anchor = s[1]
                elif k == "align":
                    ctx.pos = tuple(
                        float(math.floor(v)) if ax in s[1] else v
                        for ax, v in zip("xyz", ctx.pos))
                elif k == "in":
                    ctx.dim = s[1]
                elif k == "rot":
                    ctx.rot = rotated(ctx.rot, s[1])
                else:
                    ctx.rot = facing(ctx.base_pos(), s[1].resolve(ctx))
                continue
            if not self.cond(s, ctx):
                return
        self.exec(run, ctx)

    def cond(self, s, ctx):
        k, inv = s[0], s[1]
        if k == "ifent":
            r = bool(self.select(s[2], ctx))
        elif k == "ifblock":
            r = self.block_is(ctx.dim, s[2].resolve(ctx), s[3])
        elif k == "ifblocks":
            r = self.blocks_same(ctx, s)
        elif k == "ifmatch":
            r = False
            if self._objective(s[3]) is not None:
                for h in self.holders(s[2], ctx, s[3], True)[:1]:
                    v = self.get(h, s[3])
                    r = v is not None and in_range(v, s[4])
        else:
            r = False
            o, o2 = self._objective(s[3]), self._objective(s[6])
            if o is not None and o2 is not None:
                ha = self.holders(s[2], ctx, s[3], True)[:1]
                hb = self.holders(s[5], ctx, s[6], True)[:1]
                if ha and hb:
                    a, b = o.get(ha[0]), o2.get(hb[0])
                    if a is not None and b is not None:
                        r = {"=": a == b, "<": a < b, "<=": a <= b,
                             ">": a > b, ">=": a >= b}[s[4]]
        return r != inv

    # output
    def rawtext(self, j, ctx):
        out = []
        for c in j["rawtext"]:
            if "text" in c:
                out.append(c["text"])
            elif "score" in c:
                objn = c["score"]["objective"]
                vals = []
                if self._objective(objn) is not None:
                    for h in self.holders(c["_h"], ctx, objn, True):
                        v = self.get(h, objn)
                        if v is not None:
                            vals.append(str(v))
                out.append(", ".join(vals))
            elif "selector" in c:
                out.append("@{%s}" % ",".join(
                    str(e.id) for e in sorted(self.select(c["_s"], ctx),
                                              key=lambda e: e.id)))
            else:
                w = c.get("with")
                if isinstance(w, dict):
                    args = []
                    for x in w["rawtext"]:
                        args.append(self.rawtext({"rawtext": [x]}, ctx))
                elif w is None:
                    args = []
                else:
                    args = list(w)
                out.append(translate(c["translate"], args))
        return "".join(out)

    def x_tellraw(self, c, ctx):
        who = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("tell", who, self.rawtext(c[2], ctx), self.tickno))

    def x_titleraw(self, c, ctx):
        who = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("title", c[2], who, self.rawtext(c[3], ctx),
                         self.tickno))

    def x_titletimes(self, c, ctx):
        who = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("titletimes", who, list(c[2]), self.tickno))

    def x_titlereset(self, c, ctx):
        who = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("titlereset", who, self.tickno))

    def x_titleclear(self, c, ctx):
        who = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("titleclear", who, self.tickno))

    def x_say(self, c, ctx):
        who = ctx.ent.id if ctx.ent is not None else 0
        if c[1].startswith("#") and self.obs_obj is not None:
            o = self.obj.get(self.obs_obj, {})
            self.log.append(("mark", c[1][1:], self.tickno, {
                k: v for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))
                if isinstance(k, str)}))
            return
        self.log.append(("say", c[1], who, self.tickno))

    def x_me(self, c, ctx):
        who = ctx.ent.id if ctx.ent is not None else 0
        self.log.append(("me", c[1], who, self.tickno))

    def x_tell(self, c, ctx):
        who = ctx.ent.id if ctx.ent is not None else 0
        to = sorted(e.id for e in self.select(c[1], ctx))
        self.log.append(("msg", c[2], who, to, self.tickno))

    # entities
    def x_tagadd(self, c, ctx):
        if c[1][0] == "*":
            es = list(self.ents.values())
        else:
            es = self.select(c[1], ctx)
        for e in es:
            e.tags[c[2]] = 1

    def x_tagremove(self, c, ctx):
        if c[1][0] == "*":
            es = list(self.ents.values())
        else:
            es = self.select(c[1], ctx)
        for e in es:
            e.tags.pop(c[2], None)

    def x_summon(self, c, ctx):
        _, ty, co, rot, ev, nm = c
        e = self.spawn(ty, name=nm, pos=co.resolve(ctx), dim=ctx.dim,
                       rot=rotated(ctx.rot, rot) if rot is not None
                       else (0.0, 0.0))
        if ev != "*":
            e.events.append(ev)
        self.log.append(("summon", e.id, ty, nm, ev, self.tickno))

    def x_tp(self, c, ctx):
        _, who, co, rot = c
        es = self.select(who, ctx) if who is not None else (
            [ctx.ent] if ctx.ent is not None else [])
        dest = co.resolve(ctx)
        for e in es:
            e.pos = dest
            e.dim = ctx.dim
            if rot is not None:
                e.rot = rotated(ctx.rot, rot)

    def x_tpent(self, c, ctx):
        es = self.select(c[1], ctx) if c[1] is not None else (
            [ctx.ent] if ctx.ent is not None else [])
        d = self.select(c[2], ctx)
        if len(d) != 1:
            return
        for e in es:
            e.pos, e.dim, e.rot = d[0].pos, d[0].dim, d[0].rot

    def x_kill(self, c, ctx):
        for e in self.select(c[1], ctx):
            self.log.append(("kill", e.id, self.tickno))
            if not e.is_player:
                self.despawn(e.id)

    # blocks
    @staticmethod
    def bpos(p):
        return tuple(int(math.floor(v)) for v in p)

    def block_at(self, dim, p):
        return self.blocks.get((dim,) + tuple(p), ("air", ()))

    def block_is(self, dim, p, b):
        have = self.block_at(dim, self.bpos(p))
        if have[0] != b[0]:
            return False
        hs = dict(have[1])
        return all(hs.get(k) == v for k, v in b[1].items())

    def put(self, dim, p, b):
        key = (dim,) + tuple(p)
        if b[0] == "air":
            self.blocks.pop(key, None)
        else:
            st = b[1].items() if isinstance(b[1], dict) else b[1]
            self.blocks[key] = (b[0], tuple(sorted(st)))

    def box(self, a, b):
        a, b = self.bpos(a), self.bpos(b)
        lo = [min(x, y) for x, y in zip(a, b)]
        hi = [max(x, y) for x, y in zip(a, b)]
        n = 1
        for i in range(3):
            n *= hi[i] - lo[i] + 1
        if n > 32768:
            return None, None
        return lo, hi

    def x_setblock(self, c, ctx):
        p = self.bpos(c[1].resolve(ctx))
        if c[3] == "keep" and self.block_at(ctx.dim, p)[0] != "air":
            return
        self.put(ctx.dim, p, c[2])
        self.log.append(("setblock", ctx.dim, p, c[2][0],
                         sorted(c[2][1].items()), c[3], self.tickno))

    def x_fill(self, c, ctx):
        _, a, b, blk, m, rep = c
        lo, hi = self.box(a.resolve(ctx), b.resolve(ctx))
        self.log.append(("fill", ctx.dim, lo, hi, blk[0],
                         sorted(blk[1].items()), m,
                         None if rep is None else rep[0], self.tickno))
        if lo is None:
            return
        for x in range(lo[0], hi[0] + 1):
            for y in range(lo[1], hi[1] + 1):
                for z in range(lo[2], hi[2] + 1):
                    p = (x, y, z)
                    edge = x in (lo[0], hi[0]) or y in (lo[1], hi[1]) \
                        or z in (lo[2], hi[2])
                    if m == "keep" and self.block_at(ctx.dim, p)[0] != "air":
                        continue
                    if m == "outline" and not edge:
                        continue
                    if m == "hollow" and not edge:
                        self.put(ctx.dim, p, ("air", {}))
                        continue
                    if rep is not None and not self.block_is(
                            ctx.dim, p, rep):
                        continue
                    self.put(ctx.dim, p, blk)

    def x_clone(self, c, ctx):
        _, a, b, d, mask, mode, blk = c
        lo, hi = self.box(a.resolve(ctx), b.resolve(ctx))
        dst = self.bpos(d.resolve(ctx))
        self.log.append(("clone", ctx.dim, lo, hi, dst, mask, mode,
                         None if blk is None else blk[0], self.tickno))
        if lo is None:
            return
        got = {}
        for x in range(lo[0], hi[0] + 1):
            for y in range(lo[1], hi[1] + 1):
                for z in range(lo[2], hi[2] + 1):
                    b_ = self.block_at(ctx.dim, (x, y, z))
                    if mask == "masked" and b_[0] == "air":
                        continue
                    if mask == "filtered" and not self.block_is(
                            ctx.dim, (x, y, z), blk):
                        continue
                    got[(x, y, z)] = b_
        if mode == "move":
            for p in got:
                self.put(ctx.dim, p, ("air", {}))
        for p in got:
            q = tuple(p[i] - lo[i] + dst[i] for i in range(3))
            self.put(ctx.dim, q, got[p])

    def blocks_same(self, ctx, s):
        lo, hi = self.box(s[2].resolve(ctx), s[3].resolve(ctx))
        if lo is None:
            return False
        dst = self.bpos(s[4].resolve(ctx))
        for x in range(lo[0], hi[0] + 1):
            for y in range(lo[1], hi[1] + 1):
                for z in range(lo[2], hi[2] + 1):
                    b = self.block_at(ctx.dim, (x, y, z))
                    if s[5] == "masked" and b[0] == "air":
                        continue
                    q = (x - lo[0] + dst[0], y - lo[1] + dst[1],
                         z - lo[2] + dst[2])
                    if self.block_at(ctx.dim, q) != b:
                        return False
        return True

    # everything else
    def x_opaque(self, c, ctx):
        self.log.append(("cmd", c[1], ctx.ent.id if ctx.ent else 0,
                         self.tickno))

    def x_opaquet(self, c, ctx):
        out = []
        toks = c[1]
        i = 0
        while i < len(toks):
            t = toks[i]
            if isinstance(t, Selector):
                out.append("@{%s}" % ",".join(
                    str(x) for x in sorted(
                        e.id for e in self.select(t, ctx))))
            elif isinstance(t, tuple):
                grp = []
                # a coordinate triple that contains ~ or ^
                st = len(out)
                while st > 0 and isinstance(out[st - 1], str) and \
                        len(out) - st < 2 and _num(out[st - 1]):
                    st -= 1
                grp = out[st:]
                del out[st:]
                flat = toks[0] == "spreadplayers"
                while i < len(toks) and len(grp) < 3 - flat and (
                        isinstance(toks[i], tuple) or
                        (isinstance(toks[i], str) and _num(toks[i]))):
                    grp.append(toks[i][1] if isinstance(toks[i], tuple)
                               else toks[i])
                    i += 1
                if flat and len(grp) == 2:
                    x, _, z = Coord([grp[0], "~", grp[1]]).resolve(ctx)
                    out.append(fmt_pos((x, z)))
                elif len(grp) == 3:
                    out.append(fmt_pos(Coord(grp).resolve(ctx)))
                else:
                    out.append("|".join(grp) + "@" + fmt_pos(ctx.pos))
                continue
            else:
                out.append(t)
            i += 1
        self.log.append(("cmd", " ".join(out),
                         ctx.ent.id if ctx.ent else 0, self.tickno))

    # -- time
    def tick(self):
        """One game tick: every function of tick.json, run by the server."""
        for n in self.ticks:
            if n in self.funcs:
                self.run_function(n)
        if self.areas:
            self.run_areas()
        self.tickno += 1

    @staticmethod
    def area_needs(a):
        """The chunks and ticking areas that must be loaded."""
        if a[0] == "tickingarea":
            return [("ta", a[1])]
        cx, cz = int(a[1][0] // 16), int(a[1][2] // 16)
        if a[0] == "circle":
            r = a[2]
            return [(a[3], cx + i, cz + j) for i in range(-r, r + 1)
                    for j in range(-r, r + 1) if i * i + j * j <= r * r]
        dx, dz = int(a[2][0] // 16), int(a[2][2] // 16)
        return [(a[3], i, j)
                for i in range(min(cx, dx), max(cx, dx) + 1)
                for j in range(min(cz, dz), max(cz, dz) + 1)]

    def run_areas(self):
        """Run what waits for areas that are loaded now."""
        ready = [all(k in self.chunks for k in self.area_needs(a))
                 for a, _ in self.areas]
        todo = [f for (_, f), r in zip(self.areas, ready) if r]
        self.areas = [a for a, r in zip(self.areas, ready) if not r]
        for f in todo:
            self.run_function(f)


def _num(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def fmt_pos(p):
    return "(%s)" % ",".join("%.3f" % (round(v, 3) + 0.0) for v in p)


def rotated(cur, spec):
    return tuple(((cur[i] + v) if k == "~" else v)
                 for i, (k, v) in enumerate(spec))


def facing(a, b):
    dx, dy, dz = (q - p for p, q in zip(a, b))
    h = math.hypot(dx, dz)
    return (round(-math.degrees(math.atan2(dy, h)), 6),
            round(-math.degrees(math.atan2(dx, dz)), 6))


def translate(key, args):
    """Render %%s / %%N like the client does, key kept when no template."""
    out, i, used, auto = [], 0, False, 0
    if "%%" not in key and "%" not in key:
        return "<%s|%s>" % (key, "|".join(args)) if args else "<%s>" % key
    while i < len(key):
        if key.startswith("%%", i):
            j = i + 2
            if key[j:j + 1] == "s":
                out.append(args[auto] if auto < len(args) else "")
                auto += 1
                i = j + 1
                used = True
                continue
            d = ""
            while j < len(key) and key[j].isdigit():
                d += key[j]
                j += 1
            if d:
                n = int(d)
                out.append(args[n - 1] if 1 <= n <= len(args) else "")
                i = j
                continue
            out.append("%")
            i += 2
            continue
        out.append(key[i])
        i += 1
    return "".join(out)
