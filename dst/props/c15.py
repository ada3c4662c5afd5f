"""C15: displayed text shows the live values at the moment of display."""

import copy

from .. import simrun
from ..engine import Outcome, digest

ID = "C15"
QUICK = 4000
THOROUGH = 120000
RULE = ("random programs that build texts (format patterns with every kind of "
        "placeholder and escape, integers, booleans, fields, parameters, "
        "constants, expressions, strings and nested texts; translations; "
        "nested fonts; concatenations), keep them in constants, and show them "
        "with tell, titles, subtitles and action bars, with and without "
        "display times, to everyone, to groups and to single members, from "
        "main, interfaces, functions, inline functions, methods, branches "
        "and loops; run through a random history of main re-runs, interface "
        "calls, restarts, crash rollbacks, external score changes, players "
        "joining and leaving groups; what each player sees (characters, "
        "their fonts, times in effect) is compared with a model that "
        "evaluates texts at the moment of display; distinct = different "
        "sequence of displays; non-trivial = at least three displays seen")

COLORS = {
    "black": "0", "dark_blue": "1", "dark_green": "2", "dark_aqua": "3",
    "dark_red": "4", "dark_purple": "5", "gold": "6", "gray": "7",
    "dark_gray": "8", "blue": "9", "green": "a", "aqua": "b", "red": "c",
    "light_purple": "d", "yellow": "e", "white": "f", "minecoin_gold": "g"}
COLORS_NEW = {
    "material_quartz": "h", "material_iron": "i", "material_netherite": "j",
    "material_redstone": "m", "material_copper": "n", "material_gold": "p",
    "material_emerald": "q", "material_diamond": "s", "material_lapis": "t",
    "material_amethyst": "u"}
FORMATS = {"l": "bold", "o": "italic", "k": "obfuscated"}
CODES = {v: k for k, v in list(COLORS.items()) + list(COLORS_NEW.items())}

PLAIN = (None, False, False, False)
CHARS = ["a", "Bc", "hello ", "x=", ": ", ", ", "\"", "\\", "'", "{", "}",
         "${", "$", "#", "@s", "\u00e9", "\u4e2d\u6587", "\U0001f600", " ",
         "1", "9", "~^", "/say", "[", "]", "<b>", "&", "text", "\t", "-"]
KEYS = ["item.diamond.name", "tile.stone.name", "my key", "k\u00e9y", "a.b"]
MODES = {"title": "print.TITLE", "subtitle": "print.SUBTITLE",
         "actionbar": "print.ACTIONBAR"}
DEFAULT = (10, 70, 20)


def wrap(x):
    return (x + (1 << 31)) % (1 << 32) - (1 << 31)


# ------------------------------------------------------------ rendering

def quote(s):
    out = []
    for c in s:
        if c in "\"\\$":
            out.append("\\" + c)
        elif c == "\t":
            out.append("\\u0009")
        else:
            out.append(c)
    return '"%s"' % "".join(out)


def r_int(e):
    k = e[0]
    if k == "lit":
        return "%d" % e[1] if e[1] >= 0 else "(%d)" % e[1]
    if k in ("v", "p", "const"):
        return e[1]
    if k == "field":
        return "probe.n"
    if k == "rec":
        return "rec.f"
    if k == "self":
        return "self.n"
    if k == "neg":
        return "(-%s)" % r_int(e[1])
    if k == "bin":
        return "(%s %s %s)" % (r_int(e[2]), e[1], r_int(e[3]))
    if k == "call":
        return "twice(%s)" % r_int(e[1])
    raise ValueError(k)


def r_bool(e):
    k = e[0]
    if k == "blit":
        return "True" if e[1] else "False"
    if k in ("bv", "bp", "bconst"):
        return e[1]
    if k == "not":
        return "(not %s)" % r_bool(e[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (r_bool(e[1]), k, r_bool(e[2]))
    if k == "cmp":
        return "(%s %s %s)" % (r_int(e[2]), e[1], r_int(e[3]))
    raise ValueError(k)


def r_pattern(parts):
    out = []
    for p in parts:
        if p[0] == "t":
            out.append(p[1].replace("%", "%%"))
        elif p[0] == "raw":
            out.append(p[1])
        elif p[0] == "i":
            out.append("%%%d" % p[1])
        else:
            out.append("%%{%s}" % p[1])
    return "".join(out)


def r_text(t):
    k = t[0]
    if k == "str":
        return quote(t[1])
    if k == "strf":
        return '"%s${%s}%s"' % (quote(t[1])[1:-1], t[2], quote(t[3])[1:-1])
    if k == "ref":
        return t[1]
    if k == "format":
        a = [quote(r_pattern(t[1]))]
        a += [r_any(x) for x in t[2]]
        a += ["%s=%s" % (n, r_any(x)) for n, x in t[3]]
        return "print.format(%s)" % ", ".join(a)
    if k == "translate":
        return "print.translate(%s)" % quote(t[1])
    if k == "font":
        a = [r_text(t[1])]
        for n in ("color", "bold", "italic", "obfuscated"):
            if n in t[2]:
                v = t[2][n]
                a.append("%s=%s" % (n, '"%s"' % v if n == "color" else v))
        return "print.with_font(%s)" % ", ".join(a)
    if k == "cat":
        return "%s + %s" % (r_text(t[1]),
                            "(%s)" % r_text(t[2]) if t[2][0] == "cat"
                            else r_text(t[2]))
    raise ValueError(k)


def r_any(x):
    if x[0] == "int":
        return r_int(x[1])
    if x[0] == "bool":
        return r_bool(x[1])
    return r_text(x[1])


def r_body(b, ind, out):
    pad = "    " * ind
    if not b:
        out.append(pad + "pass")
    for s in b:
        k = s[0]
        if k == "set":
            out.append("%s%s = %s" % (pad, s[1], r_int(s[2])))
        elif k == "setb":
            out.append("%s%s = %s" % (pad, s[1], r_bool(s[2])))
        elif k == "aug":
            out.append("%s%s %s= %s" % (pad, s[1], s[2], r_int(s[3])))
        elif k == "let":
            out.append("%sconst %s = %s" % (pad, s[1], r_text(s[2])))
        elif k == "show":
            a = [r_text(s[2])]
            if s[3]:
                a.append("target=" + s[3] if s[5] else s[3])
            if s[1] != "tell" and (s[1] != "title" or s[6]):
                a.append("mode=" + MODES[s[1]])
            if s[1] != "tell":
                for n in ("fade_in", "stay_time", "fade_out"):
                    if n in s[4]:
                        a.append("%s=%d" % (n, s[4][n]))
            out.append("%sprint.%s(%s)" % (
                pad, "tell" if s[1] == "tell" else "title", ", ".join(a)))
        elif k == "clear":
            out.append("%sprint.title_clear(%s)" % (pad, s[1] or ""))
        elif k == "if":
            out.append("%sif %s:" % (pad, r_bool(s[1])))
            r_body(s[2], ind + 1, out)
            if s[3]:
                out.append(pad + "else:")
                r_body(s[3], ind + 1, out)
        elif k == "each":
            out.append("%sfor e%d in %s:" % (pad, s[3], s[1]))
            r_body(s[2], ind + 1, out)
        elif k == "for":
            out.append("%sfor %s in {%s}:" % (
                pad, s[1], ", ".join("%d" % x for x in s[2])))
            r_body(s[3], ind + 1, out)
        elif k == "call":
            out.append("%s%s(%s)" % (pad, s[1], ", ".join(
                r_any(x) for x in s[2])))
        elif k == "meth":
            out.append("%sprobe.show(%s)" % (pad, r_int(s[1])))
        elif k == "refill":
            out.append("%s%s.clear()" % (pad, s[1]))
            out.append(pad + s[1] + '.select(Enfilter().has_tag("band"))')
        else:
            raise ValueError(k)


def render(prog):
    out = ["import print"]
    for n, v in prog["ints"]:
        out.append("%s := %d" % (n, v))
    for n, v in prog["bools"]:
        out.append("%s := %s" % (n, bool(v)))
    for n, v in prog["consts"]:
        out.append("const %s = %s" % (n, quote(v) if isinstance(v, str)
                                      else v))
    out += ["struct Rec:", "    f: int", "rec := Rec(f=%d)" % prog["rec"]]
    out += ["&live = ExternEngroup()",
            'live.select(Enfilter().has_tag("band"))',
            "grp := Engroup[Entity]()",
            'grp.select(Enfilter().has_tag("band"))']
    out += ["def twice(x: int) -> int:", "    result x + x"]
    for n, t in prog["texts"]:
        out.append("const %s = %s" % (n, r_text(t)))
    out += ["entity Probe:", "    n: int", "    new():",
            '        new(type="armor_stand", pos=AbsPos(0, 60, 0))',
            "        self.n = %d" % prog["probe"],
            "    def show(q: int):"]
    r_body(prog["method"], 2, out)
    out.append("probe := Probe()")
    for f in prog["fns"]:
        out.append("%sdef %s(%s):" % (
            "inline " if f["inline"] else "", f["name"], ", ".join(
                "%s: %s" % (n, {"int": "int", "bool": "bool"}[t])
                if t != "text" else "const " + n for n, t in f["params"])))
        r_body(f["body"], 1, out)
    for n, b in prog["ifaces"]:
        out.append("interface %s:" % n)
        r_body(b, 1, out)
    r_body(prog["main"], 0, out)
    return "\n".join(out) + "\n"


# ----------------------------------------------------------- generation

class Gen:
    def __init__(self, rng, newcolors):
        self.rng = rng
        self.colors = list(COLORS) + (list(COLORS_NEW) if newcolors else [])
        self.ntext = 0
        self.nloop = 0

    def chunk(self):
        return "".join(self.rng.choice(CHARS)
                       for _ in range(self.rng.choice([0, 1, 1, 2, 3])))

    def int_(self, sc, d=0, calls=False):
        r = self.rng
        k = r.random()
        if d < 2 and k < .15:
            return ["bin", r.choice("+-*"), self.int_(sc, d + 1, calls),
                    self.int_(sc, d + 1, calls)]
        if d < 2 and k < .2:
            return ["neg", self.int_(sc, d + 1, calls)]
        if d < 2 and k < .27 and calls:
            return ["call", self.int_(sc, d + 1, calls)]
        if k < .35:
            return ["lit", r.choice([0, 1, -1, 7, 100, r.randint(-99, 99)]
                                    + ([] if d else [-2147483647,
                                                     2147483647]))]
        if k < .42:
            return ["rec"]
        if k < .5 and sc["probe"]:
            return ["field"]
        if k < .55:
            return ["const", "C0"]
        if sc["params"]:
            if r.random() < .5:
                return r.choice(sc["params"])
        return ["v", r.choice(sc["ints"])]

    def bool_(self, sc, d=0, calls=False):
        r = self.rng
        k = r.random()
        if d < 2 and k < .1:
            return ["not", self.bool_(sc, d + 1, calls)]
        if d < 2 and k < .2:
            return [r.choice(["and", "or"]), self.bool_(sc, d + 1, calls),
                    self.bool_(sc, d + 1, calls)]
        if k < .5:
            return ["cmp", r.choice(["==", "!=", "<", "<=", ">", ">="]),
                    self.int_(sc, 1, calls), self.int_(sc, 1, calls)]
        if k < .57:
            return ["blit", r.random() < .5]
        if k < .63:
            return ["bconst", "C1"]
        if sc["bparams"] and k < .8:
            return ["bp", r.choice(sc["bparams"])]
        return ["bv", r.choice(sc["bools"])]

    def text(self, sc, d=0, calls=False):
        r = self.rng
        k = r.random()
        if d > 2:
            k *= .3
        if k < .12:
            return ["str", self.chunk() + self.chunk()]
        if k < .15:
            return ["strf", self.chunk(), r.choice(["C0", "2 * 3", "C2",
                                                    '"q"']), self.chunk()]
        if k < .3 and sc["texts"]:
            return ["ref", r.choice(sc["texts"])]
        if k < .36:
            return ["translate", r.choice(KEYS)]
        if k < .5:
            return ["cat", self.text(sc, d + 1, calls),
                    self.text(sc, d + 1, calls)]
        if k < .68:
            f = {}
            if r.random() < .7:
                f["color"] = r.choice(self.colors)
            for n in ("bold", "italic", "obfuscated"):
                if r.random() < .3:
                    f[n] = r.random() < .8
            return ["font", self.text(sc, d + 1, calls), f]
        args, kwds = [], []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 12 if d == 0 else 1])):
            args.append(self.any_(sc, d + 1, calls))
        for n in r.sample(["value", "a", "k1", "_u", "C0"],
                          r.choice([0, 0, 1, 2])):
            kwds.append([n, self.any_(sc, d + 1, calls)])
        parts = []
        for _ in range(r.randint(1, 6)):
            j = r.random()
            if j < .4 or not (args or kwds):
                parts.append(["t", r.choice([self.chunk(), "%", "%%",
                                             "100%"])])
            elif j < .5:
                parts.append(["raw", r.choice(["%x", "% ", "%-", "%\"",
                                               "%}", "%\u4e2d"])])
            elif kwds and (j < .65 or not args):
                parts.append(["k", r.choice(kwds)[0]])
            elif args:
                i = r.randrange(len(args))
                if j < .85 and i < 10:
                    parts.append(["i", i])
                else:
                    parts.append(["k", str(i)])
        if r.random() < .1:
            parts.append(["raw", "%"])
        return ["format", parts, args, kwds]

    def any_(self, sc, d, calls):
        k = self.rng.random()
        if k < .5:
            return ["int", self.int_(sc, 0, calls)]
        if k < .75:
            return ["bool", self.bool_(sc, 0, calls)]
        return ["text", self.text(sc, d, calls)]

    def times(self):
        r = self.rng
        t = {}
        if r.random() < .5:
            for n, dv in zip(("fade_in", "stay_time", "fade_out"), DEFAULT):
                if r.random() < .6:
                    t[n] = r.choice([0, 1, 5, 40, 200, dv])
        return t

    def show(self, sc):
        r = self.rng
        m = r.choice(["tell", "tell", "title", "subtitle", "actionbar"])
        tgt = None
        if sc["each"]:
            tgt = sc["each"][-1]
        elif r.random() < .5:
            tgt = r.choice(["grp", "live"])
        return ["show", m, self.text(sc, 0, True), tgt,
                {} if m == "tell" else self.times(), r.random() < .5,
                r.random() < .3]

    def body(self, sc, n, d=0):
        sc = dict(sc, texts=list(sc["texts"]))
        out = []
        r = self.rng
        for _ in range(n):
            k = r.random()
            if sc["each"]:
                # (the order of the members is free)
                k = .25 + k * .6
                if k >= .75:
                    k = .8 if d < 2 else .5
            if k < .18:
                k2 = r.random()
                v = r.choice(sc["ints"] + ["rec.f"] + (
                    ["probe.n"] if sc["probe"] else []))
                if k2 < .5:
                    out.append(["set", v, self.int_(sc)])
                else:
                    out.append(["aug", v, r.choice("+-*"), self.int_(sc)])
            elif k < .25:
                out.append(["setb", r.choice(sc["bools"]), self.bool_(sc)])
            elif k < .35:
                n_ = "L%d" % self.ntext
                self.ntext += 1
                out.append(["let", n_, self.text(sc)])
                sc["texts"].append(n_)
            elif k < .75:
                out.append(self.show(sc))
            elif k < .78:
                out.append(["clear", r.choice([None, "grp", "live"])])
            elif k < .86 and d < 2:
                out.append(["if", self.bool_(sc), self.body(
                    sc, r.randint(1, 2), d + 1), self.body(
                    sc, r.randint(1, 2), d + 1) if r.random() < .5 else []])
            elif k < .9 and d < 2 and not sc["infn"]:
                self.nloop += 1
                j = self.nloop
                out.append(["each", r.choice(["grp", "live"]), self.body(
                    dict(sc, each=sc["each"] + ["e%d" % j], infn=True),
                    r.randint(1, 2), d + 1), j])
            elif k < .93 and d < 2:
                self.nloop += 1
                n_ = "i%d" % self.nloop
                out.append(["for", n_, [r.randint(-5, 50) for _ in range(
                    r.randint(1, 3))], self.body(
                    dict(sc, params=sc["params"] + [["p", n_]]),
                    r.randint(1, 2), d + 1)])
            elif k < .97 and sc["fns"]:
                f = r.choice(sc["fns"])
                out.append(["call", f["name"], [
                    [{"int": "int", "bool": "bool", "text": "text"}[t],
                     # (constants reach inline functions as such)
                     self.int_(sc, 3 if f["inline"] else 0)
                     if t == "int" else self.bool_(sc, 0)
                     if t == "bool" else self.text(sc, 1)]
                    for _, t in f["params"]]])
            elif sc["probe"]:
                out.append(["meth", self.int_(sc)])
            elif d == 0:
                out.append(["refill", r.choice(["grp", "live"])])
        return out

    def program(self):
        r = self.rng
        p = {"ints": [["x%d" % i, r.choice([0, 5, -3, 1000])]
                      for i in range(r.randint(1, 3))],
             "bools": [["b%d" % i, r.random() < .5]
                       for i in range(r.randint(1, 2))],
             "consts": [["C0", r.choice([0, 42, -7])],
                        ["C1", r.random() < .5],
                        ["C2", r.choice(["str", "q\"%1", "\u00e9"])]],
             "rec": 3, "probe": 11, "texts": [], "fns": []}
        sc = {"ints": [n for n, _ in p["ints"]],
              "bools": [n for n, _ in p["bools"]], "params": [],
              "bparams": [], "texts": ["C2"], "each": [], "probe": False,
              "fns": [], "infn": False}
        for i in range(r.randint(0, 4)):
            p["texts"].append(["T%d" % i, self.text(sc)])
            sc["texts"].append("T%d" % i)
        p["method"] = self.body(dict(sc, params=[["p", "q"], ["self"]],
                                     infn=True), r.randint(1, 3), 1)
        sc["probe"] = True
        for i in range(r.randint(0, 3)):
            inl = r.random() < .5
            params = [["p%d" % j, r.choice(["int", "bool"] +
                                           (["text"] if inl else []))]
                      for j in range(r.randint(0, 2))]
            f = {"name": "f%d" % i, "inline": inl, "params": params}
            f["body"] = self.body(dict(
                sc, params=[["p", n] for n, t in params if t == "int"],
                bparams=[n for n, t in params if t == "bool"],
                texts=sc["texts"] + [n for n, t in params if t == "text"],
                infn=True), r.randint(1, 3), 0)
            p["fns"].append(f)
            sc = dict(sc, fns=sc["fns"] + [f])
        p["ifaces"] = [["if/%d" % i, self.body(sc, r.randint(1, 5))]
                       for i in range(r.randint(1, 3))]
        p["main"] = self.body(sc, r.randint(1, 5))
        return p


def gen_case(rng, index):
    cfg = simrun.random_config(rng) if rng.random() < .4 else {}
    v = tuple(cfg.get("mc_version", (1, 20, 10)))
    g = Gen(rng, v >= (1, 19, 80))
    prog = g.program()
    names = [n for n, _ in prog["ifaces"]]
    events = [["main"]]
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .5:
            events.append(["if", rng.choice(names)])
        elif k < .58:
            events.append(["main"])
        elif k < .64:
            events.append(["restart"])
        elif k < .7:
            events.append(["save"])
        elif k < .77:
            events.append(["crash"])
        elif k < .84:
            events.append(["join", rng.random() < .6])
        elif k < .92:
            events.append(["tag", rng.randrange(4)])
        else:
            events.append(["leave", rng.randrange(4)])
    return {"prog": prog, "events": events, "players": rng.randint(1, 3),
            "config": cfg, "seed": rng.randrange(1 << 30)}


# ---------------------------------------------------------------- model

class Model:
    """What the program should show."""

    def __init__(self, prog, tagged):
        self.p = prog
        self.tagged = tagged    # () -> ids of entities with the tag
        self.everyone = None
        self.v = {}
        self.grp = {"grp": set(), "live": set()}
        self.shown = []         # (kind, who, text, times)
        self.steps = 0
        self.globals = {}

    def state(self):
        return copy.deepcopy((self.v, self.grp))

    def load(self, s):
        self.v, self.grp = copy.deepcopy(s)

    def i(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k in ("v", "const"):
            return self.v[e[1]]
        if k == "p":
            return env[e[1]]
        if k in ("field", "self"):
            return self.v["probe.n"]
        if k == "rec":
            return self.v["rec.f"]
        if k == "neg":
            return wrap(-self.i(e[1], env))
        if k == "call":
            return wrap(2 * self.i(e[1], env))
        a, b = self.i(e[2], env), self.i(e[3], env)
        return wrap(a + b if e[1] == "+" else a - b if e[1] == "-"
                    else a * b)

    def b(self, e, env):
        k = e[0]
        if k == "blit":
            return bool(e[1])
        if k in ("bv", "bconst"):
            return self.v[e[1]]
        if k == "bp":
            return env[e[1]]
        if k == "not":
            return not self.b(e[1], env)
        if k in ("and", "or"):
            a, b = self.b(e[1], env), self.b(e[2], env)
            return a and b if k == "and" else a or b
        a, b = self.i(e[2], env), self.i(e[3], env)
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                ">": a > b, ">=": a >= b}[e[1]]

    # a text is a list of pieces (function or string, style or None);
    # expressions are evaluated when it is displayed
    def text(self, t, env):
        k = t[0]
        if k == "str":
            return [(t[1], None)]
        if k == "strf":
            x = {"2 * 3": "6", '"q"': "q"}.get(t[2])
            if x is None:
                x = str(self.v[t[2]])
            return [(t[1] + x + t[3], None)]
        if k == "ref":
            x = env.get(t[1], self.globals.get(t[1]))
            if x is None:
                raise KeyError(t[1])
            return x
        if k == "translate":
            return [("<%s>" % t[1], None)]
        if k == "cat":
            return self.text(t[1], env) + self.text(t[2], env)
        if k == "font":
            f = t[2]
            st = (f.get("color"), f.get("bold", False),
                  f.get("italic", False), f.get("obfuscated", False))
            return [(c, s or st) for c, s in self.text(t[1], env)]
        out = []
        env = dict(env)
        for p in t[1]:
            if p[0] in ("t", "raw"):
                out.append((p[1], None))
            else:
                x = None
                if p[0] == "i":
                    x = t[2][p[1]]
                elif p[1].isdigit():
                    x = t[2][int(p[1])]
                else:
                    x = dict((a, b) for a, b in t[3])[p[1]]
                out += self.any(x, env)
        # (all arguments must make sense)
        for x in t[2] + [b for _, b in t[3]]:
            self.any(x, env)
        return out

    def any(self, x, env):
        if x[0] == "int":
            return [(lambda: str(self.i(x[1], env)), None)]
        if x[0] == "bool":
            return [(lambda: "1" if self.b(x[1], env) else "0", None)]
        return self.text(x[1], env)

    def chars(self, pieces):
        return [(c, s or PLAIN) for p, s in pieces
                for c in (p if isinstance(p, str) else p())]

    def who(self, tgt, env):
        if tgt is None:
            return sorted(self.everyone())
        if tgt in self.grp:
            return sorted(self.grp[tgt] & set(self.everyone()))
        return sorted({env[tgt]} & set(self.everyone()))

    def run(self, body, env):
        self.steps += 1
        if self.steps > 3000:
            raise OverflowError
        env = dict(env)
        for s in body:
            k = s[0]
            if k == "set":
                self.v[s[1]] = self.i(s[2], env)
            elif k == "setb":
                self.v[s[1]] = self.b(s[2], env)
            elif k == "aug":
                a, b = self.v[s[1]], self.i(s[3], env)
                self.v[s[1]] = wrap(a + b if s[2] == "+" else
                                    a - b if s[2] == "-" else a * b)
            elif k == "let":
                env[s[1]] = self.text(s[2], env)
            elif k == "show":
                tm = tuple(s[4].get(n, d) for n, d in zip(
                    ("fade_in", "stay_time", "fade_out"), DEFAULT))
                self.shown.append([s[1], self.who(s[3], env), self.chars(
                    self.text(s[2], env)), None if s[1] == "tell" else tm])
            elif k == "clear":
                self.shown.append(["clear", self.who(s[1], env), [], None])
            elif k == "if":
                self.run(s[2] if self.b(s[1], env) else s[3], env)
            elif k == "each":
                for x in sorted(self.grp[s[1]]):
                    self.run(s[2], dict(env, **{"e%d" % s[3]: x}))
            elif k == "for":
                for x in s[2]:
                    self.run(s[3], dict(env, **{s[1]: x}))
            elif k == "call":
                f = [f for f in self.p["fns"] if f["name"] == s[1]][0]
                e2 = {}
                for (n, t), x in zip(f["params"], s[2]):
                    e2[n] = self.i(x[1], env) if t == "int" else \
                        self.b(x[1], env) if t == "bool" else \
                        self.text(x[1], env)
                self.run(f["body"], e2)
            elif k == "meth":
                self.run(self.p["method"], {"q": self.i(s[1], env)})
            elif k == "refill":
                self.grp[s[1]] = set(self.tagged())

    def main(self):
        p = self.p
        for n, v in p["ints"] + p["bools"] + p["consts"]:
            self.v[n] = v
        self.v["rec.f"] = p["rec"]
        self.v["probe.n"] = p["probe"]
        self.grp = {"grp": set(self.tagged()), "live": set(self.tagged())}
        for n, v in p["consts"]:
            if isinstance(v, str):
                self.globals[n] = [(v, None)]
        for n, t in p["texts"]:
            self.globals[n] = self.text(t, {})
        self.run(p["main"], {})


def styled(s):
    """Text with section sign codes -> [(character, style)]"""
    out = []
    st = list(PLAIN)
    i = 0
    while i < len(s):
        if s[i] == "\xa7" and i + 1 < len(s):
            c = s[i + 1]
            if c == "r":
                st = list(PLAIN)
            elif c in CODES:
                st[0] = CODES[c]
            elif c in FORMATS:
                st["lok".index(c) + 1] = True
            i += 2
            continue
        out.append((s[i], tuple(st)))
        i += 1
    return out


def displays(log):
    """-> [[kind, who, characters, times]]; problems are times left over"""
    times = {}
    out = []
    for x in log:
        if x[0] == "tell":
            out.append(["tell", list(x[1]), styled(x[2]), None])
        elif x[0] == "title":
            t = {times.get(p, DEFAULT) for p in x[2]}
            out.append([x[1], list(x[2]), styled(x[3]),
                        t.pop() if len(t) == 1 else None if not t
                        else sorted(t)])
        elif x[0] == "titletimes":
            for p in x[1]:
                times[p] = tuple(x[2])
        elif x[0] == "titlereset":
            for p in x[1]:
                times.pop(p, None)
        elif x[0] == "titleclear":
            out.append(["clear", list(x[1]), [], None])
    return out, times


def flat(d):
    return "%s %r %r" % (d[0], "".join(c for c, _ in d[2])[:200], d[3])


def compare(out, ev, p, got, want):
    for j in range(max(len(got), len(want))):
        g = got[j] if j < len(got) else None
        x = want[j] if j < len(want) else None
        what, at = None, ""
        if g is None or x is None:
            what = "extra" if g else "missing"
        elif g[0] != x[0]:
            what = "kind"
        elif [c for c, _ in g[2]] != [c for c, _ in x[2]]:
            what = "text"
        elif [tuple(c) for c in g[2]] != [tuple(c) for c in x[2]]:
            what = "font"
            at = [" (character %d: %r, expected %r)" % (q, a, b)
                  for q, (a, b) in enumerate(zip(g[2], x[2]))
                  if tuple(a) != tuple(b)][0]
        elif g[3] != x[3]:
            what = "times"
        if what:
            out.fail(what, "after %r: display %d of player %d is %s, "
                     "expected %s%s" % (ev, j, p, g and flat(g),
                                        x and flat(x), at), what)
            return


def seen(ds):
    """{player: what the player sees}"""
    out = {}
    for d in ds:
        for p in d[1]:
            out.setdefault(p, []).append(d)
    return out


def run_case(case):
    out = Outcome()
    prog, cfg = case["prog"], case["config"]
    try:
        src = {"main.aca": render(prog)}
    except (KeyError, IndexError, ValueError, TypeError):
        out.discard = "not a program"
        return out
    res = simrun.compile_or_fail(out, src, cfg)
    if res is None:
        if case.get("shrunk"):
            out.discard = "not a program"
        return out
    w = simrun.new_world(case["seed"], res, {"obs": {}})
    for j in range(case["players"]):
        p = w.spawn("player", name="P%d" % j)
        if j != 1:
            p.tags["band"] = 1
    a = w.spawn("armor_stand", pos=(7, 7, 7))
    a.tags["band"] = 1

    def tagged():
        return {e.id for e in w.ents.values() if "band" in e.tags}

    def players():
        return {e.id for e in w.ents.values() if e.is_player}

    m = Model(prog, tagged)
    m.everyone = players
    init = simrun.fn_path(cfg, cfg.get("init_file", "init")) \
        if cfg.get("split_init") else None
    ready = False
    saved = None
    total = 0
    sig = []
    for ev in case["events"]:
        k = ev[0]
        n0 = len(w.log)
        m.shown = []
        m.steps = 0
        try:
            if k == "main":
                m.main()
                ready = True
            elif k == "if":
                b = [b for n, b in prog["ifaces"] if n == ev[1]]
                if not ready or not b:
                    continue
                m.run(b[0], {})
        except OverflowError:
            out.count("histories_cut")
            break
        except (KeyError, IndexError, TypeError) as e:
            if case.get("shrunk"):
                out.discard = "not a program"
                return out
            raise
        if k == "main":
            if init:
                w.run_function(init)
            simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file",
                                                            "main")))
        elif k == "if":
            simrun.enter(out, w, simrun.fn_path(cfg, ev[1]))
        elif k == "restart":
            w.restore(w.snapshot())
            out.fault("restart")
        elif k == "save":
            saved = (w.snapshot(), m.state(), ready)
        elif k == "crash" and saved:
            w.restore(saved[0])
            m.load(saved[1])
            ready = saved[2]
            out.fault("crash_rollback")
        elif k == "join":
            p = w.spawn("player", name="J%d" % len(w.ents))
            if ev[1]:
                p.tags["band"] = 1
            out.fault("player_joins")
        elif k == "tag":
            ps = sorted(players())
            if ev[1] < len(ps):
                t = w.ents[ps[ev[1]]].tags
                if "band" in t:
                    del t["band"]
                else:
                    t["band"] = 1
                out.fault("tag_changed")
        elif k == "leave":
            ps = sorted(players())
            if ev[1] < len(ps) and len(ps) > 1:
                del w.ents[ps[ev[1]]]
                for x in m.grp.values():
                    x.discard(ps[ev[1]])
                out.fault("player_leaves")
        if w.problems:
            out.fail("problem", "%r: %r" % (ev, w.problems[0]),
                     "%s" % (w.problems[0][0],))
            break
        got, left = displays(w.log[n0:])
        got, want = seen(got), seen(m.shown)
        total += sum(map(len, want.values()))
        sig.append([[p, ["".join(c for c, _ in d[2]) for d in v]]
                    for p, v in sorted(got.items())])
        for p in sorted(set(got) | set(want)):
            compare(out, ev, p, got.get(p, []), want.get(p, []))
            if out.violation:
                break
        if left and not out.violation:
            out.fail("times", "after %r: the display times %r stay in "
                     "effect" % (ev, left))
        if out.violation:
            break
    out.count("commands", w.ncmds)
    out.count("displays_compared", total)
    out.count("events", len(case["events"]))
    out.nontrivial = total >= 3
    out.sigs = [digest(sig)]
    out.trace = digest(w.log)
    out.sample = {"main.aca": src["main.aca"][:1500],
                  "events": case["events"]}
    return out


# ------------------------------------------------------------ shrinking

def cuts(b):
    n = len(b)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield b[:i] + b[i + size:]
        size //= 2


def sh_text(t):
    k = t[0]
    if k == "str" and t[1]:
        yield ["str", ""]
        for i in range(len(t[1])):
            yield ["str", t[1][:i] + t[1][i + 1:]]
    elif k in ("cat",):
        yield t[1]
        yield t[2]
        for x in sh_text(t[1]):
            yield ["cat", x, t[2]]
        for x in sh_text(t[2]):
            yield ["cat", t[1], x]
    elif k == "font":
        yield t[1]
        for n in t[2]:
            yield ["font", t[1], {a: b for a, b in t[2].items() if a != n}]
        for x in sh_text(t[1]):
            yield ["font", x, t[2]]
    elif k == "format":
        yield ["str", "z"]
        for x in t[2]:
            if x[0] == "text":
                yield x[1]
        for b in cuts(t[1]):
            yield ["format", b, t[2], t[3]]
        for i, x in enumerate(t[2]):
            for y in sh_any(x):
                yield ["format", t[1], t[2][:i] + [y] + t[2][i + 1:], t[3]]
        if t[2]:
            yield ["format", t[1], t[2][:-1], t[3]]
        for i, (n, x) in enumerate(t[3]):
            yield ["format", t[1], t[2], t[3][:i] + t[3][i + 1:]]
            for y in sh_any(x):
                yield ["format", t[1], t[2],
                       t[3][:i] + [[n, y]] + t[3][i + 1:]]
    elif k in ("strf", "translate", "ref"):
        yield ["str", "z"]


def sh_any(x):
    if x[0] == "text":
        for y in sh_text(x[1]):
            yield ["text", y]
        yield ["int", ["lit", 1]]
    elif x[0] == "int":
        if x[1][0] in ("bin",):
            yield ["int", x[1][2]]
            yield ["int", x[1][3]]
        elif x[1][0] in ("neg", "call"):
            yield ["int", x[1][1]]
        if x[1] != ["lit", 1]:
            yield ["int", ["lit", 1]]
    else:
        if x[1][0] in ("not", "and", "or"):
            for y in x[1][1:]:
                yield ["bool", y]
        yield ["int", ["lit", 1]]


def sh_body(b):
    yield from cuts(b)
    for i, s in enumerate(b):
        for x in sh_stmt(s):
            yield b[:i] + x + b[i + 1:]


def sh_stmt(s):
    k = s[0]
    if k == "if":
        yield s[2]
        yield s[3]
        for j in (2, 3):
            for y in sh_body(s[j]):
                yield [s[:j] + [y] + s[j + 1:]]
    elif k == "each":
        for y in sh_body(s[2]):
            yield [s[:2] + [y] + s[3:]]
    elif k == "for":
        for y in sh_body(s[3]):
            yield [s[:3] + [y]]
        for y in cuts(s[2]):
            if y:
                yield [s[:2] + [y] + s[3:]]
    elif k in ("show", "let"):
        for y in sh_text(s[2]):
            yield [s[:2] + [y] + s[3:]]
        if k == "show":
            if s[3]:
                yield [s[:3] + [None] + s[4:]]
            if s[4]:
                yield [s[:4] + [{}] + s[5:]]
            if s[1] != "tell":
                yield [["show", "tell"] + s[2:]]
    elif k == "call":
        for i, x in enumerate(s[2]):
            for y in sh_any(x):
                if y[0] == x[0]:
                    yield [s[:2] + [s[2][:i] + [y] + s[2][i + 1:]]]
    elif k == "set":
        yield [["set", s[1], ["lit", 1]]]


def shrinks(case):
    case = dict(case, shrunk=True)
    yield from simrun.shrink_events(case)
    yield from simrun.shrink_config(case)
    p = case["prog"]

    def put(**kw):
        return dict(case, prog=dict(p, **kw))
    for b in sh_body(p["main"]):
        yield put(main=b)
    for i, (n, b) in enumerate(p["ifaces"]):
        yield put(ifaces=p["ifaces"][:i] + p["ifaces"][i + 1:])
        for x in sh_body(b):
            yield put(ifaces=p["ifaces"][:i] + [[n, x]]
                      + p["ifaces"][i + 1:])
    for i, f in enumerate(p["fns"]):
        yield put(fns=p["fns"][:i] + p["fns"][i + 1:])
        for x in sh_body(f["body"]):
            yield put(fns=p["fns"][:i] + [dict(f, body=x)]
                      + p["fns"][i + 1:])
    for b in sh_body(p["method"]):
        yield put(method=b)
    for i, (n, t) in enumerate(p["texts"]):
        yield put(texts=p["texts"][:i] + p["texts"][i + 1:])
        for x in sh_text(t):
            yield put(texts=p["texts"][:i] + [[n, x]] + p["texts"][i + 1:])
    for b in cuts(p["ints"]):
        yield put(ints=b)
    for b in cuts(p["bools"]):
        yield put(bools=b)
    if case["players"] > 1:
        yield dict(case, players=1)


def describe(case):
    return {"sources": {"main.aca": render(case["prog"])},
            "events": case["events"], "config": case["config"]}
