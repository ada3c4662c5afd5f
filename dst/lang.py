"""A small executable reference of the Acacia language.

Programs are JSON trees.  `Renderer` writes them as Acacia source, `Interp`
runs them directly on plain Python values.  The two share nothing with the
compiler under test: the interpreter knows variables, control flow and calls,
not scoreboards, files or commands.

A variable is a uid "name@n": the text before "@" is what is written in the
source, the whole uid is what the interpreter binds, so that scoping and
shadowing are decided by the generator and checked on the compiler.

A case in which the reference meets something the language leaves undefined
(division by zero, an overflow of a compile time constant...) raises Discard.
"""

import random

from .mcworld import wrap, cdiv, cmod, IMIN, IMAX


class Discard(Exception):
    pass


def text_of(uid):
    return uid.partition("@")[0]


# ------------------------------------------------------------- rendering

PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5,
        "*": 6, "/": 6, "%": 6, "un": 7, "prim": 8}


class Renderer:
    """style: Random used for redundant parentheses, blank lines etc.;
    None writes plainly."""

    def __init__(self, style=None):
        self.style = style
        self.lines = []
        self.ind = 0

    def chance(self, p):
        return self.style is not None and self.style.random() < p

    # expressions
    def tn(self, ty):
        """How a type is written."""
        return text_of(ty)

    def e(self, x, ctx=0):
        s, p = self._e(x)
        if p < ctx or (p < 8 and self.chance(.06)):
            return "(" + s + ")"
        return s

    def _e(self, x):
        t = x[0]
        if t == "i":
            n = x[1]
            if n == IMIN:
                return "int.MIN", 8
            if n == IMAX and self.chance(.5):
                return "int.MAX", 8
            if n < 0:
                return "-%d" % -n, 7
            if self.chance(.05):
                return hex(n), 8
            return str(n), 8
        if t == "b":
            return ("True" if x[1] else "False"), 8
        if t == "v":
            return text_of(x[1]), 8
        if t == "q":
            return "%s.%s" % (x[1], text_of(x[2])), 8
        if t == "a":        # imported under another name
            return x[1], 8
        if t == "f":
            return "%s.%s" % (self.e(x[1], 8), x[2]), 8
        if t == "neg":
            return "-" + self.e(x[1], 7), 7
        if t == "pos":
            return "+" + self.e(x[1], 7), 7
        if t == "not":
            return "not " + self.e(x[1], 3), 3
        if t == "bin":
            op = x[1]
            p = PREC[op]
            sp = "" if self.chance(.1) else " "
            return (self.e(x[2], p) + sp + op + sp + self.e(x[3], p + 1)), p
        if t == "cmp":
            s = self.e(x[1], 5)
            for op, y in x[2]:
                s += " %s %s" % (op, self.e(y, 5))
            return s, 4
        if t in ("and", "or"):
            p = PREC[t]
            return (" %s " % t).join(self.e(y, p + 1) for y in x[1]), p
        if t == "int":
            return "int(%s)" % self.e(x[1]), 8
        if t == "call":
            return "%s(%s)" % (self.callee(x[1]), self.args(x[2], x[3])), 8
        if t == "math":
            return "%s(%s)" % (x[1], self.args(x[2], [])), 8
        if t == "rand":
            return "%s(%s, %s)" % (x[1], self.e(["i", x[2]]),
                                   self.e(["i", x[3]])), 8
        if t == "new":
            return "%s(%s)" % (
                text_of(x[1]),
                ", ".join("%s=%s" % (k, self.e(v)) for k, v in x[2])), 8
        if t == "cc":       # constant container expression: text + value
            return x[1], 8
        raise AssertionError(t)

    def callee(self, f):
        if isinstance(f, list):
            if f[0] == "a":
                return f[1]
            return "%s.%s" % (f[1], text_of(f[2]))
        return text_of(f)

    def args(self, pos, kw):
        return ", ".join([self.e(a) for a in pos]
                         + ["%s=%s" % (k, self.e(a)) for k, a in kw])

    # statements
    def w(self, s):
        if self.chance(.03):
            self.lines.append(self.style.choice(
                ["", "# note", "   # odd", "#* block\n note *#"]))
        if s[:1] != "/" and self.chance(.03):
            s += "  # tail"
        self.lines.append("    " * self.ind + s)

    def block(self, body):
        self.ind += 1
        if not body:
            self.w("pass")
        for st in body:
            self.st(st)
        self.ind -= 1

    def st(self, x):
        t = x[0]
        if t == "def":
            _, uid, ty, e, typed = x
            if e is None:
                self.w("%s: %s" % (text_of(uid), self.tn(ty)))
            elif typed:
                self.w("%s: %s = %s" % (text_of(uid), self.tn(ty), self.e(e)))
            else:
                self.w("%s := %s" % (text_of(uid), self.e(e)))
        elif t == "set":
            self.w("%s = %s" % (self.e(x[1]), self.e(x[2])))
        elif t == "aug":
            self.w("%s %s= %s" % (self.e(x[1]), x[2], self.e(x[3])))
        elif t == "ref":
            self.w("&%s%s = %s" % (text_of(x[1]),
                                   ": int" if x[3] else "", self.e(x[2])))
        elif t == "scb":
            self.w('&%s = scb("%s", "%s")' % (text_of(x[1]), x[2], x[3]))
        elif t == "const":
            self.w("const %s = %s" % (text_of(x[1]), self.e(x[2])))
        elif t == "if":
            for i, (c, b) in enumerate(x[1]):
                self.w("%s %s:" % ("elif" if i else "if", self.e(c)))
                self.block(b)
            if x[2] is not None:
                self.w("else:")
                self.block(x[2])
        elif t == "while":
            self.w("while %s:" % self.e(x[1]))
            self.block(x[2])
        elif t == "for":
            self.w("for %s in %s:" % (text_of(x[1]), x[2]))
            self.block(x[4])
        elif t == "func":
            self.func(x)
        elif t == "iface":
            self.w("interface %s:" % x[1])
            self.block(x[2])
        elif t == "expr":
            self.w(self.e(x[1]))
        elif t == "result":
            self.w("result %s" % self.e(x[1]))
        elif t == "mark":
            self.w("/say #%d" % x[1])
        elif t == "swap":
            self.w("swap(%s, %s)" % (self.e(x[1]), self.e(x[2])))
        elif t == "pass":
            self.w("pass")
        elif t == "import":
            self.w(x[2])
        elif t == "struct":
            ext = (" extends " + ", ".join(map(text_of, x[3]))) if x[3] else ""
            self.w("struct %s%s:" % (text_of(x[1]), ext))
            self.ind += 1
            for n, ty in x[2]:
                self.w("%s: %s" % (n, self.tn(ty)))
            if not x[2]:
                self.w("pass")
            self.ind -= 1
        elif t == "raw":
            for ln in x[1]:
                self.w(ln)
        else:
            raise AssertionError(t)

    def params(self, params):
        # param: [uid, type, default|None, port]
        ps = []
        for puid, ty, dflt, port in params:
            s = {"ref": "&", "const": "const ", "val": ""}[port]
            s += text_of(puid)
            if dflt is None:
                s += ": " + self.tn(ty)
            else:
                s += (": " + self.tn(ty) if self.chance(.5) else "") \
                    + " = " + self.e(dflt)
            ps.append(s)
        return ", ".join(ps)

    def func(self, x, qual=""):
        # ["func", kind, uid, params, ret, body]
        _, kind, uid, params, ret, body = x
        head = {"def": "def", "inline": "inline def",
                "const": "const def"}[kind]
        self.w("%s%s %s(%s)%s:" % (
            qual + " " if qual else "", head, text_of(uid),
            self.params(params), " -> " + self.tn(ret) if ret else ""))
        self.block(body)

    def module(self, stmts):
        self.lines = []
        for s in stmts:
            self.st(s)
        return "\n".join(self.lines) + "\n"


RENDERERS = {"": Renderer}


def render(prog):
    """prog: {"style": int|None, "modules": {name: [stmts]}}"""
    out = {}
    for name, stmts in prog["modules"].items():
        st = prog.get("style")
        r = RENDERERS[prog.get("lang", "")](
            random.Random("%s/%s" % (st, name)) if st is not None else None)
        r.prog = prog
        out[name.replace(".", "/") + ".aca"] = r.module(stmts)
    return out


# ----------------------------------------------------------- interpreting

class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        if self.v is None:
            raise Discard("uninitialised")
        return self.v

    def set(self, v):
        self.v = v


class ScoreCell:
    __slots__ = ("tbl", "key")

    def __init__(self, tbl, key):
        self.tbl = tbl
        self.key = key

    def get(self):
        if self.key not in self.tbl:
            raise Discard("uninitialised score")
        return self.tbl[self.key]

    def set(self, v):
        self.tbl[self.key] = v


class StructCell:
    """A struct variable: named cells."""
    __slots__ = ("tmpl", "f")

    def __init__(self, tmpl, f):
        self.tmpl = tmpl
        self.f = f


class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def arith(op, a, b):
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        return wrap(a * b)
    if b == 0 or (a == IMIN and b == -1):
        raise Discard("division")
    return cdiv(a, b) if op == "/" else cmod(a, b)


def arith_const(op, a, b):
    if op in "+-*":
        v = a + b if op == "+" else a - b if op == "-" else a * b
    elif b == 0:
        raise Discard("const division")
    else:
        v = cdiv(a, b) if op == "/" else cmod(a, b)
    if not IMIN <= v <= IMAX:
        raise Discard("const overflow")
    return v


class Unknowns(dict):
    def __missing__(self, key):
        raise Discard("value lost in a truncated run")


class Interp:
    MAXSTEPS = 20000

    def __init__(self, prog, obs, draws):
        self.prog = prog
        self.obs = obs            # objective -> {name: int}
        self.draws = draws        # Random, shared order with the world
        self.env = {}
        self.funcs = {}
        self.structs = {}
        self.ifaces = {}
        self.log = []
        self.loaded = set()
        self.ready = False
        self.maths = 0
        self.steps = 0
        self.result = None
        self.in_const = False
        self.obs_name = "obs"
        self.cover = set()
        self.tickno = 0
        self.selfv = None
        self.kind = None        # of the function that runs

    # -- durable state
    def snapshot(self):
        import copy
        keep = {}

        def freeze(c):
            if isinstance(c, Cell):
                return ("c", id(c), c.v)
            if isinstance(c, StructCell):
                return ("s", {k: freeze(v) for k, v in c.f.items()})
            return ("x",)
        for u, c in self.env.items():
            keep[u] = freeze(c)
        return {"env": keep, "obs": copy.deepcopy(self.obs),
                "loaded": set(self.loaded), "ready": self.ready}

    def restore(self, s):
        def thaw(c, f):
            if f[0] == "c" and isinstance(c, Cell):
                c.v = f[2]
            elif f[0] == "s" and isinstance(c, StructCell):
                for k, v in f[1].items():
                    thaw(c.f[k], v)
        for u, c in self.env.items():
            if u in s["env"]:
                thaw(c, s["env"][u])
            elif isinstance(c, Cell):
                c.v = None      # did not exist then
        self.loaded = set(s["loaded"])
        self.ready = s["ready"]
        for o, t in s["obs"].items():
            cur = self.obs.setdefault(o, {})
            cur.clear()
            cur.update(t)

    def forget(self):
        """The state of the variables is no longer known."""
        self.ready = False
        env = Unknowns()
        for u, c in self.env.items():
            if isinstance(c, (ScoreCell, Const)):
                env[u] = c
        self.env = env

    # -- events
    def restarted(self):
        pass

    def compare(self, w):
        """What else differs between the world and the model:
        (kind, text) or None."""

    def run_main(self):
        self.loaded = set()
        self.steps = 0
        self.block(self.prog["modules"]["main"])
        self.ready = True

    def run_iface(self, path):
        self.steps = 0
        if not self.ready or path not in self.ifaces:
            raise Discard("interface of a module that never ran")
        self.block(self.ifaces[path])

    def tick(self):
        self.tickno += 1

    # -- statements
    def step(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Discard("too long")

    def block(self, body):
        for s in body:
            self.st(s)

    def st(self, x):
        self.step()
        t = x[0]
        self.cover.add(t)
        getattr(self, "s_" + t)(x)

    def bind(self, uid, v):
        c = self.env.get(uid)
        if isinstance(c, Cell):
            c.v = v
        else:
            self.env[uid] = Cell(v)

    def s_def(self, x):
        _, uid, ty, e, _t = x
        if e is None:
            if "@" in ty:
                if uid not in self.env:
                    self.env[uid] = self.new_struct(ty)
            elif uid not in self.env:
                self.env[uid] = Cell()
            return
        if e[0] == "new":
            # the constructor initialises the variable in place
            if not isinstance(self.env.get(uid), StructCell):
                self.env[uid] = self.new_struct(ty)
            self.construct(self.env[uid], e)
            return
        v = self.ev(e)
        if isinstance(v, dict):
            if not isinstance(self.env.get(uid), StructCell):
                self.env[uid] = self.new_struct(ty)
            self.copy_in(self.env[uid], v)
        else:
            self.bind(uid, v)

    def construct(self, cell, e):
        vals = [(k, self.ev(v)) for k, v in e[2]]
        for k, v in vals:
            c = cell.f[k]
            if isinstance(c, StructCell):
                self.copy_in(c, v)
            else:
                c.set(v)

    def new_struct(self, uid):
        f = {}
        for n, ty in self.fields(uid):
            f[n] = self.new_struct(ty) if "@" in ty else Cell()
        return StructCell(uid, f)

    def fields(self, uid):
        own, bases = self.structs[uid]
        res = list(own)
        for b in bases:
            res += self.fields(b)
        return res

    def copy_in(self, cell, v):
        for k, c in cell.f.items():
            if k not in v:
                raise Discard("uninitialised field")
            if isinstance(c, StructCell):
                self.copy_in(c, v[k])
            else:
                if v[k] is None:
                    raise Discard("uninitialised field")
                c.set(v[k])

    @staticmethod
    def read_struct(cell):
        return {k: (Interp.read_struct(c) if isinstance(c, StructCell)
                    else c.v) for k, c in cell.f.items()}

    def lval(self, e):
        if e[0] == "v":
            return self.env[e[1]]
        if e[0] in ("q", "a"):
            return self.env[e[2]]
        if e[0] == "f":
            return self.lval(e[1]).f[e[2]]
        if e[0] == "call":
            return self.call(e, want_ref=True)
        raise AssertionError(e)

    def s_set(self, x):
        if x[2][0] == "new":
            self.construct(self.lval(x[1]), x[2])
            return
        v = self.ev(x[2])
        c = self.lval(x[1])
        if isinstance(c, StructCell):
            self.copy_in(c, v)
        else:
            c.set(v)

    def s_aug(self, x):
        b = self.ev(x[3])
        c = self.lval(x[1])
        a = c.get()
        if self.in_const:
            c.set(arith_const(x[2], a, b))
        else:
            c.set(arith(x[2], a, b))

    def s_ref(self, x):
        self.env[x[1]] = self.lval(x[2])

    def s_scb(self, x):
        self.env[x[1]] = ScoreCell(self.obs.setdefault(x[3], {}), x[2])

    def s_const(self, x):
        self.env[x[1]] = Const(self.ev(x[2]))

    def s_if(self, x):
        if any(has_rand(c) for c, _ in x[1]) and not all(
                any(s[0] in ("mark", "set", "aug") for s in b)
                for b in [b for _, b in x[1]] + [x[2] or [["mark"]]]):
            # a condition nothing depends on need not be evaluated
            raise Discard("unused draw")
        for c, b in x[1]:
            if self.ev(c):
                self.block(b)
                return
        if x[2] is not None:
            self.block(x[2])

    def s_while(self, x):
        while self.ev(x[1]):
            self.step()
            self.block(x[2])

    def s_for(self, x):
        for v in x[3]:
            self.step()
            if isinstance(v, list):
                self.env[x[1]] = Const(self.ev(v))
            else:
                self.env[x[1]] = Const(v)
            for d in declared(x[4]):
                self.env.pop(d, None)
            self.block(x[4])

    def s_func(self, x):
        self.funcs[x[2]] = x

    def s_iface(self, x):
        self.ifaces[x[1].strip('"')] = x[2]

    def s_expr(self, x):
        self.ev(x[1])

    def s_result(self, x):
        self.result = self.ev(x[1]) if x[1][0] != "refresult" \
            else self.lval(x[1][1])

    def s_mark(self, x):
        self.log.append([str(x[1]), dict(self.obs[self.obs_name]),
                         self.tickno])

    def s_swap(self, x):
        a, b = self.lval(x[1]), self.lval(x[2])
        if isinstance(a, StructCell):
            va, vb = self.read_struct(a), self.read_struct(b)
            self.copy_in(a, vb)
            self.copy_in(b, va)
        else:
            va, vb = a.get(), b.get()
            a.set(vb)
            b.set(va)

    def s_pass(self, x):
        pass

    def s_raw(self, x):
        pass

    def s_struct(self, x):
        self.structs[x[1]] = (x[2], x[3])

    def s_import(self, x):
        m = x[1]
        if m is None or m in self.loaded:
            return
        self.loaded.add(m)
        self.block(self.prog["modules"][m])

    # -- expressions
    def ev(self, e):
        t = e[0]
        if t == "i":
            return e[1]
        if t == "b":
            return bool(e[1])
        if t in ("v", "q", "a"):
            c = self.env[e[1] if t == "v" else e[2]]
            if isinstance(c, StructCell):
                return self.read_struct(c)
            return c.get()
        if t == "f":
            c = self.lval(e)
            if isinstance(c, StructCell):
                return self.read_struct(c)
            return c.get()
        if t == "neg":
            v = self.ev(e[1])
            if self.in_const and v == IMIN:
                raise Discard("const overflow")
            return wrap(-v)
        if t == "pos":
            return self.ev(e[1])
        if t == "not":
            return not self.ev(e[1])
        if t == "bin":
            a = self.ev(e[2])
            b = self.ev(e[3])
            if self.in_const:
                return arith_const(e[1], a, b)
            return arith(e[1], a, b)
        if t == "cmp":
            a = self.ev(e[1])
            res = True
            for op, y in e[2]:
                b = self.ev(y)
                if not CMP[op](a, b):
                    res = False
                a = b
            return res
        if t == "and":
            return all([self.ev(y) for y in e[1]])
        if t == "or":
            return any([self.ev(y) for y in e[1]])
        if t == "int":
            return int(self.ev(e[1]))
        if t == "rand":
            return self.draws.randint(e[2], e[3])
        if t == "math":
            return self.math(e[1].split(".")[-1],
                             [self.ev(a) for a in e[2]])
        if t == "cc":
            return e[2]
        if t == "call":
            return self.call(e)
        raise AssertionError(t)

    def math(self, f, a):
        self.maths += 1
        if f == "min":
            return min(a)
        if f == "max":
            return max(a)
        if f == "pow":
            if a[1] < 0:
                raise Discard("negative exponent")
            return wrap(pow(a[0], a[1], 1 << 32))
        if a[1] == 0:
            raise Discard("division")
        if a[0] == IMIN and a[1] == -1:
            raise Discard("extreme")
        if f == "mod":
            return a[0] % a[1]
        if f == "floordiv":
            return a[0] // a[1]
        raise AssertionError(f)

    def call(self, e, want_ref=False, selfv=None):
        self.step()
        f = e[1][2] if isinstance(e[1], list) else e[1]
        _, kind, uid, params, ret, body = self.funcs[f]
        byname = {text_of(p[0]): i for i, p in enumerate(params)}
        got = [None] * len(params)
        for i, a in enumerate(e[2]):
            got[i] = a
        for k, a in e[3]:
            got[byname[k]] = a
        bound = []
        for (puid, ty, dflt, port), a in zip(params, got):
            if a is None:
                a = dflt
            if port == "ref":
                bound.append((puid, self.lval(a)))
            else:
                bound.append((puid, self.ev(a)))
        saved_const = self.in_const
        saved = self.result
        self.result = None
        fresh = declared(body)
        outer = {p[0]: self.env[p[0]] for p in params if p[0] in self.env}
        for d in fresh:
            self.env.pop(d, None)
        for (puid, ty, dflt, port), (_, v) in zip(params, bound):
            if port == "ref":
                self.env[puid] = v
            elif port == "const":
                self.env[puid] = Const(v)
            elif isinstance(v, dict):
                self.env[puid] = self.new_struct(ty)
                self.copy_in(self.env[puid], v)
            else:
                self.env[puid] = Cell(v)
        if kind == "const":
            self.in_const = True
        # (an override may name its parameters like the overridden one)
        saved_self, self.selfv = self.selfv, selfv
        saved_kind, self.kind = self.kind, kind
        try:
            self.block(body)
        finally:
            self.in_const = saved_const
            self.selfv = saved_self
            self.kind = saved_kind
        if kind != "const":
            self.env.update(outer)
        r = self.result
        self.result = saved
        if want_ref:
            return r
        if ret and r is None:
            raise Discard("no result")
        if isinstance(r, (Cell, ScoreCell)):
            r = r.get()
        elif isinstance(r, StructCell):
            r = self.read_struct(r)
        return r


INTERPS = {"": Interp}


def has_rand(e):
    return e[0] == "rand" or any(
        has_rand(y) for y in e if isinstance(y, list) and y) \
        if e and isinstance(e[0], str) else any(
        has_rand(y) for y in e if isinstance(y, list) and y)



def declared(body):
    """uids of the variables declared in a body (not in nested scopes)."""
    out = []
    for s in body:
        t = s[0]
        if t in ("def", "ref"):
            out.append(s[1])
        elif t == "if":
            for _, b in s[1]:
                out += declared(b)
            if s[2]:
                out += declared(s[2])
        elif t == "while":
            out += declared(s[2])
    return out


# ------------------------------------------------------------- shrinking

def _sub_exprs(e):
    t = e[0]
    if t in ("neg", "pos", "not", "int"):
        return [e[1]]
    if t == "bin":
        return [e[2], e[3]]
    if t == "cmp":
        return [["b", 1], ["b", 0]]
    if t in ("and", "or"):
        return list(e[1])
    return []


INTISH = ("i", "neg", "pos", "bin", "int", "rand", "math")
BOOLISH = ("b", "not", "cmp", "and", "or")


def shrink_expr(e):
    """Yield simpler expressions of (very likely) the same type."""
    t = e[0]
    if t in INTISH and t != "i":
        yield ["i", 1]
    if t in BOOLISH and t != "b":
        yield ["b", 1]
        yield ["b", 0]
    if t in ("neg", "pos", "not"):
        yield e[1]
    if t == "bin":
        yield e[2]
        yield e[3]
        for s in shrink_expr(e[2]):
            yield ["bin", e[1], s, e[3]]
        for s in shrink_expr(e[3]):
            yield ["bin", e[1], e[2], s]
    elif t in ("neg", "pos", "not", "int"):
        for s in shrink_expr(e[1]):
            yield [t, s]
    elif t in ("and", "or"):
        for i in range(len(e[1])):
            if len(e[1]) > 2:
                yield [t, e[1][:i] + e[1][i + 1:]]
            yield e[1][i]
        for i in range(len(e[1])):
            for s in shrink_expr(e[1][i]):
                yield [t, e[1][:i] + [s] + e[1][i + 1:]]
    elif t == "cmp":
        if len(e[2]) > 1:
            for i in range(len(e[2])):
                yield ["cmp", e[1], e[2][:i] + e[2][i + 1:]]
        for s in shrink_expr(e[1]):
            yield ["cmp", s, e[2]]
        for i, (op, y) in enumerate(e[2]):
            for s in shrink_expr(y):
                yield ["cmp", e[1], e[2][:i] + [[op, s]] + e[2][i + 1:]]
    elif t == "call":
        for i, a in enumerate(e[2]):
            for s in shrink_expr(a):
                yield [t, e[1], e[2][:i] + [s] + e[2][i + 1:], e[3]]
        for i, (k, a) in enumerate(e[3]):
            yield [t, e[1], e[2], e[3][:i] + e[3][i + 1:]]
            for s in shrink_expr(a):
                yield [t, e[1], e[2], e[3][:i] + [[k, s]] + e[3][i + 1:]]
    elif t == "math":
        for i, a in enumerate(e[2]):
            for s in shrink_expr(a):
                yield [t, e[1], e[2][:i] + [s] + e[2][i + 1:]]
    elif t == "i" and abs(e[1]) > 1:
        for n in {1, e[1] // 2}:
            yield ["i", n]


def shrink_block(body):
    n = len(body)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield body[:i] + body[i + size:]
        size //= 2
    for i, s in enumerate(body):
        for r in shrink_stmt(s):
            yield body[:i] + r + body[i + 1:]


def shrink_stmt(s):
    """Yield lists of statements replacing s."""
    t = s[0]
    if t in SHRINK_STMT:
        yield from SHRINK_STMT[t](s)
    elif t == "if":
        for c, b in s[1]:
            yield b
        if s[2] is not None:
            yield s[2]
            yield [["if", s[1], None]]
        for i in range(len(s[1])):
            if len(s[1]) > 1:
                yield [["if", s[1][:i] + s[1][i + 1:], s[2]]]
        for i, (c, b) in enumerate(s[1]):
            for r in shrink_expr(c):
                yield [["if", s[1][:i] + [[r, b]] + s[1][i + 1:], s[2]]]
            for r in shrink_block(b):
                yield [["if", s[1][:i] + [[c, r]] + s[1][i + 1:], s[2]]]
        if s[2]:
            for r in shrink_block(s[2]):
                yield [["if", s[1], r]]
    elif t == "while":
        yield s[2]
        for r in shrink_expr(s[1]):
            if r[0] != "b":
                yield [["while", r, s[2]]]
        for r in shrink_block(s[2]):
            yield [["while", s[1], r]]
    elif t == "for":
        for r in shrink_block(s[4]):
            yield [s[:4] + [r]]
    elif t == "func":
        for r in shrink_block(s[5]):
            yield [s[:5] + [r]]
    elif t == "iface":
        for r in shrink_block(s[2]):
            yield [[t, s[1], r]]
    elif t == "def" and s[3] is not None:
        for r in shrink_expr(s[3]):
            yield [s[:3] + [r] + s[4:]]
    elif t in ("set", "result", "expr", "aug", "const"):
        for r in shrink_expr(s[-1]):
            yield [s[:-1] + [r]]


SHRINK_STMT = {}     # statement kind -> generator of replacements


def shrink_prog(prog):
    if prog.get("style") is not None:
        yield dict(prog, style=None)
    for m in list(prog["modules"]):
        for b in shrink_block(prog["modules"][m]):
            mods = dict(prog["modules"])
            mods[m] = b
            yield dict(prog, modules=mods)
