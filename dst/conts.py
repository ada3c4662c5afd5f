"""Programs about compile-time lists and maps: generator, renderer, model.

Inside const functions a container is an object made of cells; a name is a
cell of its own; constants outside are immutable and are converted anew
wherever a const function uses them."""

import random

from . import simrun
from .engine import digest
from .mcworld import wrap


class Skip(Exception):
    """The program leaves what is defined."""


class Bad(Exception):
    """The program does something the compiler has to refuse."""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class CL:
    """A list inside const functions."""

    def __init__(self, vals, frozen=False):
        self.c = [Cell(v) for v in vals]
        self.frozen = frozen


class CM:
    def __init__(self, items):
        self.d = {}
        for k, v in items:
            self.set(k, v)

    def set(self, k, v):
        kk = hkey(k)
        if kk in self.d:
            self.d[kk][1].v = v
        else:
            self.d[kk] = (k, Cell(v))


class RL(tuple):
    """A constant list."""


class RM:
    """A constant map."""

    def __init__(self, items):
        self.d = {}
        for k, v in items:
            # (the key itself is replaced too; equal keys look the same)
            self.d[rkey(k)] = (k, v)


def hkey(k):
    if isinstance(k, CL):
        return ("L",) + tuple(hkey(c.v) for c in k.c)
    if isinstance(k, (CM, RM)) or k is None:
        raise Skip("key")
    return (type(k).__name__, k)


def rkey(k):
    if isinstance(k, RL):
        return ("L",) + tuple(rkey(x) for x in k)
    if isinstance(k, (CM, RM)) or k is None:
        raise Skip("key")
    return (type(k).__name__, k)


def to_ct(v):
    if isinstance(v, RL):
        return CL([to_ct(x) for x in v], frozen=True)
    if isinstance(v, RM):
        return CM([(to_ct(k), to_ct(x)) for k, x in v.d.values()])
    return v


def to_rt(v, depth=0):
    if depth > 12:
        raise Skip("contains itself")
    if isinstance(v, CL):
        return RL([to_rt(c.v, depth + 1) for c in v.c])
    if isinstance(v, CM):
        return RM([(to_rt(k, depth + 1), to_rt(c.v, depth + 1))
                   for k, c in v.d.values()])
    return v


CMPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
        ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def kind(v):
    return "map" if isinstance(v, CM) else "list" if isinstance(v, CL) \
        else "bool" if isinstance(v, bool) else "int" if isint(v) \
        else "float" if isinstance(v, float) \
        else "none" if v is None else "str"


def need_int(v):
    if not isint(v):
        raise Skip("not an integer")
    return v


def farith(op, a, b):
    for v in (a, b):
        if not isint(v) and not isinstance(v, float):
            raise Skip("not a number")
    if op in "/%":
        if b == 0:
            raise Skip("division by zero")
        if op == "%" and (a < 0 or b < 0):
            raise Skip("rounding is checked elsewhere")
        r = a / b if op == "/" else a % b
    else:
        r = {"+": a + b, "-": a - b, "*": a * b}[op]
    if not abs(r) < 10**6 or r * 1024 != int(r * 1024):
        raise Skip("inexact")
    return float(r)


def arith(op, a, b):
    if isinstance(a, str) and isinstance(b, str) and op == "+":
        if len(a) + len(b) > 60:
            raise Skip("long text")
        return a + b
    if isinstance(a, float) or isinstance(b, float):
        return farith(op, a, b)
    need_int(a)
    need_int(b)
    if op in "/%":
        if b == 0:
            raise Skip("division by zero")
        r = a // b if op == "/" else a % b
        if a < 0 or b < 0:
            raise Skip("rounding is checked elsewhere")
    else:
        r = {"+": a + b, "-": a - b, "*": a * b}[op]
    if not -10**8 < r < 10**8:
        raise Skip("large number")
    return r


def chain(ev, x):
    vs = [need_int(ev(x[1]))] + [need_int(ev(y)) for _, y in x[2]]
    return all(CMPS[o](vs[i], vs[i + 1]) for i, (o, _) in enumerate(x[2]))


def boolop(ev, x):
    vs = [ev(y) for y in x[2]]
    if not all(isinstance(v, bool) for v in vs):
        raise Skip("not a boolean")
    return all(vs) if x[1] == "and" else any(vs)


def negate(ev, x):
    v = ev(x[1])
    if x[0] == "not":
        if not isinstance(v, bool):
            raise Skip("not a boolean")
        return not v
    return -v if isinstance(v, float) else -need_int(v)


def fmt(ev, x):
    r = ""
    for y in x[1]:
        if isinstance(y, str):
            r += y
        else:
            v = ev(y)
            if isinstance(v, bool) or not isinstance(v, (int, str, float)):
                raise Skip("not to be formatted")
            r += str(v)
    if len(r) > 60:
        raise Skip("long text")
    return r


EXTRA = {"chain": chain, "bool": boolop, "not": negate, "neg": negate,
         "fmt": fmt}
MISSING = object()


def placed(f, args, kw, names):
    """Arguments by position."""
    ps = [p for p, *_ in f[2]]
    if len(kw) != len(names) or len(args) > len(ps):
        raise Skip("arguments")
    for n in kw:
        if n not in ps or ps.index(n) < len(args):
            raise Skip("arguments")
    a = list(args) + [kw.get(p, MISSING) for p in ps[len(args):]]
    return a


class Model:
    """Evaluates the program; `says` is what the pack has to say."""

    def __init__(self):
        self.consts = {}
        self.fns = {}
        self.says = []
        self.steps = 0

    def step(self):
        self.steps += 1
        if self.steps > 4000:
            raise Skip("too long")

    # -- const functions
    def call(self, name, args):
        self.step()
        params, body, ty = self.fns[name][2:]
        env = [{}]
        args = list(args)
        if len(args) > len(params):
            raise Skip("too many arguments")
        for (p, dflt, *of), i in zip(params, range(len(params))):
            v = args[i] if i < len(args) else MISSING
            if v is MISSING:
                if dflt is None:
                    raise Skip("missing argument")
                v = self.ct(dflt, [{}])
            if of and of[0] != kind(v):
                raise Skip("wrong type of argument")
            env[0][p] = Cell(v)
        v = self.run(body, env)
        if ty not in ("Any", kind(v)):
            raise Skip("wrong type of result")
        return v

    def run(self, body, env):
        r = None
        for s in body:
            r = self.cs(s, env)
        return r

    def lookup(self, env, n):
        for f in reversed(env):
            if n in f:
                return f[n]
        return None

    def cell(self, x, env):
        """The cell an assignable expression stands for."""
        if x[0] == "v":
            c = self.lookup(env, x[1])
            if c is None or not isinstance(c, Cell):
                raise Skip("not assignable")
            return c
        if x[0] == "idx":
            o = self.ct(x[1], env)
            k = self.ct(x[2], env)
            if isinstance(o, CL):
                if o.frozen:
                    raise Skip("constant")
                return o.c[self.index(o.c, k)]
            if isinstance(o, CM):
                kk = hkey(k)
                if kk not in o.d:
                    raise Skip("new key")
                return o.d[kk][1]
        raise Skip("not assignable")

    @staticmethod
    def index(seq, k):
        need_int(k)
        if not -len(seq) <= k < len(seq):
            raise Bad("index")
        return k

    def cs(self, s, env):
        """A statement of a const function."""
        self.step()
        t = s[0]
        if t == "def":
            env[-1][s[1]] = Cell(self.ct(s[2], env))
        elif t == "ref":
            env[-1][s[1]] = self.cell(s[2], env)
        elif t == "set":
            c = self.cell(s[1], env)
            c.v = self.ct(s[2], env)
        elif t == "aug":
            c = self.cell(s[1], env)
            c.v = arith(s[2], c.v, self.ct(s[3], env))
        elif t == "do":
            self.ct(s[1], env)
        elif t == "if":
            c = self.ct(s[1], env)
            if not isinstance(c, bool):
                raise Skip("condition")
            for y in s[2] if c else s[3]:
                self.cs(y, env)
        elif t == "for":
            o = self.ct(s[2], env)
            if isinstance(o, CL):
                it = [c.v for c in o.c]
                key = [id(c) for c in o.c]
                now = (lambda: [id(c) for c in o.c])
            elif isinstance(o, CM):
                it = [k for k, _ in o.d.values()]
                key = list(o.d)
                now = (lambda: list(o.d))
            else:
                raise Skip("not a container")
            for i, x in enumerate(it):
                if now() != key or isinstance(o, CL) and \
                        o.c[i].v is not x:
                    raise Skip("changed while it is walked through")
                env.append({s[1]: ("fixed", x)})
                for y in s[3]:
                    self.cs(y, env)
                env.pop()
            if now() != key:
                raise Skip("changed while it is walked through")
        elif t == "while":
            # counts down its own variable
            env[-1][s[1]] = Cell(s[2])
            c = env[-1][s[1]]
            while c.v > 0:
                self.step()
                env.append({})
                for y in s[3]:
                    self.cs(y, env)
                env.pop()
                c.v -= 1
        elif t == "result":
            return self.ct(s[1], env)
        else:
            raise AssertionError(s)
        return None

    def ct(self, x, env):
        self.step()
        t = x[0]
        if t in ("i", "fl"):
            return x[1]
        if t == "s":
            return x[1]
        if t == "none":
            return None
        if t == "b":
            return bool(x[1])
        if t == "v":
            c = self.lookup(env, x[1])
            if c is None:
                raise Skip("unknown name")
            return c.v if isinstance(c, Cell) else c[1]
        if t == "g":
            if x[1] not in self.consts:
                raise Skip("unknown name")
            return to_ct(self.consts[x[1]])
        if t == "list":
            return CL([self.ct(y, env) for y in x[1]])
        if t == "map":
            ks = [self.ct(k, env) for k, _ in x[1]]
            vs = [self.ct(v, env) for _, v in x[1]]
            return CM(list(zip(ks, vs)))
        if t == "idx":
            o = self.ct(x[1], env)
            k = self.ct(x[2], env)
            if isinstance(o, CL):
                return o.c[self.index(o.c, k)].v
            if isinstance(o, CM):
                kk = hkey(k)
                if kk not in o.d:
                    raise Bad("key")
                return o.d[kk][1].v
            raise Skip("not a container")
        if t == "bin":
            return arith(x[1], self.ct(x[2], env), self.ct(x[3], env))
        if t == "cmp":
            return CMPS[x[1]](need_int(self.ct(x[2], env)),
                              need_int(self.ct(x[3], env)))
        if t in EXTRA:
            return EXTRA[t](lambda y: self.ct(y, env), x)
        if t == "callk":
            f = self.fns.get(x[1])
            if f is None:
                raise Skip("unknown function")
            a = [self.ct(y, env) for y in x[2]]
            k = {n: self.ct(y, env) for n, y in x[3]}
            return self.call(x[1], placed(f, a, k, x[3]))
        if t == "ls" and x[1] == "repeat":
            # (a container is the same one in every place)
            v, n = [self.ct(a, env) for a in x[2]]
            need_int(n)
            if n > 8:
                raise Skip("long")
            return CL([v] * n, frozen=not isinstance(v, (CL, CM)))
        if t == "ls":
            return to_ct(self.make(x[1], [self.plain(self.ct(a, env))
                                          for a in x[2]]))
        if t == "keys":
            o = self.ct(x[1], env)
            it = [c.v for c in o.c] if isinstance(o, CL) else \
                [k for k, _ in o.d.values()] if isinstance(o, CM) else None
            if it is None:
                raise Skip("not a container")
            f = self.ct(x[2], env)
            return CM([(k, f) for k in it])
        if t == "call":
            if x[1] not in self.fns:
                raise Skip("unknown function")
            return self.call(x[1], [self.ct(a, env) for a in x[2]])
        if t == "m":
            o = self.ct(x[1], env)
            return self.method(o, x[2], [self.ct(a, env) for a in x[3]])
        raise AssertionError(x)

    @staticmethod
    def plain(v):
        return to_rt(v)

    @staticmethod
    def make(how, a):
        if how == "range":
            for v in a:
                need_int(v)
            if len(a) == 3 and a[2] == 0:
                raise Bad("step")
            r = range(*a)
            if len(r) > 20:
                raise Skip("long")
            return RL(r)
        if how == "geometric":
            for v in a:
                need_int(v)
            if a[2] > 6:
                raise Skip("long")
            r = RL(a[0] * a[1] ** i for i in range(max(a[2], 0)))
            if any(abs(v) > 10**8 for v in r):
                raise Skip("large")
            return r
        if how == "repeat":
            need_int(a[1])
            if a[1] > 8:
                raise Skip("long")
            return RL([a[0]] * max(a[1], 0))
        raise AssertionError(how)

    def method(self, o, m, a):
        if isinstance(o, CL):
            vs = [c.v for c in o.c]
            if m == "copy":
                return CL(vs)
            if m == "size":
                return len(vs)
            if m == "slice":
                return CL(vs[slicing(a)])
            if m == "cycle":
                need_int(a[0])
                if a[0] < 0:
                    raise Bad("times")
                if len(vs) * a[0] > 20:
                    raise Skip("long")
                return CL(vs * a[0])
            if m not in ("append", "extend", "insert", "reverse", "pop"):
                raise Skip("no such method")
            if o.frozen:
                raise Bad("constant list")
            if len(o.c) > 14:
                raise Skip("long")
            if m == "append":
                o.c.append(Cell(a[0]))
            elif m == "extend":
                if isinstance(a[0], CL):
                    o.c.extend([Cell(c.v) for c in a[0].c])
                elif isinstance(a[0], CM):
                    o.c.extend([Cell(k) for k, _ in a[0].d.values()])
                else:
                    raise Skip("not a container")
            elif m == "insert":
                need_int(a[0])
                if not -len(vs) <= a[0] < len(vs):
                    raise Skip("insert")
                o.c.insert(a[0], Cell(a[1]))
            elif m == "reverse":
                o.c.reverse()
            elif m == "pop":
                if len(a) != 1:
                    raise Skip("arguments")
                return o.c.pop(self.index(o.c, a[0])).v
            return None
        if isinstance(o, CM):
            if m == "copy":
                return CM([(k, c.v) for k, c in o.d.values()])
            if m == "size":
                return len(o.d)
            if m == "keys":
                return CL([k for k, _ in o.d.values()])
            if m == "values":
                return CL([c.v for _, c in o.d.values()])
            if m == "has":
                return hkey(a[0]) in o.d
            if m == "get":
                kk = hkey(a[0])
                return o.d[kk][1].v if kk in o.d else a[1]
            if m == "update":
                if not isinstance(a[0], CM):
                    raise Skip("not a map")
                if len(o.d) > 12:
                    raise Skip("long")
                for k, c in list(a[0].d.values()):
                    o.set(k, c.v)
                return None
            if m == "pop":
                kk = hkey(a[0])
                if kk in o.d:
                    return o.d.pop(kk)[1].v
                if len(a) < 2:
                    raise Bad("key")
                return a[1]
            if m == "set_default":
                kk = hkey(a[0])
                if kk not in o.d:
                    o.set(a[0], a[1])
                return o.d[kk][1].v
            if m == "clear":
                o.d.clear()
                return None
        raise Skip("no such method")

    # -- constants outside
    def rt(self, x):
        self.step()
        t = x[0]
        if t in ("i", "s", "fl"):
            return x[1]
        if t == "none":
            return None
        if t == "b":
            return bool(x[1])
        if t == "g":
            if x[1] not in self.consts:
                raise Skip("unknown name")
            return self.consts[x[1]]
        if t == "list":
            return RL([self.rt(y) for y in x[1]])
        if t == "map":
            ks = [self.rt(k) for k, _ in x[1]]
            vs = [self.rt(v) for _, v in x[1]]
            return RM(list(zip(ks, vs)))
        if t == "idx":
            o, k = self.rt(x[1]), self.rt(x[2])
            if isinstance(o, RL):
                return o[self.index(o, k)]
            if isinstance(o, RM):
                kk = rkey(k)
                if kk not in o.d:
                    raise Bad("key")
                return o.d[kk][1]
            raise Skip("not a container")
        if t == "bin":
            a, b = self.rt(x[2]), self.rt(x[3])
            if isinstance(a, RL) and x[1] == "+" and isinstance(b, RL):
                if len(a) + len(b) > 24:
                    raise Skip("long")
                return RL(tuple(a) + tuple(b))
            if isinstance(a, RL) and x[1] == "*" and isint(b):
                if len(a) * b > 24:
                    raise Skip("long")
                return RL(tuple(a) * b)
            return arith(x[1], a, b)
        if t == "ls":
            return self.make(x[1], [self.rt(a) for a in x[2]])
        if t == "tolist":
            o = self.rt(x[1])
            if isinstance(o, RL):
                return o
            if isinstance(o, RM):
                return RL([k for k, _ in o.d.values()])
            raise Skip("not a container")
        if t == "zip":
            a, b = self.rt(["tolist", x[1]]), self.rt(["tolist", x[2]])
            return RM(list(zip(a, b)))
        if t == "keys":
            a = self.rt(["tolist", x[1]])
            f = self.rt(x[2])
            return RM([(k, f) for k in a])
        if t in EXTRA:
            return EXTRA[t](self.rt, x)
        if t == "callk":
            f = self.fns.get(x[1])
            if f is None:
                raise Skip("unknown function")
            a = [to_ct(self.rt(y)) for y in x[2]]
            k = {n: to_ct(self.rt(y)) for n, y in x[3]}
            return to_rt(self.call(x[1], placed(f, a, k, x[3])))
        if t == "call":
            if x[1] not in self.fns:
                raise Skip("unknown function")
            return to_rt(self.call(x[1], [to_ct(self.rt(a)) for a in x[2]]))
        if t == "m":
            o = self.rt(x[1])
            a = [self.rt(y) for y in x[3]]
            m = x[2]
            if isinstance(o, RL):
                if m == "size":
                    return len(o)
                if m == "copy":
                    return o
                if m == "slice":
                    return RL(tuple(o)[slicing(a)])
                if m == "cycle":
                    need_int(a[0])
                    if a[0] < 0:
                        raise Bad("times")
                    if len(o) * a[0] > 24:
                        raise Skip("long")
                    return RL(tuple(o) * a[0])
                if m in ("append", "extend", "insert", "reverse", "pop"):
                    raise Bad("constant list")
            if isinstance(o, RM):
                if m == "size":
                    return len(o.d)
                if m == "copy":
                    return o
                if m == "keys":
                    return RL([k for k, _ in o.d.values()])
                if m == "values":
                    return RL([v for _, v in o.d.values()])
                if m == "has":
                    return rkey(a[0]) in o.d
                if m == "get":
                    kk = rkey(a[0])
                    return o.d[kk][1] if kk in o.d else a[1]
                if m in ("update", "pop", "set_default", "clear"):
                    raise Bad("constant map")
            raise Skip("no such method")
        raise AssertionError(x)

    def top(self, s):
        t = s[0]
        if t == "const":
            v = self.rt(s[2])
            if v is None:
                raise Skip("nothing")
            self.consts[s[1]] = v
        elif t == "cfn":
            self.fns[s[1]] = s
        elif t == "show":
            if s[1] not in self.consts:
                raise Skip("unknown name")
            for text, _ in shown(self.consts[s[1]], s[1]):
                self.says.append(text)
        elif t == "walk":
            v = self.rt(s[1])
            it = list(v) if isinstance(v, RL) else \
                [k for k, _ in v.d.values()] if isinstance(v, RM) else None
            if it is None:
                raise Skip("not a container")
            for x in it:
                if not isint(x) and not isinstance(x, (str, float)):
                    raise Skip("not to be said")
                self.says.append("w %s" % x)
        else:
            raise AssertionError(s)


def slicing(a):
    for v in a:
        if v is not None:
            need_int(v)
    if len(a) == 3 and a[2] == 0:
        raise Bad("step")
    if len(a) == 3 and a[2] is None:
        raise Skip("step")
    if len(a) == 1 and a[0] is None:
        raise Skip("stop")
    return slice(*a)


def lit(k):
    if isinstance(k, RL):
        return "{%s}" % ", ".join(map(lit, k))
    if isinstance(k, bool):
        return str(k)
    if isinstance(k, (int, float)):
        return str(k)
    return '"%s"' % k


def shown(v, e, depth=0):
    """-> (what is said, source lines) that show a constant completely."""
    if isinstance(v, bool):
        yield "b %d" % v, ["if %s:" % e, "    /say b 1", "else:",
                           "    /say b 0"]
    elif isinstance(v, int):
        yield "i %d" % v, ["/say i ${%s}" % e]
    elif isinstance(v, float):
        yield "F %s" % v, ["/say F ${%s}" % e]
    elif isinstance(v, str):
        yield "s %s" % v, ["/say s ${%s}" % e]
    elif isinstance(v, RL):
        yield "L %d" % len(v), ["/say L ${%s.size()}" % e]
        for i, x in enumerate(v):
            yield from shown(x, "%s[%d]" % (e, i), depth + 1)
    elif isinstance(v, RM):
        yield "M %d" % len(v.d), ["/say M ${%s.size()}" % e]
        for i, (k, x) in enumerate(v.d.values()):
            yield from shown(k, "%s.keys()[%d]" % (e, i), depth + 1)
            yield from shown(x, "%s[%s]" % (e, lit(k)), depth + 1)


# ----------------------------------------------------------- rendering

def rexpr(x):
    t = x[0]
    if t == "fl":
        return repr(x[1]) if x[1] >= 0 else "(%r)" % x[1]
    if t == "i":
        return str(x[1]) if x[1] >= 0 else "(%d)" % x[1]
    if t == "s":
        return '"%s"' % x[1]
    if t == "b":
        return "True" if x[1] else "False"
    if t == "none":
        return "None"
    if t in ("v", "g"):
        return x[1]
    if t == "list":
        return "{%s}" % ", ".join(map(rexpr, x[1]))
    if t == "map":
        return "{%s}" % (", ".join("%s: %s" % (rexpr(k), rexpr(v))
                                   for k, v in x[1]) or ":")
    if t == "idx":
        return "%s[%s]" % (rexpr(x[1]), rexpr(x[2]))
    if t in ("bin", "cmp"):
        return "(%s %s %s)" % (rexpr(x[2]), x[1], rexpr(x[3]))
    if t == "ls":
        return "list.%s(%s)" % (x[1], ", ".join(map(rexpr, x[2])))
    if t == "tolist":
        return "list(%s)" % rexpr(x[1])
    if t == "zip":
        return "map(%s, %s)" % (rexpr(x[1]), rexpr(x[2]))
    if t == "keys":
        return "map.from_keys(%s, %s)" % (rexpr(x[1]), rexpr(x[2]))
    if t == "call":
        return "%s(%s)" % (x[1], ", ".join(map(rexpr, x[2])))
    if t == "chain":
        return "(%s)" % rexpr(x[1]) + "".join(
            " %s (%s)" % (o, rexpr(y)) for o, y in x[2])
    if t == "bool":
        return "(%s)" % (" %s " % x[1]).join(
            "(%s)" % rexpr(y) for y in x[2])
    if t == "not":
        return "(not (%s))" % rexpr(x[1])
    if t == "neg":
        return "(-(%s))" % rexpr(x[1])
    if t == "fmt":
        return '"%s"' % "".join(
            y if isinstance(y, str) else "${%s}" % rexpr(y) for y in x[1])
    if t == "callk":
        return "%s(%s)" % (x[1], ", ".join(
            [rexpr(y) for y in x[2]]
            + ["%s=%s" % (n, rexpr(y)) for n, y in x[3]]))
    if t == "m":
        args = [rexpr(a) for a in x[3]]
        return "%s.%s(%s)" % (rexpr(x[1]), x[2], ", ".join(args))
    raise AssertionError(x)


def rblock(b, ind, out):
    pad = "    " * ind
    if not b:
        out.append(pad + "pass")
    for s in b:
        t = s[0]
        if t == "def":
            out.append("%s%s := %s" % (pad, s[1], rexpr(s[2])))
        elif t == "ref":
            out.append("%s&%s = %s" % (pad, s[1], rexpr(s[2])))
        elif t == "set":
            out.append("%s%s = %s" % (pad, rexpr(s[1]), rexpr(s[2])))
        elif t == "aug":
            out.append("%s%s %s= %s" % (pad, rexpr(s[1]), s[2],
                                        rexpr(s[3])))
        elif t == "do":
            out.append(pad + rexpr(s[1]))
        elif t == "if":
            out.append("%sif %s:" % (pad, rexpr(s[1])))
            rblock(s[2], ind + 1, out)
            if s[3]:
                out.append(pad + "else:")
                rblock(s[3], ind + 1, out)
        elif t == "for":
            out.append("%sfor %s in %s:" % (pad, s[1], rexpr(s[2])))
            rblock(s[3], ind + 1, out)
        elif t == "while":
            out.append("%s%s := %d" % (pad, s[1], s[2]))
            out.append("%swhile %s > 0:" % (pad, s[1]))
            rblock(s[3], ind + 1, out)
            out.append("%s    %s -= 1" % (pad, s[1]))
        elif t == "result":
            out.append("%sresult %s" % (pad, rexpr(s[1])))


def render(prog):
    out = []
    m = Model()
    for s in prog["body"]:
        t = s[0]
        if t == "const":
            out.append("const %s = %s" % (s[1], rexpr(s[2])))
        elif t == "cfn":
            ps = ", ".join(p + "".join(": " + t for t in of) +
                           ("" if d is None else "%s=%s" % (
                               " " if of else "", rexpr(d)))
                           for p, d, *of in s[2])
            out.append("const def %s(%s) -> %s:" % (s[1], ps, s[4]
                                                    if len(s) > 4
                                                    else "int"))
            rblock(s[3], 1, out)
        elif t == "walk":
            out.append("for x in %s:" % rexpr(s[1]))
            out.append("    /say w ${x}")
        elif t == "show":
            # the model knows the shape
            v = m.consts.get(s[1])
            if v is not None:
                for _, lines in shown(v, s[1]):
                    out += lines
        try:
            m.steps = 0
            m.top(s)
        except (Bad, Skip):
            pass
    return "\n".join(out) + "\n"


# ----------------------------------------------------------- generator

STR = ["a", "b", "xy", "1", "q2", "True", "zz", "long_text"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.fns = []           # (name, parameter sample values as exprs)
        self.mixed = rng.random() < .4
        self.floats = rng.random() < .3

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def scalar(self):
        r = self.rng
        k = r.random()
        if k < .55 and self.floats and r.random() < .4:
            return ["fl", r.choice([.5, 1.0, 2.25, -3.5, .125, 0.0, 10.0])]
        if k < .6:
            return ["i", r.choice([0, 1, 2, 3, 7, -1, -4, 12])]
        if k < .85:
            return ["s", r.choice(STR)]
        return ["b", r.randint(0, 1)]

    def key(self):
        r = self.rng
        if self.mixed:
            k = r.random()
            if k < .1:
                return ["list", [["i", r.randint(0, 2)]]]
            if k < .5:
                return r.choice([["i", 0], ["i", 1], ["b", 0], ["b", 1],
                                 ["s", "1"], ["s", "True"]])
            return self.scalar()
        return ["i", r.randint(0, 4)] if self.intkeys else \
            ["s", r.choice(STR)]

    def value(self, scope, d, ct):
        """Any expression."""
        r = self.rng
        k = r.random()
        if k < .3 or d <= 0:
            if scope and r.random() < .5:
                return r.choice(scope)
            return self.scalar()
        if k < .42:
            return ["list", [self.value(scope, d - 1, ct)
                             for _ in range(r.choice([0, 1, 2, 3, 4]))]]
        if k < .52:
            n = r.choice([1, 1, 2, 3])
            return ["map", [[self.key(), self.value(scope, d - 1, ct)]
                            for _ in range(n)]]
        if k < .6:
            return self.listmaker(scope, d, ct)
        if k < .72 and self.fns:
            f = r.choice(self.fns)
            np_ = r.randint(f[2], f[1])
            return ["call", f[0], [self.value(scope, d - 1, ct)
                                   for _ in range(np_)]]
        if k < .74:
            return self.extra(scope, d - 1, ct)
        if k < .77:
            return ["bin", r.choice("++-*/" if self.floats else "++-*"),
                    self.value(scope, d - 1, ct),
                    self.value(scope, d - 1, ct)]
        if k < .78:
            return ["keys", self.value(scope, d - 1, ct), self.scalar()]
        if k < .8 and not ct:
            return ["tolist", self.value(scope, d - 1, ct)] \
                if r.random() < .5 else \
                ["zip", self.value(scope, d - 1, ct),
                 self.value(scope, d - 1, ct)]
        o = r.choice(scope) if scope else self.value(scope, d - 1, ct)
        if r.random() < .35:
            return ["idx", o, self.index(scope)]
        return self.method(o, scope, d, ct, False)

    def extra(self, scope, d, ct):
        r = self.rng
        k = r.random()
        if k < .25:
            return self.truth(scope, d, ct)
        if k < .45:
            return ["neg", self.value(scope, d, ct)]
        if k < .7:
            return ["fmt", [r.choice(["", "a", "x y", "<", "1"]),
                            r.choice(scope) if scope else ["i", 5],
                            r.choice(["", "z"])]
                    + ([["i", r.randint(0, 9)]] if r.random() < .3 else [])]
        if self.fns:
            f = r.choice(self.fns)
            n = r.randint(0, f[1])
            ks = self.params[f[0]][n:]
            r.shuffle(ks)
            ks = [p for p in ks if r.random() < .9]
            return ["callk", f[0],
                    [self.value(scope, d, ct) for _ in range(n)],
                    [[p, self.value(scope, d, ct)] for p in ks]]
        return self.truth(scope, d, ct)

    def truth(self, scope, d, ct):
        r = self.rng
        k = r.random()
        if k < .4 or d <= 0:
            return ["chain", self.num(scope, ct),
                    [[r.choice(list(CMPS)), self.num(scope, ct)]
                     for _ in range(r.choice([1, 1, 2, 2, 3]))]]
        if k < .75:
            return ["bool", r.choice(["and", "or"]),
                    [self.truth(scope, d - 1, ct)
                     for _ in range(r.choice([2, 2, 3]))]]
        if k < .9:
            return ["not", self.truth(scope, d - 1, ct)]
        return r.choice(scope) if scope else ["b", r.randint(0, 1)]

    def num(self, scope, ct):
        r = self.rng
        if r.random() < .4 and scope:
            o = r.choice(scope)
            k = r.random()
            return o if k < .4 else ["m", o, "size", []] if k < .7 else \
                ["idx", o, ["i", r.randint(0, 1)]]
        return ["i", r.choice([0, 1, 2, 3, -1])]

    def index(self, scope):
        r = self.rng
        if r.random() < .5:
            return ["i", r.choice([0, 0, 1, 1, 2, -1, -2, 3, 5])]
        return self.key()

    def slicer(self):
        r = self.rng

        def b():
            return ["none"] if r.random() < .3 else \
                ["i", r.choice([0, 1, 2, 3, -1, -2, 7, -9])]
        n = r.choice([1, 2, 2, 3])
        a = [b() for _ in range(min(n, 2))]
        if n == 1 and a[0] == ["none"]:
            a = [["i", 2]]
        if n == 3:
            a.append(["i", r.choice([1, 2, -1, -2, 3, 0 if r.random() < .1
                                     else 1])])
        return a

    def listmaker(self, scope, d, ct):
        r = self.rng
        k = r.random()
        if k < .5:
            return ["ls", "range", [["i", r.randint(-3, 6)] for _ in range(
                r.choice([1, 2]))] + ([] if r.random() < .7 else [])]
        if k < .65:
            return ["ls", "range", [["i", r.randint(-3, 9)],
                                    ["i", r.randint(-3, 9)],
                                    ["i", r.choice([1, 2, 3, -1, -2, -3])]]]
        if k < .8:
            return ["ls", "geometric", [["i", r.randint(-2, 5)],
                                        ["i", r.randint(-2, 3)],
                                        ["i", r.randint(0, 4)]]]
        return ["ls", "repeat", [self.value(scope, d - 1, ct),
                                 ["i", r.randint(0, 3)]]]

    def method(self, o, scope, d, ct, change):
        r = self.rng
        if change:
            m = r.choice(["append", "append", "extend", "insert", "reverse",
                          "pop", "update", "pop", "set_default", "clear",
                          "set_default"])
        else:
            m = r.choice(["copy", "slice", "slice", "cycle", "size", "keys",
                          "values", "has", "get", "get"])
        a = []
        if m in ("append", "extend", "update"):
            a = [self.value(scope, d - 1, ct)]
        elif m == "insert":
            a = [["i", r.choice([0, 1, -1, 2])],
                 self.value(scope, d - 1, ct)]
        elif m == "pop":
            a = [self.index(scope)]
            if r.random() < .2:
                a.append(self.scalar())
        elif m in ("get", "set_default"):
            a = [self.key(), self.value(scope, d - 1, ct)]
        elif m == "has":
            a = [self.key()]
        elif m == "slice":
            a = self.slicer()
        elif m == "cycle":
            a = [["i", r.choice([0, 1, 2, 3])]]
        return ["m", o, m, a]

    def cstmt(self, scope, d, params):
        """A statement of a const function; scope: expressions for names."""
        r = self.rng
        k = r.random()
        vs = [x for x in scope if x[0] == "v"]
        gs = scope
        if k < .25:
            n = self.name("v")
            return ["def", n, self.value(gs, 2, True)]
        if k < .5 and vs:
            o = r.choice(vs)
            if r.random() < .25:
                o = ["idx", o, self.index(scope)]
            return ["do", self.method(o, gs, 2, True, True)]
        if k < .62 and vs:
            t = r.choice(vs)
            if r.random() < .7:
                t = ["idx", t, self.index(scope)]
            return ["set", t, self.value(gs, 2, True)]
        if k < .68 and vs:
            t = r.choice(vs)
            if r.random() < .5:
                t = ["idx", t, self.index(scope)]
            return ["aug", t, r.choice("+-*"), self.value(gs, 1, True)]
        if k < .76 and vs:
            t = r.choice(vs)
            if r.random() < .7:
                t = ["idx", t, self.index(scope)]
            return ["ref", self.name("r"), t]
        if k < .86 and self.fns and vs:
            f = r.choice(self.fns)
            return ["do", ["call", f[0], [
                r.choice(vs) if r.random() < .7 else
                self.value(gs, 1, True) for _ in range(f[1])]]]
        if d > 0:
            inner = list(scope)
            if k < .91:
                c = ["cmp", r.choice(list(CMPS)), self.value(gs, 1, True),
                     self.value(gs, 1, True)]
                k2 = r.random()
                if k2 < .4:
                    c = self.truth(gs, 2, True)
                elif k2 < .7:
                    c = ["m", r.choice(vs), "has", [self.key()]] \
                        if vs else c
                return ["if", c,
                        [self.cstmt(inner, d - 1, params)
                         for _ in range(r.randint(1, 2))],
                        [self.cstmt(inner, d - 1, params)
                         for _ in range(r.randint(0, 1))]]
            if k < .97:
                n = self.name("x")
                return ["for", n, self.value(gs, 1, True),
                        [self.cstmt(inner + [["v", n]], d - 1, params)
                         for _ in range(r.randint(1, 2))]]
            return ["while", self.name("n"), r.randint(1, 3),
                    [self.cstmt(inner, d - 1, params)
                     for _ in range(r.randint(1, 2))]]
        return ["def", self.name("v"), self.value(gs, 1, True)]

    def cfn(self, m):
        """A const function that works for a sample of arguments."""
        r = self.rng
        name = self.name("f")
        params = []
        env = {}
        consts = [["g", c] for c in m.consts]
        np_ = r.choice([0, 1, 1, 2, 2])
        sample = []
        for i in range(np_):
            dflt = None
            if i == np_ - 1 and r.random() < .4:
                dflt = self.try_(lambda: self.value([], 2, True)
                                 if r.random() < .4 else self.nest(),
                                 lambda e: m.ct(e, [{}]))
            params.append([self.name("p"), dflt])
            e = dflt or self.try_(lambda: self.value(consts, 2, True),
                                  lambda e: m.ct(e, [{}]))
            sample.append(e)
            if r.random() < .3:
                try:
                    of = kind(m.ct(e, [{}]))
                except (Skip, Bad):
                    continue
                if of not in ("none", "str"):
                    params[-1].append(of)
        body = []
        scope = consts + [["v", p] for p, *_ in params]
        n = r.randint(2, 8)
        tries = 0
        bad = False
        todo = []
        for p, dflt, *_ in params:
            # a call must not change what the next one starts from
            if dflt is not None and r.random() < .6:
                o = ["v", p]
                if r.random() < .4:
                    o = ["idx", o, self.index(scope)]
                todo.append(self.change(o, scope))
        while len(body) < n and tries < 80 and not bad:
            tries += 1
            if todo:
                s = todo.pop(0)
            elif r.random() < .3:
                s, *todo = self.derive(scope)
            else:
                s = self.cstmt(scope, 1, params)
            try:
                self.trial(m, name, params, body + [s], sample)
            except Skip:
                if s[0] == "def":
                    todo = []
                continue
            except Bad:
                if r.random() < .97 or not self.badok:
                    if s[0] == "def":
                        todo = []
                    continue
                bad = True
            except RecursionError:
                continue
            body.append(s)
            if s[0] in ("def", "ref"):
                scope = scope + [["v", s[1]]]
        res = None
        for _ in range(20):
            x = r.choice(scope) if scope and r.random() < .6 else \
                ["list", [y for y in scope if r.random() < .6]]
            if x[0] == "g":
                continue
            b = body + [["result", x]]
            try:
                v = self.trial(m, name, params, b, sample)
                to_rt(v)
                if v is None:
                    continue
                res = x
                break
            except (Skip, RecursionError):
                continue
            except Bad:
                res = x
                v = 0
                break
        if res is None:
            res, v = ["i", 1], 1
        body = body + [["result", res]]
        ty = kind(v)
        if ty in ("str", "none") or r.random() < .4:
            ty = "Any"
        need = sum(d is None for _, d, *_ in params)
        self.fns.append((name, np_, need))
        self.samples[name] = sample
        self.params[name] = [p for p, *_ in params]
        self.kinds[name] = ty
        return ["cfn", name, params, body, ty]

    def nest(self):
        r = self.rng
        k = r.random()
        inner = ["list", [["i", r.randint(0, 5)] for _ in range(
            r.randint(0, 3))]] if r.random() < .6 else \
            ["map", [[self.key(), ["i", r.randint(0, 5)]]]]
        if k < .35:
            return ["list", [["i", 1], inner]]
        if k < .6:
            return ["map", [[self.key(), inner], [self.key(), ["i", 2]]]]
        return inner

    def derive(self, scope):
        """A container made from another one; then one of them changes."""
        r = self.rng
        vs = [x for x in scope if x[0] == "v"]
        if not vs:
            return [["def", self.name("v"), ["list", [
                ["list", [["i", 1]]], ["i", 2]]]]]
        o = r.choice(vs)
        n = self.name("v")
        k = r.random()
        if k < .15:
            e = ["m", o, "copy", []]
        elif k < .35:
            e = ["m", o, "slice", self.slicer()]
        elif k < .5:
            e = ["m", o, "cycle", [["i", r.choice([1, 2])]]]
        elif k < .6:
            e = ["m", o, r.choice(["keys", "values"]), []]
        elif k < .7:
            e = ["idx", o, self.index(scope)]
        elif k < .8:
            e = ["list", [o, o] if r.random() < .5 else [o, ["i", 4]]]
        elif k < .9:
            e = ["ls", "repeat", [o, ["i", 2]]]
        else:
            e = ["keys", ["list", [self.key(), self.key()]], o]
        out = [["def", n, e]]
        for _ in range(r.choice([1, 1, 2])):
            out.append(self.change(r.choice([o, ["v", n]]), scope))
        return out

    def change(self, o, scope):
        r = self.rng
        k = r.random()
        if k < .35:
            return ["set", ["idx", o, self.index(scope)], self.scalar()]
        if k < .5:
            return ["aug", ["idx", o, self.index(scope)], "+", ["i", 5]]
        if k < .65:
            return ["do", self.method(["idx", o, self.index(scope)],
                                      scope, 1, True, True)]
        return ["do", self.method(o, scope, 1, True, True)]

    def trial(self, m, name, params, body, sample):
        t = Model()
        t.consts = m.consts
        t.fns = dict(m.fns)
        t.fns[name] = ["cfn", name, params, body, "Any"]
        args = [t.ct(e, [{}]) for e in sample]
        v = t.call(name, args)
        self.typecheck(t)
        return v

    def typecheck(self, t):
        pass

    def try_(self, make, check):
        for _ in range(30):
            e = make()
            try:
                if check(e) is not None:
                    return e
            except (Skip, Bad, RecursionError):
                pass
        return ["i", 1]

    def program(self):
        r = self.rng
        self.intkeys = r.random() < .5
        self.badok = r.random() < .3
        self.samples, self.kinds, self.params = {}, {}, {}
        m = Model()
        m.kinds = self.kinds
        body = []

        def add(s):
            m.steps = 0
            k = len(m.says)
            try:
                m.top(s)
            except (Skip, RecursionError):
                del m.says[k:]
                return False
            except Bad:
                del m.says[k:]
                if self.badok and s[0] == "const":
                    body.append(s)
                    return None
                return False
            body.append(s)
            return True
        n = r.randint(3, 12)
        tries = 0
        while len(body) < n and tries < 60:
            tries += 1
            gs = [["g", c] for c in m.consts]
            k = r.random()
            if k < .3 and len(self.fns) < 4:
                add(self.cfn(m))
                continue
            if k < .4 and gs:
                ok = add(["walk", r.choice(gs)])
            elif k < .6 and self.fns:
                f = r.choice(self.fns)
                c = self.name("c")
                args = self.samples[f[0]] if r.random() < .6 else [
                    self.value(gs, 2, False)
                    for _ in range(r.randint(f[2], f[1]))]
                if r.random() < .5:
                    args = args[:f[2]]
                ok = add(["const", c, ["call", f[0], args]])
                if ok:
                    add(["show", c])
            else:
                c = self.name("c")
                ok = add(["const", c, self.value(gs, 3, False)])
                if ok and r.random() < .5:
                    add(["show", c])
            if ok is None:
                break
        # nothing done meanwhile may have changed a constant
        if body and body[-1][0] != "const" or not self.badok:
            for c in list(m.consts):
                if r.random() < .6:
                    add(["show", c])
        return {"body": body}


def run(out, case):
    prog = case["prog"]
    m = Model()
    refuse = None
    try:
        for s in prog["body"]:
            m.steps = 0
            m.top(s)
    except Bad as e:
        refuse = str(e)
    except (Skip, RecursionError) as e:
        out.discard = str(e)
        return out
    except (KeyError, IndexError, TypeError, AttributeError):
        if case.get("shrunk"):
            out.discard = "not a program"
            return out
        raise
    src = render(prog)
    from . import acabuild
    cfg = case["config"]
    res = acabuild.compile_sources({"main.aca": src}, cfg)
    out.sigs = [digest(m.says, refuse)]
    out.count("const_programs")
    out.count("source_lines", src.count("\n"))
    out.nontrivial = len(m.says) >= 3
    if refuse is not None:
        out.count("programs_to_refuse")
        if res.kind != "reject":
            out.fail("accepted", "a program with a wrong %s was not refused:"
                     " %s" % (refuse, "compiled" if res.ok else res.msg),
                     refuse)
        out.trace = digest(res.msg)
        return out
    if not res.ok:
        out.fail("compile-" + res.kind,
                 "a valid program was refused: %s" % res.msg,
                 simrun.norm(res.msg))
        return out
    w = simrun.new_world(case["seed"], res, {"obs": {}})
    init = simrun.fn_path(cfg, cfg.get("init_file", "init")) \
        if cfg.get("split_init") else None
    if init:
        w.run_function(init)
    simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file", "main")))
    got = [x[1] for x in w.log if x[0] == "say"]
    out.count("values_compared", len(m.says))
    out.count("commands", w.ncmds)
    if w.problems:
        out.fail("problem", "%r" % (w.problems[0],), w.problems[0][0])
    elif got != m.says:
        i = [a == b for a, b in zip(got, m.says)]
        i = i.index(False) if False in i else min(len(got), len(m.says))
        out.fail("said", "line %d is %r, expected %r" % (
            i, got[i:i + 1], m.says[i:i + 1]))
    out.trace = digest(w.log)
    out.sample = {"main.aca": src[:1500]}
    return out


def shrink_list(b):
    n = len(b)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield b[:i] + b[i + size:]
        size //= 2


def shrink(prog):
    b = prog["body"]
    for x in shrink_list(b):
        yield {"body": x}
    for i, s in enumerate(b):
        if s[0] == "cfn":
            for y in shrink_cblock(s[3]):
                if y and y[-1][0] == "result":
                    yield {"body": b[:i] + [s[:3] + [y] + s[4:]]
                           + b[i + 1:]}
        elif s[0] == "const":
            for y in shrink_expr(s[2]):
                yield {"body": b[:i] + [["const", s[1], y]] + b[i + 1:]}


def shrink_cblock(b):
    yield from shrink_list(b)
    for i, s in enumerate(b):
        if s[0] == "if":
            yield b[:i] + s[2] + b[i + 1:]
            yield b[:i] + s[3] + b[i + 1:]
        elif s[0] in ("for", "while"):
            for y in shrink_cblock(s[3]):
                yield b[:i] + [s[:3] + [y]] + b[i + 1:]
        for j, x in enumerate(s):
            if isinstance(x, list) and x and isinstance(x[0], str):
                for y in shrink_expr(x):
                    yield b[:i] + [s[:j] + [y] + s[j + 1:]] + b[i + 1:]


def shrink_expr(x):
    t = x[0]
    if t == "list":
        for y in shrink_list(x[1]):
            yield ["list", y]
        for i, e in enumerate(x[1]):
            for y in shrink_expr(e):
                yield ["list", x[1][:i] + [y] + x[1][i + 1:]]
    elif t == "map":
        for y in shrink_list(x[1]):
            if y:
                yield ["map", y]
        for i, (k, e) in enumerate(x[1]):
            for y in shrink_expr(e):
                yield ["map", x[1][:i] + [[k, y]] + x[1][i + 1:]]
    elif t in ("bin", "cmp"):
        yield x[2]
        yield x[3]
    elif t in ("idx", "keys", "tolist", "zip"):
        yield x[1]
        for i in range(1, len(x)):
            for y in shrink_expr(x[i]):
                yield x[:i] + [y] + x[i + 1:]
    elif t == "m":
        yield x[1]
        for y in shrink_expr(x[1]):
            yield [t, y] + x[2:]
        for i, a in enumerate(x[3]):
            for y in shrink_expr(a):
                yield x[:3] + [x[3][:i] + [y] + x[3][i + 1:]]
    elif t == "call":
        for i, a in enumerate(x[2]):
            for y in shrink_expr(a):
                yield [t, x[1], x[2][:i] + [y] + x[2][i + 1:]]
    elif t == "callk":
        yield ["call", x[1], x[2]]
        for i, a in enumerate(x[2]):
            for y in shrink_expr(a):
                yield [t, x[1], x[2][:i] + [y] + x[2][i + 1:], x[3]]
        for i, (n, a) in enumerate(x[3]):
            yield [t, x[1], x[2], x[3][:i] + x[3][i + 1:]]
            for y in shrink_expr(a):
                yield [t, x[1], x[2],
                       x[3][:i] + [[n, y]] + x[3][i + 1:]]
    elif t in ("not", "neg"):
        yield x[1]
        for y in shrink_expr(x[1]):
            yield [t, y]
    elif t == "bool":
        yield from x[2]
        for i, a in enumerate(x[2]):
            for y in shrink_expr(a):
                yield [t, x[1], x[2][:i] + [y] + x[2][i + 1:]]
    elif t == "chain":
        yield ["b", 0]
        yield ["b", 1]
        for i in range(len(x[2])):
            if len(x[2]) > 1:
                yield [t, x[1], x[2][:i] + x[2][i + 1:]]
    elif t in ("s", "b", "g", "v", "ls", "fmt"):
        yield ["i", 0]
