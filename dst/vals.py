"""Struct programs: generator, renderer and reference model.

A program works on struct variables only through paths (["name", "field",
...]); the model keeps plain Python dictionaries, copied at every
assignment, and None for values nothing has set."""

from .lang import Discard
from .mcworld import wrap

CMPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
        ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
ENT = "E"       # type of entities (with a struct field when declared)


# ------------------------------------------------------------- types

def fields(prog, t):
    """[(field, type)] of template t: its own ones, then the bases'."""
    d = prog["tpl"][t]
    out = [tuple(f) for f in d["own"]]
    for b in d["bases"]:
        out += fields(prog, b)
    return out


def ancestors(prog, t):
    out = {t}
    for b in prog["tpl"][t]["bases"]:
        out |= ancestors(prog, b)
    return out


def type_of(prog, root, path):
    t = root
    for f in path:
        if t == ENT:
            t = dict(prog["ent"])[f]
        else:
            t = dict(fields(prog, t))[f]
    return t


def leaves(prog, t, path=()):
    """Paths of the scalars in a value of type t."""
    if t in ("int", "bool"):
        yield list(path), t
    elif t == ENT:
        for f, ft in prog["ent"]:
            yield from leaves(prog, ft, tuple(path) + (f,))
    else:
        for f, ft in fields(prog, t):
            yield from leaves(prog, ft, tuple(path) + (f,))


def tname(prog, t):
    return t if t in ("int", "bool") else \
        "Mob" if t == ENT else prog["tpl"][t]["name"]


# --------------------------------------------------------- rendering

class Render:
    def __init__(self, prog):
        self.prog = prog
        self.lines = []
        self.ind = 0

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def e(self, x):
        t = x[0]
        if t == "p":
            return ".".join(x[1])
        if t == "i":
            return str(x[1]) if x[1] >= 0 else "(%d)" % x[1]
        if t == "b":
            return "True" if x[1] else "False"
        if t == "bin":
            return "(%s %s %s)" % (self.e(x[2]), x[1], self.e(x[3]))
        if t == "not":
            return "(not %s)" % self.e(x[1])
        if t == "int":
            return "int(%s)" % self.e(x[1])
        if t == "new":
            return "%s(%s)" % (self.prog["tpl"][x[1]]["name"], ", ".join(
                "%s=%s" % (f, self.e(v)) for f, v in x[2]))
        if t == "call":
            return "%s(%s)" % (x[1], ", ".join(self.e(a) for a in x[2]))
        raise AssertionError(x)

    def block(self, b):
        self.ind += 1
        for s in b:
            self.s(s)
        if not b:
            self.w("pass")
        self.ind -= 1

    def s(self, x):
        t = x[0]
        if t == "def":
            _, n, ty, e, typed = x
            if e is None:
                self.w("%s: %s" % (n, tname(self.prog, ty)))
            elif typed:
                self.w("%s: %s = %s" % (n, tname(self.prog, ty), self.e(e)))
            else:
                self.w("%s := %s" % (n, self.e(e)))
        elif t == "ref":
            self.w("&%s = %s" % (x[1], ".".join(x[2])))
        elif t == "set":
            self.w("%s = %s" % (".".join(x[1]), self.e(x[2])))
        elif t == "aug":
            self.w("%s %s= %s" % (".".join(x[1]), x[2], self.e(x[3])))
        elif t == "swap":
            self.w("swap(%s, %s)" % (".".join(x[1]), ".".join(x[2])))
        elif t == "acc":
            self.w("o0 = o0 * 3 + %s" % self.e(x[1]))
        elif t == "do":
            self.w(self.e(x[1]))
        elif t == "if":
            self.w("if %s:" % self.e(x[1]))
            self.block(x[2])
            if x[3]:
                self.w("else:")
                self.block(x[3])
        elif t == "loop":
            # x[1] is a counter of its own
            self.w("%s = %d" % (x[1], x[2]))
            self.w("while %s > 0:" % x[1])
            self.block(x[3] + [["aug", [x[1]], "-", ["i", 1]]])
        elif t == "fn":
            _, kind, name, params, ret, port, body, res = x
            ps = []
            for n, ty, pp in params:
                ps.append("%s%s: %s" % ("&" if pp == "ref" else "", n,
                                        tname(self.prog, ty)))
            r = ""
            if ret is not None:
                r = " -> %s%s" % ({"ref": "&", "val": ""}[port],
                                  tname(self.prog, ret))
            self.w("%sdef %s(%s)%s:" % (
                "inline " if kind == "inline" else "", name,
                ", ".join(ps), r))
            self.block(body + ([["result", res]] if ret is not None else []))
        elif t == "result":
            self.w("result %s" % self.e(x[1]))
        elif t == "iface":
            self.w("interface %s:" % x[1])
            self.block(x[2])
        elif t == "dump":
            for i, e in enumerate(x[1]):
                self.w("d%d = %s" % (i, self.e(e)))
        elif t == "spawn":
            self.w("%s: Mob = Mob()" % x[1])
        else:
            raise AssertionError(x)

    def module(self):
        p = self.prog
        for i in range(1):
            self.w('&o%d = scb("o%d", "obs")' % (i, i))
        for i in range(p["ndump"]):
            self.w('&d%d = scb("d%d", "obs")' % (i, i))
        for t in p["tpl"]:
            ext = ""
            if t["bases"]:
                ext = " extends " + ", ".join(
                    p["tpl"][b]["name"] for b in t["bases"])
            if t["ent"] or not p["ent"]:
                pass
            self.w("struct %s%s:" % (t["name"], ext))
            self.ind += 1
            for f, ty in t["own"]:
                self.w("%s: %s" % (f, tname(p, ty)))
            if not t["own"]:
                self.w("pass")
            self.ind -= 1
            if p["ent"] and t is p["tpl"][p["entafter"]]:
                self.w("entity Mob:")
                self.ind += 1
                for f, ty in p["ent"]:
                    self.w("%s: %s" % (f, tname(p, ty)))
                self.w("new():")
                self.w("    new(type=\"armor_stand\", pos=Pos(0, 0, 0))")
                self.ind -= 1
        for s in p["body"]:
            self.s(s)
        return "\n".join(self.lines) + "\n"


def render(prog):
    return Render(prog).module()


# -------------------------------------------------------------- model

def fresh(prog, t):
    if t in ("int", "bool"):
        return None
    if t == ENT:
        return None
    return {f: fresh(prog, ft) for f, ft in fields(prog, t)}


def bound(e):
    """How large a constant expression may be; None if it is not one."""
    if e[0] == "i":
        return abs(e[1])
    if e[0] in ("b", "int", "not"):
        return 1
    if e[0] == "bin" and e[1] in ("+", "-", "*"):
        a, b = bound(e[2]), bound(e[3])
        if a is None or b is None:
            return None
        return a * b if e[1] == "*" else a + b
    return None


def copy(v):
    return {k: copy(x) for k, x in v.items()} if isinstance(v, dict) else v


def both(a, b):
    """Swapping a value with nothing leaves both unspecified."""
    if isinstance(a, dict):
        xs = {k: both(a[k], b[k]) for k in a}
        return ({k: v[0] for k, v in xs.items()},
                {k: v[1] for k, v in xs.items()})
    return (None, None) if a is None or b is None else (a, b)


class Mob:
    def __init__(self, prog):
        self.f = {f: fresh(prog, t) for f, t in prog["ent"]}


class Slot:
    """Where a value is kept."""
    __slots__ = ("d", "k")

    def __init__(self, d, k):
        self.d = d
        self.k = k

    def get(self):
        return self.d[self.k]


class Model:
    MAXSTEPS = 3000

    def __init__(self, prog, obs):
        self.prog = prog
        self.obs = obs
        self.vars = {}          # module level and static local variables
        self.refs = {}          # name -> Slot
        self.ifaces = {s[1]: s[2] for s in prog["body"] if s[0] == "iface"}
        self.fns = {s[2]: s for s in prog["body"] if s[0] == "fn"}
        self.ready = False
        self.steps = 0

    # paths
    def slot(self, path):
        n = path[0]
        if n == "o0":
            s = Slot(self.obs, "o0")
        elif n in self.refs:
            s = self.refs[n]
        else:
            if n not in self.vars:
                raise Discard("unknown variable")
            s = Slot(self.vars, n)
        for f in path[1:]:
            v = s.get()
            if isinstance(v, Mob):
                s = Slot(v.f, f)
            elif isinstance(v, dict):
                s = Slot(v, f)
            else:
                raise Discard("nothing there")
        return s

    def write(self, slot, v):
        """Assign field by field: the target keeps its own type."""
        cur = slot.get()
        if isinstance(cur, dict):
            for k in cur:
                self.write(Slot(cur, k), v[k])
        else:
            slot.d[slot.k] = v

    def ev(self, x):
        t = x[0]
        if t == "p":
            return copy(self.slot(x[1]).get())
        if t == "i":
            return x[1]
        if t == "b":
            return bool(x[1])
        if t == "bin":
            a, b = self.ev(x[2]), self.ev(x[3])
            if a is None or b is None:
                raise Discard("undefined")
            if x[1] in CMPS:
                return CMPS[x[1]](a, b)
            if x[1] == "and":
                return a and b
            if x[1] == "or":
                return a or b
            return wrap({"+": a + b, "-": a - b, "*": a * b}[x[1]])
        if t == "not":
            a = self.ev(x[1])
            if a is None:
                raise Discard("undefined")
            return not a
        if t == "int":
            a = self.ev(x[1])
            return None if a is None else int(a)
        if t == "new":
            v = fresh(self.prog, x[1])
            for f, e in x[2]:
                self.write(Slot(v, f), self.ev(e))
            return v
        if t == "call":
            return self.call(x)
        raise AssertionError(x)

    def call(self, x):
        self.step()
        _, kind, name, params, ret, port, body, res = self.fns[x[1]]
        bound = []
        for (n, ty, pp), a in zip(params, x[2]):
            if pp == "ref":
                bound.append((n, self.slot(a[1])))
            else:
                v = fresh(self.prog, ty)
                box = {0: v}
                self.write(Slot(box, 0), self.ev(a))
                bound.append((n, box[0]))
        old = dict(self.refs)
        for (n, ty, pp), (_, v) in zip(params, bound):
            if pp == "ref":
                self.refs[n] = v
            else:
                self.refs.pop(n, None)
                self.vars[n] = v
        self.block(body)
        r = None
        if ret is not None:
            r = copy(self.ev(res))
        self.refs = old
        return r

    def step(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Discard("too long")

    def block(self, b):
        for s in b:
            self.s(s)

    def s(self, x):
        self.step()
        t = x[0]
        if t == "def":
            _, n, ty, e, typed = x
            if e is None:
                if n not in self.vars:
                    self.vars[n] = fresh(self.prog, ty)
                return
            v = self.ev(e)
            if e[0] == "new" and isinstance(self.vars.get(n), dict):
                # fields that are not given are unspecified
                self.vars[n] = fresh(self.prog, ty)
            elif n not in self.vars:
                self.vars[n] = fresh(self.prog, ty)
            self.write(Slot(self.vars, n), v)
        elif t == "ref":
            self.refs[x[1]] = self.slot(x[2])
        elif t == "set":
            v = self.ev(x[2])
            self.write(self.slot(x[1]), v)
        elif t == "aug":
            s = self.slot(x[1])
            v = self.ev(x[3])
            a = s.get()
            if a is None or v is None:
                raise Discard("undefined")
            s.d[s.k] = wrap({"+": a + v, "-": a - v, "*": a * v}[x[2]])
        elif t == "swap":
            a, b = self.slot(x[1]), self.slot(x[2])
            va, vb = both(copy(a.get()), copy(b.get()))
            self.write(a, vb)
            self.write(b, va)
        elif t == "acc":
            v = self.ev(x[1])
            if v is None or self.obs["o0"] is None:
                raise Discard("undefined")
            self.obs["o0"] = wrap(wrap(self.obs["o0"] * 3) + v)
        elif t == "do":
            self.ev(x[1])
        elif t == "if":
            c = self.ev(x[1])
            if c is None:
                raise Discard("undefined")
            self.block(x[2] if c else x[3])
        elif t == "loop":
            for _ in range(x[2]):
                self.block(x[3])
            self.vars[x[1]] = 0
        elif t == "dump":
            for i, e in enumerate(x[1]):
                v = self.ev(e)
                self.obs["d%d" % i] = "?" if v is None else v
        elif t == "spawn":
            self.vars[x[1]] = Mob(self.prog)
        elif t in ("fn", "iface"):
            pass
        else:
            raise AssertionError(x)

    def main(self):
        self.steps = 0
        self.block(self.prog["body"])
        self.ready = True

    def iface(self, n):
        self.steps = 0
        self.block(self.ifaces[n])


# ---------------------------------------------------------- generator

class Gen:
    NAMES = ["a", "b", "c", "v", "w", "box", "pt", "x1", "tmp", "self_",
             "node", "left"]
    FIELDS = ["x", "y", "z", "id", "ok", "pos", "inner", "n", "s", "t",
              "link", "val", "main", "size", "name"]

    def __init__(self, rng):
        self.rng = rng
        self.prog = {"tpl": [], "ent": None, "entafter": None, "body": [],
                     "ndump": 0}
        self.used = {"o0", "Mob"}
        self.n = 0

    def name(self, pre=None):
        r = self.rng
        for _ in range(20):
            n = pre or r.choice(self.NAMES)
            if n not in self.used:
                break
            n = (pre or r.choice(self.NAMES)) + str(r.randrange(90))
            if n not in self.used:
                break
        else:
            self.n += 1
            n = "q%d_" % self.n
        self.used.add(n)
        return n

    def templates(self):
        r = self.rng
        p = self.prog
        want_ent = r.random() < .3
        nt = r.randint(1, 5)
        ent_at = r.randrange(nt) if want_ent else None
        for i in range(nt):
            bases, taken = [], set()
            hasent = False
            cands = list(range(i))
            r.shuffle(cands)
            for b in cands:
                if r.random() < .3 and len(bases) < 2:
                    fs = {f for f, _ in fields(p, b)}
                    if not fs & taken and not any(
                            ancestors(p, b) & ancestors(p, x)
                            for x in bases):
                        bases.append(b)
                        taken |= fs
                        hasent = hasent or p["tpl"][b]["ent"]
            own = []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                f = r.choice(self.FIELDS)
                if f in taken:
                    continue
                taken.add(f)
                k = r.random()
                if k < .3 and i:
                    ty = r.randrange(i)
                    hasent = hasent or p["tpl"][ty]["ent"]
                elif k < .4 and p["ent"]:
                    ty = ENT
                    hasent = True
                elif k < .55:
                    ty = "bool"
                else:
                    ty = "int"
                own.append([f, ty])
            if not taken:
                own = [["x", "int"]]
            p["tpl"].append({"name": self.name("S%d" % i), "own": own,
                             "bases": bases, "ent": hasent})
            if len(list(leaves(p, i))) > 16:
                # keep them small
                p["tpl"][i].update(own=[["k", "int"]], bases=[], ent=False)
            if ent_at == i:
                fs = [["s", i]]
                if r.random() < .5:
                    fs.append(["cnt", "int"])
                if r.random() < .3:
                    fs.append(["s2", r.randrange(i + 1)])
                p["ent"], p["entafter"] = fs, i

    # scope: list of (name, type, assignable)
    def paths(self, scope, want, exact=True):
        """Paths with a value that can be used as type `want`."""
        p = self.prog
        out = []

        def go(path, t, d):
            if t == want or not exact and isinstance(want, int) and \
                    isinstance(t, int) and want in ancestors(p, t):
                out.append(path)
            if d > 4:
                return
            if t == ENT:
                for f, ft in p["ent"]:
                    go(path + [f], ft, d + 1)
            elif isinstance(t, int):
                for f, ft in fields(p, t):
                    go(path + [f], ft, d + 1)
        for n, t in scope:
            go([n], t, 0)
        return out

    def scal(self, scope, ty, d):
        r = self.rng
        ps = self.paths(scope, ty)
        if ps and r.random() < .7 or d <= 0:
            if ps and r.random() < .85:
                return ["p", r.choice(ps)]
            return ["i", r.choice([0, 1, 2, 5, -3, 40, 1000])] \
                if ty == "int" else ["b", r.randint(0, 1)]
        if ty == "int":
            k = r.random()
            if k < .15:
                return ["int", self.scal(scope, "bool", d - 1)]
            if k < .3:
                f = self.fncall(scope, "int", d - 1, nested=True)
                if f:
                    return f
            e = ["bin", r.choice("++--*"), self.scal(scope, "int", d - 1),
                 self.scal(scope, "int", d - 1)]
            # (the compiler refuses constants that do not fit)
            return e if abs(bound(e) or 0) < 1 << 31 else ["i", 40]
        k = r.random()
        if k < .3:
            return ["not", self.scal(scope, "bool", d - 1)]
        return ["bin", r.choice(list(CMPS)), self.scal(scope, "int", d - 1),
                self.scal(scope, "int", d - 1)]

    def val(self, scope, ty, d=2, nested=False, exact=False):
        """An expression usable where ty is wanted; None if there is none."""
        r = self.rng
        p = self.prog
        if ty in ("int", "bool"):
            return self.scal(scope, ty, d)
        if ty == ENT:
            ps = self.paths(scope, ENT)
            return ["p", r.choice(ps)] if ps else None
        k = r.random()
        if k < .25 and d > 0:
            f = self.fncall(scope, ty, d - 1, nested)
            if f and not (exact and self.fnret(f[1]) != ty):
                return f
        ps = self.paths(scope, ty, exact=exact)
        if ps and k < .65:
            return ["p", r.choice(ps)]
        sub = [i for i in range(len(p["tpl"])) if ty in ancestors(p, i)]
        t = ty if exact or r.random() < .7 else r.choice(sub)
        return self.new(scope, t, d, r.random() < .2) or \
            (["p", r.choice(ps)] if ps else None)

    def new(self, scope, t, d, partial=False):
        fs = []
        for f, ft in fields(self.prog, t):
            if partial and self.rng.random() < .4:
                continue
            v = self.val(scope, ft, d - 1, nested=True)
            if v is None:
                continue
            fs.append([f, v])
        self.rng.shuffle(fs)
        return ["new", t, fs]

    def fncall(self, scope, ty, d, nested=False):
        r = self.rng
        fs = [s for s in self.fns if s[4] is not None and (
            s[4] == ty or isinstance(ty, int) and isinstance(s[4], int)
            and ty in ancestors(self.prog, s[4]))]
        if nested:
            fs = [s for s in fs if s[2] in self.pure]
        if not fs:
            return None
        return self.callof(scope, r.choice(fs), d)

    def callof(self, scope, s, d):
        args = []
        for n, ty, pp in s[3]:
            if pp == "ref":
                ps = self.paths(scope, ty)
                if not ps:
                    return None
                a = ["p", self.rng.choice(ps)]
            else:
                # (an inline function sees the type of the argument)
                a = self.val(scope, ty, d, nested=True,
                             exact=s[1] == "inline")
                if a is None:
                    return None
            args.append(a)
        return ["call", s[2], args]

    def stmt(self, scope, d, local):
        """local: names may be defined here"""
        r = self.rng
        p = self.prog
        k = r.random()
        structs = [x for x in scope if isinstance(x[1], int)]
        anyt = r.choice([x[1] for x in scope if x[1] != ENT] or ["int"])
        if k < .16 and local:
            t = r.choice(list(range(len(p["tpl"]))) * 3 + ["int", "bool"])
            n = self.name()
            e = self.val(scope, t, 2)
            if e is None:
                return []
            typed = True
            if e[0] == "new" and e[1] == t or e[0] == "p" and \
                    self.type_at(scope, e[1]) == t or t in ("int", "bool"):
                typed = r.random() < .4
            if e[0] == "call" and self.fnret(e[1]) == t:
                typed = r.random() < .4
            scope.append((n, t))
            if r.random() < .12:
                return [["def", n, t, None, True], ["set", [n], e]]
            return [["def", n, t, e, typed]]
        if k < .22 and local:
            ps = self.paths(scope, r.choice(
                list(range(len(p["tpl"]))) + ["int"]))
            if not ps:
                return []
            # (names that refer through entities would have to say when
            # the entity is looked up)
            ps = [q for q in ps if not self.through_ent(scope, q)]
            if not ps:
                return []
            q = r.choice(ps)
            n = self.name("r")
            scope.append((n, self.type_at(scope, q)))
            self.refnames.add(n)
            return [["ref", n, q]]
        if k < .5:
            t = r.choice([x[1] for x in structs]) if structs else anyt
            # also parts of them
            cand = [q for tt in range(len(p["tpl"]))
                    for q in self.paths(scope, tt)]
            if cand and r.random() < .9:
                q = r.choice(cand)
            else:
                ps = self.paths(scope, "int")
                if not ps:
                    return []
                q = r.choice(ps)
            t = self.type_at(scope, q)
            e = self.val(scope, t, 3)
            if e is None:
                return []
            return [["set", q, e]]
        if k < .62:
            t = r.choice(list(range(len(p["tpl"]))) * 2 + ["int", "bool"])
            ps = self.paths(scope, t)
            if not ps:
                return []
            return [["swap", r.choice(ps), r.choice(ps)]]
        if k < .7:
            ps = self.paths(scope, "int")
            if not ps:
                return []
            return [["aug", r.choice(ps), r.choice("++-*"),
                     self.scal(scope, "int", 1)]]
        if k < .78:
            ty = r.choice(["int", "bool"])
            e = self.scal(scope, ty, 2)
            return [["acc", e if ty == "int" else ["int", e]]]
        if k < .88 and self.fns:
            c = self.callof(scope, r.choice(self.fns), 2)
            return [["do", c]] if c else []
        if k < .95 and d > 0:
            inner = list(scope)
            a = self.blk(inner, d - 1, r.randint(1, 3), False)
            b = self.blk(list(scope), d - 1, r.randint(0, 2), False)
            return [["if", self.scal(scope, "bool", 2), a, b]]
        if d > 0:
            n = self.name("i")
            return [["def", n, "int", ["i", 0], True],
                    ["loop", n, r.randint(1, 3),
                     self.blk(list(scope), d - 1, r.randint(1, 3), False)]]
        return []

    def writes_ent(self, scope, body):
        for s in body:
            if s[0] in ("set", "aug") and self.through_ent(scope, s[1]):
                return True
            if s[0] == "swap" and (self.through_ent(scope, s[1]) or
                                   self.through_ent(scope, s[2])):
                return True
            if s[0] == "if" and (self.writes_ent(scope, s[2]) or
                                 self.writes_ent(scope, s[3])):
                return True
            if s[0] == "loop" and self.writes_ent(scope, s[3]):
                return True
        return False

    def fnret(self, n):
        return [s[4] for s in self.fns if s[2] == n][0]

    def through_ent(self, scope, q):
        t = dict(scope)[q[0]]
        for i in range(len(q)):
            if t == ENT:
                return True
            if i + 1 < len(q):
                t = type_of(self.prog, t, [q[i + 1]])
        return False

    def type_at(self, scope, q):
        return type_of(self.prog, dict(scope)[q[0]], q[1:])

    def blk(self, scope, d, n, local):
        out = []
        for _ in range(n):
            out += self.stmt(scope, d, local)
        return out

    def fn(self, scope):
        r = self.rng
        p = self.prog
        kind = "inline" if r.random() < .4 else "def"
        tys = list(range(len(p["tpl"])))
        params = []
        pure = r.random() < .6
        for _ in range(r.choice([0, 1, 1, 2, 2])):
            ty = r.choice(tys * 3 + ["int", "bool"])
            pp = "ref" if kind == "inline" and r.random() < .4 and \
                not pure else "val"
            params.append([self.name("p"), ty, pp])
        ret = r.choice(tys * 3 + ["int", None])
        # static types of what is passed to inline functions are those of
        # the argument, so only the fields of the declared type are used
        inner = [(n, t) for n, t, _ in params]
        saved = self.fns, list(scope)
        if pure:
            self.fns = [s for s in self.fns if s[2] in self.pure]
        else:
            inner = list(scope) + inner
        body = self.blk(inner, 1, r.randint(0, 4), True)
        if pure:
            body = [s for s in body]
            if contains(body, "acc") or \
                    self.writes_ent([(n, t) for n, t in inner], body):
                pure = False
        res = None
        if ret is not None:
            res = self.val(inner, ret, 2, nested=True,
                           exact=kind == "inline")
            if res is None:
                ret = None
        self.fns = saved[0]
        name = self.name("f")
        s = ["fn", kind, name, params, ret, "val", body, res]
        if pure and ret is not None:
            self.pure.add(name)
        self.fns.append(s)
        return s

    def program(self):
        r = self.rng
        p = self.prog
        self.templates()
        self.fns, self.pure, self.refnames = [], set(), set()
        self.ifaces = []
        scope = [("o0", "int")]
        body = p["body"]
        if p["ent"]:
            for _ in range(r.randint(1, 2)):
                n = self.name("mob")
                body.append(["spawn", n])
                scope.append((n, ENT))
                for f, ft in p["ent"]:
                    e = self.val([x for x in scope if x[1] != ENT], ft, 1)
                    if e is not None:
                        body.append(["set", [n, f], e])
        for _ in range(r.randint(1, 3)):
            t = r.randrange(len(p["tpl"]))
            n = self.name()
            body.append(["def", n, t, self.new(scope, t, 1), True])
            scope.append((n, t))
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if k < .15 and len(self.fns) < 5:
                body.append(self.fn(scope))
            elif k < .25 and len(self.ifaces) < 3:
                path = r.choice(["run", "go", "a/b"]) + str(len(self.ifaces))
                self.ifaces.append(path)
                body.append(["iface", path, self.blk(
                    list(scope), 2, r.randint(1, 5), True)])
            else:
                body += self.stmt(scope, 2, True)
        dump = []
        for n, t in scope:
            if n in ("o0",) or n in self.refnames:
                continue
            for q, ty in leaves(p, t):
                e = ["p", [n] + q]
                dump.append(e if ty == "int" else ["int", e])
        p["ndump"] = len(dump)
        body.append(["iface", "dump/all", [["dump", dump]]])
        return p


def contains(x, w):
    return x == w or isinstance(x, list) and any(contains(y, w) for y in x)
