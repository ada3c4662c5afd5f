"""Swarm-style random generator of well-defined Acacia programs (lang.py)."""

from .lang import has_rand, text_of, arith_const, Discard, CMP
from .mcworld import IMIN, IMAX

FEATURES = ["neg", "div", "bool", "and", "or", "not", "chain", "intb",
            "func", "purefunc", "inline", "cfunc", "iface", "while", "for",
            "ref", "scbio", "swap", "const", "shadow", "big", "kw", "nested",
            "aug", "boolcmp", "rand", "mathf", "struct", "forlist", "proc"]

NAMES = list("abcdefghijklmnopqrstuvwxyz") + [
    "foo", "bar", "x1", "y_2", "val", "tmp", "count", "_u", "main", "Name",
    "init", "load", "acacia", "tick", "result_", "obs", "self_"]

BIG = [IMAX, IMIN, IMAX - 1, IMIN + 1, 65536, -65536, 1 << 30, -(1 << 30),
       46341, 1000000007]

UNKNOWN = object()


def contains(e, sub):
    return e == sub or isinstance(e, list) and any(contains(x, sub)
                                                   for x in e)


def mentions(e, name):
    """Is the name written in the expression?"""
    if isinstance(e, str):
        return text_of(e).split(".")[0] == name
    if isinstance(e, list):
        return any(mentions(x, name) for x in e)
    return False


class Var:
    __slots__ = ("uid", "ty", "kind", "lv", "guard", "val", "path", "fields")

    def __init__(self, uid, ty, kind="var", lv=True, val=None, node=None):
        self.uid = uid
        self.ty = ty
        self.kind = kind        # var | const | cparam
        self.lv = lv
        self.guard = False
        self.val = val
        self.path = node or ["v", uid]


class Scope:
    """A function-level scope; blocks inside it are frames of it."""

    def __init__(self, outer=None):
        self.outer = outer
        self.frames = [[]]
        self.taken = set()

    def visible(self):
        out, hidden = [], set()
        s = self
        while s is not None:
            for fr in s.frames:
                for v in fr:
                    t = text_of(v.uid)
                    if t not in hidden:
                        out.append(v)
            hidden |= s.taken
            s = s.outer
        return out


class Func:
    def __init__(self, uid, kind, params, ret, pure, callee=None):
        self.uid = uid
        self.kind = kind
        self.params = params     # [uid, ty, default, port]
        self.ret = ret
        self.pure = pure
        self.callee = callee or uid


class Gen:
    def __init__(self, rng, feats=None, size=14, nout=3, nin=2):
        self.rng = rng
        if feats is None:
            feats = {f for f in FEATURES if rng.random() < .55}
        self.f = set(feats)
        self.size = size
        self.n = 0
        self.marks = 0
        self.funcs = []
        self.funcscopes = {}
        self.ifaces = []
        self.outs = []
        self.ins = []
        self.nout, self.nin = nout, nin
        self.in_func = None
        self.in_const = False
        self.loopdepth = 0
        self.can_loop = True
        self.math = None        # name of the math module when imported
        self.structs = []       # (uid, [(name, ty)])
        self.in_iface = False
        self.pure_body = False
        self.rand_ok = False    # a draw may stand inside this expression
        self.ranges = set()
        self.in_inline = False
        self.disturbing = .35

    # -- names
    def uid(self, scope, prefer=None):
        self.n += 1
        r = self.rng
        for _ in range(60):
            t = prefer or r.choice(NAMES)
            if _ > 20:
                t = r.choice(NAMES) + str(r.randrange(100))
            prefer = None
            if t in scope.taken:
                continue
            if scope.outer is not None and "shadow" not in self.f:
                s, clash = scope.outer, False
                while s is not None:
                    clash = clash or t in s.taken
                    s = s.outer
                if clash:
                    continue
            scope.taken.add(t)
            return "%s@%d" % (t, self.n)
        scope.taken.add("v%d" % self.n)
        return "v%d@%d" % (self.n, self.n)

    # -- constants
    def cval(self, e):
        """Compile time value of e, UNKNOWN if only known at a call, None if
        it is not constant."""
        t = e[0]
        if t in ("i", "b"):
            return e[1]
        if t in ("v", "q"):
            u = e[-1]
            v = self.cvars.get(u)
            return v
        if t in ("neg", "pos", "not", "int"):
            v = self.cval(e[1])
            if v is None and t == "int" and self.foldable(e[1]):
                # the compiler may see through the condition
                return UNKNOWN
            if v is None or v is UNKNOWN:
                return v
            return {"neg": -v, "pos": v, "not": int(not v),
                    "int": int(v)}[t]
        if t == "bin":
            a, b = self.cval(e[2]), self.cval(e[3])
            if a is None or b is None:
                return None
            if a is UNKNOWN or b is UNKNOWN:
                return UNKNOWN
            try:
                return arith_const(e[1], a, b)
            except Discard:
                return "bad"
        if t == "cmp":
            vs = [self.cval(e[1])] + [self.cval(y) for _, y in e[2]]
            if any(v is None for v in vs):
                return None
            if any(v is UNKNOWN for v in vs):
                return UNKNOWN
            return int(all(CMP[op](vs[i], vs[i + 1])
                           for i, (op, _) in enumerate(e[2])))
        if t in ("and", "or"):
            vs = [self.cval(y) for y in e[1]]
            if any(v is None for v in vs):
                return None
            if any(v is UNKNOWN for v in vs):
                return UNKNOWN
            return int(all(vs) if t == "and" else any(vs))
        if t == "math" and e[1].split(".")[-1] != "randint":
            vs = [self.cval(y) for y in e[2]]
            if any(v is None for v in vs):
                return None
            if any(v is UNKNOWN or v == "bad" for v in vs):
                return UNKNOWN
            f = e[1].split(".")[-1]
            return min(vs) if f == "min" else max(vs) if f == "max" else \
                vs[0] % vs[1] if f == "mod" else \
                vs[0] // vs[1] if f == "floordiv" else vs[0] ** vs[1]
        if t == "call":
            fn = self.fnby.get(e[1] if isinstance(e[1], str) else e[1][2])
            if fn is not None and fn.kind == "const":
                return UNKNOWN
            return None
        if t == "cc":
            return e[2]
        return None

    def foldable(self, e):
        return e[0] in ("cmp", "and", "or") or \
            e[0] == "not" and self.foldable(e[1])

    # -- leaves
    def lit(self):
        r = self.rng
        k = r.random()
        if "big" in self.f and k < .2 and not self.in_const:
            return ["i", r.choice(BIG)]
        if k < .75:
            n = r.randint(-9, 12) if "neg" in self.f else r.randint(0, 12)
        else:
            n = r.randint(-3000, 3000) if "neg" in self.f \
                else r.randint(0, 3000)
        return ["i", n]

    def vars(self, scope, ty, lv=None):
        out = []
        for v in scope.visible():
            self._collect(v, v.path, v.ty, ty, out)
        if lv is not None:
            out = [o for o in out if o[0].lv == lv and not
                   (lv and o[0].guard)]
        if self.pure_body and lv:
            # only locals of the function may be written
            loc = set()
            s = scope
            while s is not None and s is not self.func_outer:
                for fr in s.frames:
                    loc |= {v.uid for v in fr}
                s = s.outer
            out = [o for o in out if o[0].uid in loc]
        return out

    def _collect(self, v, path, vty, ty, out):
        if vty == ty:
            out.append((v, path))
        elif "@" in vty and vty != ty:
            for n, fty in self.allfields(vty):
                self._collect(v, ["f", path, n], fty, ty, out)

    def allfields(self, uid):
        for u, own, bases in self.structs:
            if u == uid:
                res = list(own)
                for b in bases:
                    res += self.allfields(b)
                return res
        return []

    def leaf(self, scope, ty):
        r = self.rng
        vs = self.vars(scope, ty)
        if vs and r.random() < .75:
            return r.choice(vs)[1]
        if ty == "bool":
            return ["b", r.randint(0, 1)]
        return self.lit()

    # -- expressions (pure)
    def expr(self, scope, ty, depth=None):
        if depth is None:
            depth = self.rng.choice([0, 1, 1, 2, 2, 3])
        e = self.ib(scope, depth) if ty == "int" else self.bb(scope, depth)
        return e

    def ib(self, scope, d):
        r = self.rng
        if d <= 0:
            return self.leaf(scope, "int")
        ch = ["bin"] * 8 + ["leaf"]
        if "neg" in self.f:
            ch += ["neg"]
        if "nested" in self.f:
            ch += ["bin"] * 3 + ["pos"]
        if "intb" in self.f and "bool" in self.f and not self.in_const:
            ch += ["int"]
        if "func" in self.f:
            ch += ["call"] * 2
        if self.math and "mathf" in self.f and not self.in_const:
            ch += ["math"] * 2
        k = r.choice(ch)
        if k == "neg":
            e = ["neg", self.ib(scope, d - 1)]
            if self.bad(e):
                return ["i", 1]
            return e
        if k == "pos":
            return ["pos", self.ib(scope, d - 1)]
        if k == "int":
            return ["int", self.bb(scope, d - 1)]
        if k == "call":
            c = self.purecall(scope, "int", d)
            if c is not None:
                return c
        if self.rand_ok and r.random() < .25:
            return self.draw()
        if k == "math":
            return self.mathcall(scope, d)
        if k == "leaf":
            return self.leaf(scope, "int")
        op = r.choice("++--**" + ("/%" if "div" in self.f else ""))
        a = self.ib(scope, d - 1)
        if op in "/%":
            if r.random() < .8 or self.in_const:
                n = r.choice([2, 3, 5, 7, 10, 100] +
                             ([-2, -3, -1] if "neg" in self.f else []))
                b = ["i", n]
            else:
                b = self.ib(scope, d - 1)
        else:
            b = self.ib(scope, r.randint(0, d - 1)
                        if "nested" in self.f else 0)
        e = ["bin", op, a, b]
        if self.bad(e):
            e = ["bin", "+", self.nonconst(scope, a), ["i", 1]]
            if self.bad(e):
                return ["i", 3]
        return e

    def nonconst(self, scope, dflt):
        vs = [p for v, p in self.vars(scope, "int") if v.kind == "var"]
        return self.rng.choice(vs) if vs else ["i", 2]

    def bad(self, e):
        v = self.cval(e)
        if v is None:
            # a constant part of a non constant expression
            return False
        if v is UNKNOWN:
            if e[0] == "bin":
                if e[1] in "+-*":
                    return not (self.small(e[2]) and self.small(e[3]))
                return True
            return e[0] == "neg" and self.cval(e[1]) is UNKNOWN and \
                self.in_const
        if v == "bad":
            return True
        return not IMIN <= v <= IMAX

    def small(self, e):
        v = self.cval(e)
        if v is UNKNOWN:
            return e[0] == "int"
        return v is None or v != "bad" and abs(v) < 1 << 30

    def mathcall(self, scope, d):
        r = self.rng
        f = r.choice(["min", "max", "mod", "floordiv", "pow"])
        m = self.math
        name = "%s.%s" % (m, f) if m != "*" else f
        if "mathx" in self.f and r.random() < .4:
            return self.mathx(scope, d, f, name)
        if f in ("min", "max"):
            n = r.randint(1, 4)
            a = [self.ib(scope, d - 1) for _ in range(n)]
        elif f == "pow":
            base = self.leaf(scope, "int")
            if self.cval(base) is not None:
                base = self.nonconst(scope, base)
                if self.cval(base) is not None:
                    return ["i", 4]
            a = [base, ["i", r.randint(1, 6)]]
        else:
            a = [self.ib(scope, d - 1),
                 ["i", r.choice([2, 3, 7, 10, -2, -3, -7])]]
        if all(self.cval(x) is not None for x in a):
            a[0] = self.nonconst(scope, a[0])
            if self.cval(a[0]) is not None:
                return ["i", 5]
        return ["math", name, a]

    def mathx(self, scope, d, f, name):
        """Argument shapes beyond the simple ones."""
        r = self.rng
        k = r.random()
        if k < .25:
            # constants only
            if f == "pow":
                a = [r.randint(-12, 12), r.randint(0, 8)]
            elif f in ("min", "max"):
                a = [r.choice([r.randint(-9, 9), IMAX, IMIN])
                     for _ in range(r.randint(1, 4))]
            else:
                a = [r.choice([r.randint(-40, 40), IMAX, IMAX - 7]),
                     r.choice([1, 2, 3, 7, -1, -2, -5, IMAX, IMIN])]
            return ["math", name, [["i", x] for x in a]]
        if f == "pow":
            b = self.ib(scope, d - 1)
            if self.cval(b) is not None:
                b = self.nonconst(scope, b)
            if k < .6:
                return ["math", name, [b, ["i", r.randint(0, 13)]]]
            e = self.ib(scope, max(0, d - 2))
            if self.cval(e) is not None:
                e = self.nonconst(scope, e)
                if self.cval(e) is not None:
                    return ["i", 6]
            mod = "%s.mod" % self.math if self.math != "*" else "mod"
            return ["math", name, [b, ["math", mod,
                                       [e, ["i", r.choice([2, 5, 9])]]]]]
        if f in ("min", "max"):
            a = [self.ib(scope, d - 1) for _ in range(r.randint(2, 5))]
            a.insert(r.randrange(len(a)),
                     ["i", r.choice([IMAX, IMIN, 0, r.randint(-20, 20)])])
            if all(self.cval(x) is not None for x in a):
                return ["i", 7]
            return ["math", name, a]
        x = self.ib(scope, d - 1)
        y = self.ib(scope, max(0, d - 2))
        if self.cval(x) is not None and self.cval(y) is not None:
            return ["i", 8]
        if k < .5 or self.cval(y) is not None:
            y = ["i", r.choice([1, -1, 2, -2, IMAX, IMIN, IMAX - 1, 12345,
                                -99999])]
            if self.cval(x) is not None:
                return ["i", 9]
        return ["math", name, [x, y]]

    def bb(self, scope, d):
        r = self.rng
        if d <= 0:
            if r.random() < .6 or "bool" not in self.f:
                return self.cmp1(scope, 0)
            return self.leaf(scope, "bool")
        ch = ["cmp"] * 4
        if "and" in self.f:
            ch += ["and"] * 2
        if "or" in self.f:
            ch += ["or"] * 2
        if "not" in self.f:
            ch += ["not"] * 2
        if "bool" in self.f:
            ch += ["leaf"]
            if "boolcmp" in self.f:
                ch += ["boolcmp"]
        if "func" in self.f:
            ch += ["call"]
        k = r.choice(ch)
        if k in ("and", "or"):
            n = r.choice([2, 2, 3, 4])
            ok, self.rand_ok = self.rand_ok, False
            e = [k, [self.bb(scope, d - 1) for _ in range(n)]]
            self.rand_ok = ok
            return e
        if k == "not":
            return ["not", self.bb(scope, d - 1)]
        if k == "leaf":
            return self.leaf(scope, "bool")
        if k == "boolcmp":
            n = 2 if r.random() < .8 or "chain" not in self.f else 3
            ok = self.rand_ok
            if n > 2 and self.in_inline:
                self.rand_ok = False
            ops = [self.bb(scope, d - 1) for _ in range(n)]
            self.rand_ok = ok
            return ["cmp", ops[0], [[r.choice(["==", "!="]), o]
                                    for o in ops[1:]]]
        if k == "call":
            c = self.purecall(scope, "bool", d)
            if c is not None:
                return c
        return self.cmp1(scope, d - 1)

    def cmp1(self, scope, d):
        r = self.rng
        n = 2
        if "chain" in self.f and r.random() < .3:
            n = r.choice([3, 3, 4])
        ok = self.rand_ok
        if n > 2 and self.in_inline:
            # a chain that cannot hold may be left out with its draws,
            # in one expansion of the function and not in another
            self.rand_ok = False
        ops = [self.ib(scope, d) for _ in range(n)]
        self.rand_ok = ok
        if r.random() < .5:
            ops[r.randrange(n)] = self.lit()
        if r.random() < .5:
            # make it likely that something is compared twice
            ops[0] = self.leaf(scope, "int")
        return ["cmp", ops[0],
                [[r.choice(list(CMP)), o] for o in ops[1:]]]

    # -- calls
    def callable(self, scope, pred):
        out = []
        for fn in self.funcs:
            if pred(fn) and self.fvisible(scope, fn):
                out.append(fn)
        return out

    def fvisible(self, scope, fn):
        if isinstance(fn.callee, list):
            name = fn.callee[1]
        else:
            name = text_of(fn.callee)
        s = scope
        home = self.funcscopes[fn.uid]
        while s is not None and s is not home:
            if name in s.taken:
                return False
            s = s.outer
        return s is home

    def purecall(self, scope, ty, d):
        cands = self.callable(
            scope, lambda f: f.pure and f.ret == ty and
            (not self.in_const or f.kind == "const"))
        if not cands:
            return None
        return self.callto(scope, self.rng.choice(cands), d - 1)

    def callto(self, scope, fn, d):
        r = self.rng
        args = []
        for puid, ty, dflt, port in fn.params:
            if port == "ref":
                vs = [p for v, p in self.vars(scope, ty, lv=True)]
                if not vs:
                    return None
                a = r.choice(vs)
            elif port == "const" or fn.kind == "const":
                a = self.constarg(scope, ty, small=fn.kind == "const")
            elif "@" in ty:
                vs = [p for v, p in self.vars(scope, ty)]
                if not vs:
                    return None
                a = r.choice(vs)
            else:
                a = self.expr(scope, ty, max(0, min(d, 2)))
            args.append(a)
        # leave out a suffix with defaults, turn a suffix into keywords
        n = len(args)
        pos, kw = list(args), []
        while pos and fn.params[len(pos) - 1][2] is not None \
                and r.random() < .4:
            pos.pop()
        if "kw" in self.f and pos and r.random() < .4:
            k = r.randrange(len(pos))
            kw = [[text_of(fn.params[i][0]), pos[i]]
                  for i in range(k, len(pos))]
            pos = pos[:k]
            r.shuffle(kw)
        return ["call", fn.callee, pos, kw]

    def constarg(self, scope, ty, small=False):
        r = self.rng
        if ty == "bool":
            return ["b", r.randint(0, 1)]
        if not small:
            cs = [p for v, p in self.vars(scope, ty)
                  if v.kind in ("const", "cparam")]
            if cs and r.random() < .3:
                return r.choice(cs)
        return ["i", r.randint(-6 if "neg" in self.f else 0, 9)]

    def impure_call(self, scope, ty=None):
        cands = self.callable(
            scope, lambda f: not f.pure and (ty is None or f.ret == ty))
        if not cands:
            return None
        self.rand_ok = "randx" in self.f and bool(self.math)
        c = self.callto(scope, self.rng.choice(cands), 2)
        self.rand_ok = False
        return c

    # -- statements
    def mark(self):
        self.marks += 1
        return ["mark", self.marks]

    def types(self):
        return ["int", "int", "bool"] if "bool" in self.f else ["int"]

    def newvar(self, scope, ty, frame=None, **kw):
        v = Var(self.uid(scope), ty, **kw)
        (frame if frame is not None else scope.frames[-1]).append(v)
        return v

    def rhs(self, scope, ty):
        """A full right hand side: may be an impure call or a draw."""
        r = self.rng
        if not self.pure_body and not self.in_const:
            if r.random() < .25:
                c = self.impure_call(scope, ty)
                if c is not None:
                    return c
            if ty == "int" and self.math and "rand" in self.f \
                    and r.random() < .15:
                return self.draw()
            return self.rexpr(scope, ty)
        return self.expr(scope, ty)

    def rexpr(self, scope, ty, depth=None):
        """An expression that may contain draws."""
        self.rand_ok = "randx" in self.f and bool(self.math)
        e = self.expr(scope, ty, depth)
        self.rand_ok = False
        return e

    def draw(self):
        r = self.rng
        while True:
            lo = r.randint(-9, 9)
            hi = lo + r.choice([0, 1, 5, 100, r.randint(2, 60)])
            if "big" in self.f and r.random() < .1:
                lo, hi = r.choice([(IMIN, IMAX), (IMIN, IMIN + 1),
                                   (IMAX - 1, IMAX), (0, IMAX), (IMIN, 0)])
            if (lo, hi) not in self.ranges:
                break
        self.ranges.add((lo, hi))
        m = self.math
        return ["rand", "%s.randint" % m if m != "*" else "randint", lo, hi]

    def block(self, scope, n, d):
        scope.frames.append([])
        out = []
        for _ in range(n):
            out += self.stmt(scope, d)
        scope.frames.pop()
        return out

    def stmt(self, scope, d):
        r = self.rng
        f = self.f
        ch = ["def"] * 3 + ["set"] * 4 + ["out"] * 4
        if "aug" in f:
            ch += ["aug"] * 3
        if d > 0:
            ch += ["if"] * 3
            if not self.in_const:
                ch += ["flip"]
            if "while" in f and self.can_loop:
                ch += ["while"] * 2
            if "for" in f:
                ch += ["for"]
            if "forlist" in f:
                ch += ["forlist"]
        if "ref" in f and not self.in_const:
            ch += ["ref"]
        if "swap" in f and not self.in_const:
            ch += ["swap"]
        if "const" in f and not self.in_const:
            ch += ["const"]
        if not self.pure_body and not self.in_const:
            ch += ["call"] * 2 + ["mark"]
        if self.structs and not self.in_const:
            ch += ["sdef"] * 2 + ["sset"] * 2
        if r.random() < .02:
            ch = ["pass"]
        k = r.choice(ch)
        return getattr(self, "g_" + k)(scope, d) or []

    def g_pass(self, scope, d):
        return [["pass"]]

    def g_def(self, scope, d):
        ty = self.rng.choice(self.types())
        e = self.rhs(scope, ty)
        v = self.newvar(scope, ty)
        typed = self.rng.random() < .4 or self.in_const
        # a typed definition brings its own name into scope first
        if mentions(e, text_of(v.uid)):
            if self.in_const:
                e = ["i", 1]
            else:
                return [["def", v.uid, ty, e, False]]
        if self.rng.random() < .1 and not self.in_const:
            return [["def", v.uid, ty, None, True],
                    ["set", v.path, e]]
        return [["def", v.uid, ty, e, typed]]

    def g_set(self, scope, d):
        ty = self.rng.choice(self.types())
        vs = self.vars(scope, ty, lv=True)
        if not vs:
            return self.g_def(scope, d)
        v, p = self.rng.choice(vs)
        return [["set", p, self.rhs(scope, ty)]]

    def g_aug(self, scope, d):
        r = self.rng
        vs = self.vars(scope, "int", lv=True)
        if not vs:
            return self.g_def(scope, d)
        v, p = r.choice(vs)
        op = r.choice("++--*" + ("/%" if "div" in self.f else ""))
        if op in "/%" and (r.random() < .8 or self.in_const):
            e = ["i", r.choice([2, 3, 7, 10, -3])]
        elif not self.pure_body and not self.in_const and self.math \
                and "rand" in self.f and r.random() < .1:
            e = self.draw()
        elif not self.pure_body and not self.in_const:
            e = self.rexpr(scope, "int")
        else:
            e = self.expr(scope, "int")
        return [["aug", p, op, e]]

    def g_out(self, scope, d):
        if self.pure_body or self.in_const or not self.outs:
            return self.g_set(scope, d)
        r = self.rng
        o = r.choice(self.outs)
        if r.random() < .2 and "bool" in self.f:
            e = ["int", self.expr(scope, "bool")]
        else:
            e = self.rhs(scope, "int")
        res = []
        if self.ovisible(scope, o):
            res.append(["set", ["v", o.uid], e])
            if r.random() < .5:
                res.append(self.mark())
        return res

    def ovisible(self, scope, o):
        return any(v is o for v in scope.visible())

    def g_mark(self, scope, d):
        return [self.mark()]

    def g_if(self, scope, d):
        r = self.rng
        n = r.choice([1, 1, 1, 2, 3])
        br = [[self.cond(scope),
               self.block(scope, r.randint(1, 2), d - 1)] for _ in range(n)]
        els = self.block(scope, r.randint(1, 2), d - 1) \
            if r.random() < .5 else None
        if not self.in_const and not self.pure_body and r.random() < self.disturbing:
            # the body changes what its own condition depends on
            b = r.choice(br)
            m = self.disturb(scope, b[0])
            if m is not None:
                b[1].insert(r.randint(0, max(0, len(b[1]) -
                                           (r.random() < .7))), m)
        if any(has_rand(c) for c, _ in br):
            for b in [b for _, b in br] + ([els] if els else []):
                b.append(self.mark())
        elif r.random() < .04 and not self.in_const:
            br[0][1] = []
        return [["if", br, els]]

    def g_flip(self, scope, d):
        """A condition that does not hold any more once its consequences
        have begun."""
        r = self.rng
        vs = [p for _, p in self.vars(scope, "int", lv=True)]
        bs = [p for _, p in self.vars(scope, "bool", lv=True)]
        k = r.random()
        pre = []
        if k < .3 and len(vs) > 1:
            a, b = r.sample(vs, 2)
            n = r.choice([0, 1, -1, 5])
            op, to = r.choice([("==", n + 1), (">=", n - 1), ("<=", n + 1),
                               (">", n), ("<", n), ("!=", n)])
            c = ["cmp", b, [[op, ["i", n]]]]
            m = ["swap", a, b] if r.random() < .5 else ["swap", b, a]
            pre = [["set", a, ["i", to]]]
        elif k < .5 and len(vs) > 1:
            a, b = r.sample(vs, 2)
            op = r.choice("<>")
            c = ["cmp", a, [[op, b]]]
            m = r.choice([["swap", a, b]] * 3 + [
                ["swap", b, a], ["set", a, b], ["set", b, a]])
        elif k < .85 and vs:
            a = r.choice(vs)
            n = r.choice([0, 1, -1, 5])
            op, to = r.choice([("==", n + 1), (">=", n - 1), ("<=", n + 1),
                               ("!=", n), (">", n), ("<", n)])
            c = ["cmp", a, [[op, ["i", n]]]]
            m = ["set", a, ["i", to]]
            if r.random() < .3:
                m = ["aug", a, r.choice("+-"), ["i", r.choice([1, 9, 100])]]
        elif bs:
            p = r.choice(bs)
            c = p if r.random() < .5 else ["not", p]
            m = ["set", p, ["not", p]]
        else:
            return self.g_if(scope, d)
        rest = self.block(scope, r.choice([1, 1, 2]), 0)
        if not self.pure_body:
            rest.append(self.mark())
        els = self.block(scope, 1, 0) if r.random() < .4 else None
        return pre + [["if", [[c, [m] + rest]], els]]

    def disturb(self, scope, c):
        """A statement that changes a variable mentioned in `c`."""
        r = self.rng
        vs = [(v, p, ty) for ty in self.types()
              for v, p in self.vars(scope, ty, lv=True)]
        hit = [x for x in vs if contains(c, x[1])]
        if not hit:
            return None
        v, p, ty = r.choice(hit)
        k = r.random()
        if k < .4 and "swap" in self.f:
            others = [q for _, q, t in vs if t == ty and q != p]
            if others:
                q = r.choice(others)
                return ["swap", p, q] if r.random() < .3 else ["swap", q, p]
        if k < .6 and ty == "int" and "aug" in self.f:
            return ["aug", p, r.choice("+-*"), self.expr(scope, ty, 1)]
        return ["set", p, self.expr(scope, ty, r.randint(0, 1))]

    def cond(self, scope):
        if self.pure_body or self.in_const:
            return self.expr(scope, "bool")
        return self.rexpr(scope, "bool")

    def g_while(self, scope, d):
        r = self.rng
        if self.loopdepth >= 2:
            return self.g_set(scope, d)
        cnt = self.newvar(scope, "int")
        cnt.guard = True
        pre = ["def", cnt.uid, "int", ["i", 0], self.in_const]
        bound = r.choice([0, 1, 2, 3, 4])
        c = ["cmp", cnt.path, [["<", ["i", bound]]]]
        if r.random() < .4:
            extra = self.expr(scope, "bool", r.randint(0, 2))
            c = ["and", [c, extra] if r.random() < .7 else [extra, c]]
        elif r.random() < .2 and "not" in self.f:
            c = ["not", ["cmp", cnt.path, [[">=", ["i", bound]]]]]
        self.loopdepth += 1
        body = self.block(scope, r.randint(1, 3), d - 1)
        self.loopdepth -= 1
        inc = ["aug", cnt.path, "+", ["i", 1]] \
            if "aug" in self.f or r.random() < .5 else \
            ["set", cnt.path, ["bin", "+", cnt.path, ["i", 1]]]
        if r.random() < .7:
            body = body + [inc]
        else:
            body = [inc] + body
        return [pre, ["while", c, body]]

    def forbody(self, scope, d, ty, vals):
        inner = Scope(scope)
        u = self.uid(inner)
        v = Var(u, ty, kind="cparam", lv=False)
        inner.frames[0].append(v)
        self.cvars[u] = UNKNOWN
        self.loopdepth += 1
        body = []
        for _ in range(self.rng.randint(1, 2)):
            body += self.stmt(inner, d - 1)
        self.loopdepth -= 1
        if self.rng.random() < .3 and self.outs and not self.pure_body \
                and not self.in_const:
            o = self.rng.choice(self.outs)
            if self.ovisible(inner, o) and ty == "int":
                body += [["aug", ["v", o.uid], "+", v.path]]
        if not body:
            body = [["pass"]]
        return u, body

    def g_for(self, scope, d):
        r = self.rng
        if self.loopdepth >= 2:
            return self.g_set(scope, d)
        k = r.randint(0, 2)
        if k == 0:
            n = r.randint(0, 3)
            txt, vals = "list.range(%d)" % n, list(range(n))
        elif k == 1:
            a = r.randint(-2, 3)
            n = r.randint(0, 3)
            txt, vals = "list.range(%d, %d)" % (a, a + n), \
                list(range(a, a + n))
        else:
            a, st = r.randint(0, 3), r.choice([2, 3, -1, -2])
            b = a + st * r.randint(0, 3)
            txt, vals = "list.range(%d, %d, %d)" % (a, b, st), \
                list(range(a, b, st))
        u, body = self.forbody(scope, d, "int", vals)
        return [["for", u, txt, vals, body]]

    def g_forlist(self, scope, d):
        r = self.rng
        if self.loopdepth >= 2:
            return self.g_set(scope, d)
        vals = [r.randint(0, 20) for _ in range(r.randint(1, 3))]
        txt = "{%s}" % ", ".join(map(str, vals))
        k = r.randint(0, 5)
        if k == 0:
            txt += " + {7}"
            vals = vals + [7]
        elif k == 1:
            txt += " * 2"
            vals = vals * 2
        elif k == 2:
            txt = "(%s).slice(1, None)" % txt
            vals = vals[1:]
        elif k == 3:
            txt = "(%s).slice(None, None, -1)" % txt
            vals = vals[::-1]
        u, body = self.forbody(scope, d, "int", vals)
        return [["for", u, txt, vals, body]]

    def g_ref(self, scope, d):
        r = self.rng
        ty = r.choice(self.types())
        vs = self.vars(scope, ty, lv=True)
        if not vs or self.loopdepth:
            return self.g_set(scope, d)
        v, p = r.choice(vs)
        u = self.uid(scope)
        nv = Var(u, ty)
        scope.frames[-1].append(nv)
        return [["ref", u, p, ty == "int" and r.random() < .4]]

    def g_swap(self, scope, d):
        r = self.rng
        ty = r.choice(self.types())
        vs = self.vars(scope, ty, lv=True)
        if len(vs) < 2:
            return self.g_set(scope, d)
        (v1, a), (v2, b) = r.sample(vs, 2)
        return [["swap", a, b]]

    def g_const(self, scope, d):
        r = self.rng
        u = self.uid(scope)
        if r.random() < .7 or "bool" not in self.f:
            e = ["i", r.randint(-20, 40)]
            cs = [p for v, p in self.vars(scope, "int")
                  if v.kind == "const"]
            if cs and r.random() < .5:
                e2 = ["bin", r.choice("+-*"), r.choice(cs), e]
                if not self.bad(e2):
                    e = e2
            ty = "int"
        else:
            e = ["b", r.randint(0, 1)]
            ty = "bool"
        self.cvars[u] = self.cval(e)
        v = Var(u, ty, kind="const", lv=False)
        scope.frames[-1].append(v)
        return [["const", u, e]]

    def g_call(self, scope, d):
        c = self.impure_call(scope)
        if c is None:
            return self.g_out(scope, d)
        return [["expr", c]]

    # structs
    def g_sdef(self, scope, d):
        r = self.rng
        u, own, bases = r.choice(self.structs)
        if not self.svisible(scope, u):
            return self.g_set(scope, d)
        same = [p for v, p in self.vars(scope, u)]
        if same and r.random() < .5:
            e = r.choice(same)
        else:
            fs = self.allfields(u)
            e = ["new", u, [[n, self.sval(scope, ty)] for n, ty in fs]]
            if any(x[1] is None for x in e[2]):
                return self.g_set(scope, d)
            if r.random() < .3:
                r.shuffle(e[2])
        v = self.newvar(scope, u)
        return [["def", v.uid, u, e, r.random() < .3 and e[0] != "new"
                 and not mentions(e, text_of(v.uid))
                 and text_of(u) != text_of(v.uid)]]

    def svisible(self, scope, u):
        s = scope
        while s is not None and s is not self.root:
            if text_of(u) in s.taken:
                return False
            s = s.outer
        return True

    def sval(self, scope, ty):
        if "@" in ty:
            vs = [p for v, p in self.vars(scope, ty)]
            return self.rng.choice(vs) if vs else None
        return self.expr(scope, ty, self.rng.randint(0, 2))

    def g_sset(self, scope, d):
        r = self.rng
        u, own, bases = r.choice(self.structs)
        vs = [(v, p) for v, p in self.vars(scope, u, lv=True)]
        if not vs:
            return self.g_sdef(scope, d)
        v, p = r.choice(vs)
        src = [q for _, q in self.vars(scope, u)]
        if r.random() < .6:
            return [["set", p, r.choice(src)]]
        if len(vs) > 1 and r.random() < .5:
            (_, a), (_, b) = r.sample(vs, 2)
            if a[0] == "v" and b[0] == "v":
                return [["swap", a, b]]
        return self.g_set(scope, d)

    def structdef(self, scope):
        r = self.rng
        u = self.uid(scope, "S")
        own = []
        used = set()
        bases = []
        if self.structs and r.random() < .4:
            b = r.choice(self.structs)
            bases = [b[0]]
            used |= {n for n, _ in self.allfields(b[0])}
        for _ in range(r.randint(1, 3)):
            n = r.choice(["p", "q", "r", "s", "t", "w"])
            if n in used:
                continue
            used.add(n)
            tys = self.types()
            if self.structs and r.random() < .25:
                tys = [x[0] for x in self.structs if x[0] not in bases] \
                    or tys
            own.append([n, r.choice(tys)])
        if not own and not bases:
            own = [["z", "int"]]
        self.structs.append((u, own, bases))
        return ["struct", u, own, bases]

    # -- functions
    def func(self, scope, kind, pure):
        r = self.rng
        inner = Scope(scope)
        params = []
        np_ = r.choice([0, 1, 1, 2, 2, 3])
        ret = r.choice(self.types() + ([] if pure else [None]))
        if kind == "const":
            ret = "int"
        nodef = True
        for i in range(np_):
            ty = r.choice(self.types()) if kind != "const" else "int"
            port = "val"
            if kind == "inline":
                port = r.choice(["val", "val", "const"]
                                + ([] if pure else ["ref"]))
            dflt = None
            if (not nodef or r.random() < .25) and port != "ref":
                dflt = ["b", r.randint(0, 1)] if ty == "bool" \
                    else ["i", r.randint(0, 9)]
                nodef = False
            elif not nodef:
                # a parameter without default can't follow one with
                port = "val"
                dflt = ["b", 1] if ty == "bool" else ["i", 4]
            u = self.uid(inner)
            params.append([u, ty, dflt, port])
            v = Var(u, ty, kind="cparam" if port == "const" else "var",
                    lv=port != "const")
            inner.frames[0].append(v)
            if port == "const":
                self.cvars[u] = UNKNOWN
            if kind == "const":
                self.cvars[u] = UNKNOWN
        if kind != "const" and self.structs and r.random() < .3 and \
                nodef:
            st = r.choice(self.structs)[0]
            if not self.svisible(inner, st):
                st = "int"
            u = self.uid(inner)
            params.append([u, st, None, "val"])
            inner.frames[0].append(Var(u, st))
        saved = (self.pure_body, self.in_const, getattr(
            self, "func_outer", None), self.loopdepth, self.can_loop)
        self.pure_body = pure
        self.in_const = kind == "const"
        self.in_inline = kind == "inline"
        self.func_outer = scope
        self.loopdepth = 1 if kind == "const" else 0
        body = []
        if kind == "const":
            body, ret = self.constbody(inner, params), "int"
        else:
            for _ in range(r.randint(1, 4)):
                body += self.stmt(inner, 2)
            if ret:
                if r.random() < .3:
                    c = self.expr(inner, "bool", 1)
                    body.append(
                        ["if", [[c, [["result", self.expr(inner, ret)]]]],
                         [["result", self.expr(inner, ret)]]])
                else:
                    body.append(["result", self.expr(inner, ret)])
        (self.pure_body, self.in_const, self.func_outer, self.loopdepth,
         self.can_loop) = saved
        self.in_inline = False
        uid = self.uid(scope, r.choice(["f", "g", "h", "calc", "fn"]))
        fn = Func(uid, kind, params, ret, pure)
        self.funcs.append(fn)
        self.fnby[uid] = fn
        self.funcscopes[uid] = scope
        return ["func", kind, uid, params, ret, body]

    def constbody(self, inner, params):
        """Bodies of const functions use bounded templates so that no
        constant overflows."""
        r = self.rng
        ps = [["v", p[0]] for p in params]
        acc = self.uid(inner)
        A = ["v", acc]
        body = [["def", acc, "int", ["i", r.randint(0, 5)], True]]
        for p in ps:
            k = r.randint(0, 4)
            if k == 0:
                body.append(["aug", A, r.choice("+-"), p])
            elif k == 1:
                body.append(["set", A, ["bin", r.choice("+-"), p, A]])
            elif k == 2:
                body.append(["if", [[
                    ["cmp", p, [[r.choice(list(CMP)), ["i", 3]]]],
                    [["set", A, ["bin", "+", A, ["i", 10]]]]]],
                    [["aug", A, "*", ["i", 2]]]])
            elif k == 3:
                i = self.uid(inner)
                body += [["def", i, "int", ["i", 0], True],
                         ["while", ["cmp", ["v", i], [["<", ["i", 3]]]],
                          [["aug", A, "+", p],
                           ["aug", ["v", i], "+", ["i", 1]]]]]
            else:
                j = self.uid(inner)
                body.append(["for", j, "list.range(3)", [0, 1, 2],
                             [["aug", A, "+", ["bin", "*", ["v", j], p]]]])
        body.append(["result", A])
        return body

    # -- interfaces
    def iface(self, scope):
        r = self.rng
        inner = Scope(scope)
        path = "%s%d" % (r.choice(["i", "run", "a/b", "ui/click"]),
                         len(self.ifaces))
        self.ifaces.append(path)
        self.in_iface = True
        body = [self.mark()]
        for _ in range(r.randint(1, 5)):
            body += self.stmt(inner, 2)
        body.append(self.mark())
        self.in_iface = False
        txt = path if r.random() < .7 else '"%s"' % path
        return ["iface", txt, body]

    def dump(self, scope):
        """An interface writing every module level variable out."""
        body = []
        vs = [v for v in scope.visible()]
        cur = 0
        for v in vs:
            for ty in ("int", "bool"):
                found = []
                self._collect(v, v.path, v.ty, ty, found)
                for _, p in found:
                    e = p if ty == "int" else ["int", p]
                    if p == ["v", self.outs[cur].uid]:
                        continue
                    body.append(["set", ["v", self.outs[cur].uid], e])
                    cur = (cur + 1) % len(self.outs)
                    if cur == 0:
                        body.append(self.mark())
        body.append(self.mark())
        path = "dump/all"
        self.ifaces.append(path)
        return ["iface", path, body]

    # -- whole program
    def program(self):
        r = self.rng
        self.cvars = {}
        self.fnby = {}
        scope = Scope()
        self.root = scope
        body = []
        for i in range(self.nout):
            v = Var(self.uid(scope, "o%d" % i), "int")
            scope.frames[0].append(v)
            self.outs.append(v)
            body.append(["scb", v.uid, "o%d" % i, "obs"])
        if "scbio" in self.f:
            for i in range(self.nin):
                v = Var(self.uid(scope, "in%d" % i), "int", lv=False)
                scope.frames[0].append(v)
                self.ins.append(v)
                body.append(["scb", v.uid, "in%d" % i, "obs"])
        if "mathf" in self.f or "rand" in self.f:
            if r.random() < .7:
                self.math = "math"
                body.append(["import", None, "import math"])
                scope.taken.add("math")
            else:
                self.math = "*"
                body.append(["import", None, "from math import "
                             "randint, min, max, pow, mod, floordiv"])
                scope.taken |= {"randint", "min", "max", "pow", "mod",
                                "floordiv"}
        body += self.toplevel(scope)
        body.append(self.dump(scope))
        return {"style": r.randrange(1 << 30) if r.random() < .5 else None,
                "modules": {"main": body}}

    def toplevel(self, scope):
        r = self.rng
        body = []
        n = r.randint(max(3, self.size // 2), self.size)
        for _ in range(n):
            k = r.random()
            if "struct" in self.f and k < .08 and len(self.structs) < 3:
                body.append(self.structdef(scope))
            elif "func" in self.f and k < .3 and len(self.funcs) < 6:
                kinds = ["def", "def"]
                if "inline" in self.f:
                    kinds += ["inline"]
                if "cfunc" in self.f:
                    kinds += ["const"]
                kd = r.choice(kinds)
                pure = kd == "const" or (r.random() < .5)
                body.append(self.func(scope, kd, pure))
            elif "iface" in self.f and k < .42 and len(self.ifaces) < 4:
                body.append(self.iface(scope))
            else:
                body += self.stmt(scope, 3)
        return body
