"""C08: each imported module initializes exactly once per main run."""

from .. import lang, langcase, simrun

ID = "C08"
QUICK = 9000
THOROUGH = 250000
RULE = ("a random acyclic graph of up to seven modules in nested folders, "
        "imported whole, by name, renamed, by star, relatively and "
        "repeatedly, at top level, in functions, inline functions, branches, "
        "loops and interfaces, sharing variables; a random history of main "
        "runs, interface calls, outside changes, restarts and crash "
        "rollbacks; every module marks its initialization, and the sequence "
        "of marks and scores is compared with the reference; distinct = "
        "different sequence of marks and scores; non-trivial = at least two "
        "modules initialized and three observations")


class Fn:
    def __init__(self, uid, nparams, ret):
        self.uid, self.nparams, self.ret = uid, nparams, ret


class Mod:
    def __init__(self, key):
        self.key = key
        self.vars = []
        self.funs = []
        self.names = set()


class Scope:
    def __init__(self, outer=None):
        self.outer = outer
        self.taken = set(outer.taken) if outer else set()
        self.vars = list(outer.vars) if outer else []
        self.own = list(outer.own) if outer else []
        self.funs = list(outer.funs) if outer else []
        self.inline = outer.inline if outer else False

    def frame(self):
        """A block: what is added stays visible inside it only."""
        s = Scope.__new__(Scope)
        s.outer = self.outer
        s.taken = self.taken
        s.vars, s.own, s.funs = list(self.vars), list(self.own), \
            list(self.funs)
        s.inline = self.inline
        return s


class ModGen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.marks = 0
        self.mods = []
        self.ifaces = []

    def uid(self, scope, text):
        base, k = text, 0
        while text in scope.taken:
            k += 1
            text = base + str(k)
        scope.taken.add(text)
        self.n += 1
        return "%s@%d" % (text, self.n)

    def mark(self):
        self.marks += 1
        return ["mark", self.marks]

    def expr(self, s, d=1):
        r = self.rng
        if d <= 0 or r.random() < .3:
            if s.vars and r.random() < .7:
                return r.choice(s.vars)
            return ["i", r.randint(0, 9)]
        return ["bin", r.choice("++-*"), self.expr(s, d - 1),
                self.expr(s, d - 1)]

    def rhs(self, s, d):
        # a call with effects stands alone: the order of evaluation inside
        # one expression is not specified
        r = self.rng
        if s.funs and r.random() < .4:
            f = r.choice([f for f in s.funs if f[1].ret] or [None])
            if f is not None:
                return self.callf(s, f)
        return self.expr(s, d)

    def callf(self, s, f):
        return ["call", f[0],
                [self.expr(s, 0) for _ in range(f[1].nparams)], []]

    def imp(self, s, upto):
        """One import statement and what it brings into the scope."""
        r = self.rng
        if upto <= 0:
            return []
        m = self.mods[r.randrange(upto) if r.random() < .6
                      else max(0, upto - 1 - r.randrange(2))]
        # three spellings of the same file (acabuild keeps sources in src/)
        k = r.random()
        path = ("." if k < .25 else "..src." if k < .4 else "") + m.key
        form = r.choice(["whole", "whole", "as", "from", "from", "fromas",
                         "star"])
        last = m.key.split(".")[-1]
        if form == "whole" and last in s.taken:
            form = "as"
        if form == "star" and m.names & s.taken:
            form = "fromas"
        if form in ("from", "fromas") and not (m.vars or m.funs):
            form = "as"
        vs, fs = [], []
        if form in ("whole", "as"):
            if form == "whole":
                name, text = last, "import %s" % path
                s.taken.add(name)
            else:
                name = self.uid(s, r.choice(["k", "mm", "lib"])) \
                    .split("@")[0]
                text = "import %s as %s" % (path, name)
            vs = [["q", name, u] for u in m.vars]
            fs = [(["q", name, f.uid], f) for f in m.funs]
        elif form == "star":
            text = "from %s import *" % path
            s.taken |= m.names
            vs = [["a", lang.text_of(u), u] for u in m.vars]
            fs = [(["a", lang.text_of(f.uid), f.uid], f) for f in m.funs]
        else:
            items = [("v", u) for u in m.vars] + [("f", f) for f in m.funs]
            r.shuffle(items)
            items = items[:r.randint(1, len(items))]
            parts = []
            for k, x in items:
                u = x if k == "v" else x.uid
                t = lang.text_of(u)
                if form == "fromas" or t in s.taken:
                    n = self.uid(s, r.choice(["al", "re", t])) \
                        .split("@")[0]
                    parts.append("%s as %s" % (t, n) if n != t else t)
                else:
                    n = t
                    s.taken.add(t)
                    parts.append(t)
                node = ["a", n, u]
                if k == "v":
                    vs.append(node)
                else:
                    fs.append((node, x))
            text = "from %s import %s" % (path, ", ".join(parts))
            if r.random() < .2:
                text = "from %s import (%s)" % (path, ", ".join(parts))
        s.vars += vs
        s.own += vs
        s.funs += fs
        return [["import", m.key, text]]

    def stmts(self, s, upto, n, depth, top=None):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < .25:
                out += self.imp(s, upto)
            elif k < .4 and s.own:
                out.append(["set", r.choice(s.own), self.rhs(s, 2)])
            elif k < .5 and s.own:
                out.append(["aug", r.choice(s.own), r.choice("+-*"),
                            self.rhs(s, 1)])
            elif k < .6:
                e = self.rhs(s, 1)
                u = self.uid(s, r.choice(["x", "y", "v", "count"]))
                out.append(["def", u, "int", e, False])
                s.vars.append(["v", u])
                s.own.append(["v", u])
                if top is not None:
                    top.vars.append(u)
            elif k < .68:
                out.append(["set", r.choice(self.outs),
                            self.rhs(s, 2)])
                out.append(self.mark())
            elif k < .78 and s.funs:
                out.append(["expr", self.callf(s, r.choice(s.funs))])
            elif k < .9 and depth > 0:
                c = ["cmp", r.choice(self.ins + s.vars),
                     [[r.choice(["<", ">", "==", "!="]),
                       ["i", r.randint(-1, 3)]]]]
                b1 = s.frame()
                body = self.stmts(b1, upto, r.randint(1, 3), depth - 1)
                b2 = s.frame()
                els = self.stmts(b2, upto, r.randint(1, 3), depth - 1) \
                    if r.random() < .4 else None
                out.append(["if", [[c, body]], els])
            elif depth > 0:
                u = self.uid(s, "i")
                b = s.frame()
                body = self.stmts(b, upto, r.randint(1, 2), depth - 1)
                out += [["def", u, "int", ["i", 0], False],
                        ["while", ["cmp", ["v", u],
                                   [["<", ["i", r.randint(0, 2)]]]],
                         body + [["aug", ["v", u], "+", ["i", 1]]]]]
            else:
                out.append(self.mark())
        return out

    def module(self, key, upto):
        r = self.rng
        m = Mod(key)
        s = Scope()
        self.outs, self.ins = [], []
        body = []
        for i in range(2):
            u = self.uid(s, "_o%d" % i)
            self.outs.append(["v", u])
            body.append(["scb", u, "o%d" % i, "obs"])
        for i in range(2):
            u = self.uid(s, "_in%d" % i)
            self.ins.append(["v", u])
            body.append(["scb", u, "in%d" % i, "obs"])
        quiet = r.random() < .1 and key != "main"
        if quiet:
            body = []
        else:
            body.append(self.mark())
        main = key == "main"
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if quiet:
                k = .9
            if k < .6:
                body += self.stmts(s, upto, r.randint(1, 2), 2, m)
            elif k < .85 or quiet:
                body.append(self.func(s, upto, m, quiet))
            else:
                body.append(self.iface(s, upto))
        if main:
            body.append(self.iface(s, upto))
        # everything at module level is exported (imports are not, but the
        # few names lost by counting them do not matter)
        m.names = {t for t in s.taken if not t.startswith("_")}
        return m, body

    def func(self, s, upto, m, quiet):
        r = self.rng
        inner = Scope(s)
        if r.random() < .3:
            inner.taken = set()     # shadow outer names
            inner.vars, inner.own, inner.funs = [], [], []
        kind = r.choice(["def", "def", "inline"])
        params = []
        for _ in range(r.randint(0, 2)):
            u = self.uid(inner, r.choice(["p", "q", "x"]))
            params.append([u, "int", None, "val"])
            inner.vars.append(["v", u])
        if quiet:
            body = [["result", self.rhs(inner, 1)]]
            ret = "int"
        else:
            blk = inner.frame()
            if "_o0" not in blk.taken:
                # outer names are still reachable: keep them unshadowed
                blk.taken |= {"_o0", "_o1", "_in0", "_in1"}
            body = self.stmts(blk, upto, r.randint(1, 4), 1)
            ret = "int" if r.random() < .6 else None
            if ret:
                body.append(["result", self.rhs(blk, 1)])
        uid = self.uid(s, r.choice(["f", "g", "get"]))
        fn = Fn(uid, len(params), ret)
        m.funs.append(fn)
        s.funs.append((uid, fn))
        return ["func", kind, uid, params, ret, body]

    def iface(self, s, upto):
        r = self.rng
        path = "i%d" % len(self.ifaces)
        self.ifaces.append(path)
        inner = Scope(s).frame()
        body = [self.mark()]
        body += self.stmts(inner, upto, r.randint(1, 4), 2)
        body.append(self.mark())
        return ["iface", path, body]

    def program(self):
        r = self.rng
        n = r.randint(1, 6)
        mods = {}
        for i in range(n):
            key = r.choice(["m%d", "m%d", "pkg.m%d", "pkg.deep.m%d",
                            "other.m%d"]) % i
            m, body = self.module(key, len(self.mods))
            self.mods.append(m)
            mods[key] = body
        m, body = self.module("main", len(self.mods))
        mods["main"] = body
        return {"style": r.randrange(1 << 30) if r.random() < .3 else None,
                "modules": mods}


def gen_case(rng, index):
    g = ModGen(rng)
    prog = g.program()
    events = [["main"]]
    vals = [0, 1, 2, -1, 5]
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .5:
            events.append(["if", rng.choice(g.ifaces)])
        elif k < .65:
            events.append(["in", "in%d" % rng.randrange(2),
                           rng.choice(vals)])
        elif k < .8:
            events.append(["main"])
        elif k < .86:
            events.append(["restart"])
        elif k < .93:
            events.append(["save"])
        else:
            events.append(["crash"])
    return {"prog": prog, "events": events,
            "config": simrun.random_config(rng) if rng.random() < .3 else {},
            "inputs": [rng.choice(vals) for _ in range(2)],
            "seed": rng.randrange(1 << 30)}


def run_case(case):
    out = langcase.run_case(case)
    out.count("modules", len(case["prog"]["modules"]))
    return out


shrinks = langcase.shrinks
describe = langcase.describe
