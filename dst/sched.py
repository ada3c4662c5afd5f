"""The language of lang.py extended with the schedule module."""

import math
import random

from . import geo, lang, langgen
from .lang import Discard, text_of
from .langgen import Var, Scope
from .mcworld import wrap


# nodes
#  statements  ["task", uid, target, args, kw]      const uid = Task(...)
#              ["taskgo", uid, target, args, kw, delay]  Task(...).after(d)
#              ["after", uid, e]  ["cancel", uid]
#              ["loop", uid, target, interval|None, args]
#              ["area", uid, how, spec]              on_..._loaded
#              ["runif", path]                       /function of an interface
#  expressions ["has", uid]  ["timer", uid]
#  target      "fn uid" | ["m", task uid, "after"|"cancel"]

class Renderer(lang.Renderer):
    def _e(self, x):
        if x[0] == "has":
            return "%s.has_schedule()" % text_of(x[1]), 8
        if x[0] == "timer":
            return "%s._timer" % text_of(x[1]), 8
        return super()._e(x)

    def target(self, t):
        return "%s.%s" % (text_of(t[1]), t[2]) if isinstance(t, list) \
            else text_of(t)

    @property
    def mod(self):
        return "" if self.prog.get("star") else "schedule."

    def ctor(self, x):
        a = self.args(x[3], x[4])
        return "%sTask(%s%s)" % (self.mod, self.target(x[2]),
                                 ", " + a if a else "")

    def st(self, x):
        t = x[0]
        if t == "task":
            self.w("const %s = %s" % (text_of(x[1]), self.ctor(x)))
        elif t == "taskgo":
            self.w("%s.after(%s)" % (self.ctor(x), self.e(x[5])))
        elif t == "after":
            self.w("%s.after(%s)" % (text_of(x[1]), self.e(x[2])))
        elif t == "cancel":
            self.w("%s.cancel()" % text_of(x[1]))
        elif t == "loop":
            a = [self.target(x[2])]
            if x[3] is not None:
                kwd = self.chance(.5) and not x[4]
                a.append(("interval=" if kwd else "") + self.e(x[3]))
            a += [self.e(y) for y in x[4]]
            self.w("%sregister_loop(%s)" % (self.mod, ", ".join(a)))
        elif t == "area":
            self.area(x)
        elif t == "runif":
            root = self.prog.get("root", "")
            self.w("/function %s%s" % (root + "/" if root else "", x[1]))
        else:
            super().st(x)

    def area(self, x):
        how, s = x[2], x[3]
        t = text_of(x[1])
        if how == "tickingarea":
            return self.w('%s.on_tickingarea("%s")' % (t, s["name"]))
        sh = s.get("share")
        g = geo.Text(share=None if sh is None else random.Random(sh),
                     name=self.geo_name)
        pos = g.pos(s["pos"])
        off = g.off(s["off"]) if how == "box" else None
        for line in g.lines:
            self.w(line)
        if how == "circle":
            self.w("%s.on_circle_loaded(%s, %d)" % (t, pos, s["r"]))
        else:
            self.w("%s.on_area_loaded(%s, %s)" % (t, pos, off))

    def geo_name(self):
        self.geo_names = getattr(self, "geo_names", 0) + 1
        return "_g%d" % self.geo_names


def area_needs(how, s):
    """Chunks (or the ticking area) the request waits for."""
    if how == "tickingarea":
        return [("ta", s["name"])]
    at = geo.place(s["pos"], geo.At(), None)
    x, z = (math.floor(v / 16) for v in (at.pos[0], at.pos[2]))
    if how == "circle":
        n = s["r"]
        return [(at.dim, x + i, z + j) for i in range(-n, n + 1)
                for j in range(-n, n + 1) if math.hypot(i, j) <= n]
    to = geo.off_apply(s["off"], at)
    u, v = (math.floor(q / 16) for q in (to[0], to[2]))
    return [(at.dim, i, j) for i in range(min(x, u), max(x, u) + 1)
            for j in range(min(z, v), max(z, v) + 1)]


class Interp(lang.Interp):
    def __init__(self, *a):
        super().__init__(*a)
        self.items = []
        self.tk = {}       # uid -> [node, remaining | None]
        self.lp = {}       # uid -> [node, remaining | None]
        self.areas = []
        self.chunks = {}
        self.fired = self.requests = self.area_runs = 0
        self.collect(self.prog["modules"]["main"])

    def collect(self, body):
        for s in body:
            t = s[0]
            if t in ("task", "taskgo"):
                self.items.append(s)
                self.tk[s[1]] = [s, None]
            elif t == "loop":
                self.items.append(s)
                self.lp[s[1]] = [s, None]
            elif t == "if":
                for _, b in s[1]:
                    self.collect(b)
                if s[2]:
                    self.collect(s[2])
            elif t in ("while",):
                self.collect(s[2])
            elif t == "func":
                self.collect(s[5])
            elif t == "iface":
                self.collect(s[2])
            elif t == "import" and s[1]:
                self.collect(self.prog["modules"][s[1]])

    def snapshot(self):
        s = super().snapshot()
        s["tk"] = {k: v[1] for k, v in self.tk.items()}
        s["lp"] = {k: v[1] for k, v in self.lp.items()}
        s["areas"] = list(self.areas)
        return s

    def restore(self, s):
        super().restore(s)
        for k, v in s["tk"].items():
            self.tk[k][1] = v
        for k, v in s["lp"].items():
            self.lp[k][1] = v
        self.areas = list(s["areas"])
        self.chunks = {}

    # requests
    def s_task(self, x):
        self.tk[x[1]][1] = None

    def s_taskgo(self, x):
        self.tk[x[1]][1] = None
        self.request(x[1], self.ev(x[5]))

    def request(self, uid, n):
        if n < 0:
            raise Discard("negative delay")
        self.requests += 1
        self.tk[uid][1] = n

    def s_after(self, x):
        self.request(x[1], self.ev(x[2]))

    def s_cancel(self, x):
        self.tk[x[1]][1] = None

    def s_loop(self, x):
        self.lp[x[1]][1] = 0

    def s_runif(self, x):
        if not self.ready:
            raise Discard("interface run before the end of main")
        self.block(self.ifaces[x[1]])

    def s_area(self, x):
        self.areas.append((x[1], area_needs(x[2], x[3])))

    def ev(self, e):
        if e[0] == "has":
            return self.tk[e[1]][1] is not None
        if e[0] == "timer":
            r = self.tk[e[1]][1]
            return -1 if r is None else r
        return super().ev(e)

    # time
    def go(self, x):
        self.fired += 1
        target, args = x[2], x[4] if x[0] == "loop" else x[3]
        kw = [] if x[0] == "loop" else x[4]
        if isinstance(target, list):
            if target[2] == "cancel":
                self.tk[target[1]][1] = None
            else:
                self.request(target[1], self.ev(
                    args[0] if args else kw[0][1]))
            return
        self.call(["call", target, args, kw])

    def tick(self):
        self.steps = 0
        for x in self.items:
            if x[0] == "loop":
                c = self.lp[x[1]]
                if x[3] is None or x[3] == ["i", 1]:
                    self.go(x)      # every tick
                    continue
                if c[1] is None:
                    raise Discard("loop that was not registered")
                if c[1] <= 0:
                    self.go(x)
                    c[1] = self.ev(x[3])
                c[1] = wrap(c[1] - 1)
                continue
            c = self.tk[x[1]]
            if c[1] == 0:
                c[1] = None
                self.go(x)
                if c[1] == 0:
                    c[1] = 1    # this tick's chance is used
            if c[1] is not None:
                c[1] -= 1
        ready = [a for a in self.areas
                 if all(k in self.chunks for k in a[1])]
        self.areas = [a for a in self.areas if a not in ready]
        for uid, _ in ready:
            self.steps = 0
            self.area_runs += 1
            self.go(self.tk[uid][0])
        self.tickno += 1

    def restarted(self):
        self.chunks = {}


lang.RENDERERS["sched"] = Renderer
lang.INTERPS["sched"] = Interp


def _shrink_delay(s):
    for i in range(2, len(s)):
        if isinstance(s[i], list) and s[i] and isinstance(s[i][0], str):
            for r in lang.shrink_expr(s[i]):
                yield [s[:i] + [r] + s[i + 1:]]


for _k in ("after", "taskgo", "loop"):
    lang.SHRINK_STMT[_k] = _shrink_delay


class Gen(langgen.Gen):
    """Programs around tasks and loops.  `want`: "task", "loop", "area"."""

    def __init__(self, rng, want, **kw):
        super().__init__(rng, **kw)
        self.want = want
        self.tasks = []      # (uid, scope)
        self.frozen = []
        self.selfif = []
        self.f |= {"func", "scbio", "iface"}
        self.f -= {"rand", "mathf", "randx"}
        self.nl = 0
        self.in_func_body = False
        self.made = []

    def func(self, scope, kind, pure):
        self.in_func_body = True
        try:
            return super().func(scope, kind, pure)
        finally:
            self.in_func_body = False

    # -- statements about tasks
    def stmt(self, scope, d):
        r = self.rng
        if self.in_func_body and self.selfif and not self.pure_body \
                and not self.in_const and r.random() < .12:
            return [["runif", r.choice(self.selfif)]]
        if not self.pure_body and not self.in_const and self.tasks \
                and r.random() < .3:
            s = self.sched_stmt(scope)
            if s:
                return s
        return super().stmt(scope, d)

    def tvisible(self, scope):
        out = []
        for u in self.tasks:
            n = text_of(u)
            s = scope
            while s is not self.root and s is not None \
                    and n not in s.taken:
                s = s.outer
            if s is self.root:
                out.append(u)
        return out

    def delay(self, scope):
        r = self.rng
        k = r.random()
        if k < .6:
            return ["i", r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 20])]
        if k < .66:
            return ["i", r.choice([60, 1000, 2147483647])]
        vs = [p for v, p in self.vars(scope, "int")
              if v in self.frozen or v in self.ins]
        if vs:
            p = r.choice(vs)
            if k < .8:
                return p
            return ["bin", "+", p, ["i", r.randint(0, 3)]]
        return ["i", r.choice([1, 2, 6])]

    def sched_stmt(self, scope):
        r = self.rng
        ts = self.tvisible(scope)
        if not ts:
            return None
        t = r.choice(ts)
        k = r.random()
        if "area" in self.want and r.random() < .6:
            return [self.area(t)]
        if k < .45:
            return [["after", t, self.delay(scope)]]
        if k < .57:
            return [["cancel", t]]
        if k < .72:
            b1 = [["after", t, self.delay(scope)]] if r.random() < .5 \
                else self.block(scope, 1, 0)
            c = ["has", t]
            if r.random() < .5:
                c = ["not", c]
            if r.random() < .3:
                c = [r.choice(["and", "or"]),
                     [c, self.expr(scope, "bool", 1)]]
            els = self.block(scope, 1, 0) if r.random() < .4 else None
            return [["if", [[c, b1]], els]]
        outs = [o for o in self.outs if self.ovisible(scope, o)]
        if not outs:
            return None
        o = r.choice(outs)
        if k < .85:
            e = ["int", ["has", t]]
        else:
            e = ["timer", t]
        return [["set", ["v", o.uid], e], self.mark()]

    def area(self, t):
        r = self.rng
        g = geo.GeoGen(r, far=False)
        k = r.random()
        if self.made and r.random() < .3:
            # the same place again
            n = r.choice(self.made)
            node = ["area", t, n[2], n[3]]
        elif k < .2:
            node = ["area", t, "tickingarea",
                    {"name": r.choice(["ta1", "Base", "ta2"])}]
        elif k < .45:
            node = ["area", t, "circle",
                    {"pos": g.pos(2, local=False), "r": r.choice(
                        [0, 1, 1, 2])}]
        else:
            node = ["area", t, "box", {"pos": g.pos(2, local=False),
                                       "off": g.off(local=False)}]
        if node[2] != "tickingarea" and r.random() < .5:
            node[3] = dict(node[3], share=r.randrange(1 << 30))
        self.made.append(node)
        return node

    def target(self, scope, allow_method=True):
        r = self.rng
        ts = self.tvisible(scope)
        if ts and allow_method and r.random() < .15:
            t = r.choice(ts)
            if r.random() < .3:
                return ["m", t, "cancel"], [], []
            if r.random() < .3:
                return ["m", t, "after"], [], [["delay", self.fixed(scope)]]
            return ["m", t, "after"], [self.fixed(scope)], []
        fns = self.callable(scope, lambda f: not f.pure and
                            f.kind != "const" and
                            not any(p[3] != "val" or "@" in p[1]
                                    for p in f.params))
        if not fns:
            return None
        fn = r.choice(fns)
        args = []
        for puid, ty, dflt, port in fn.params:
            args.append(self.fixedarg(scope, ty))
        n = len(args)
        while n and fn.params[n - 1][2] is not None and r.random() < .4:
            n -= 1
        pos, kw = args[:n], []
        if pos and r.random() < .4:
            i = r.randrange(len(pos))
            kw = [[text_of(fn.params[j][0]), pos[j]]
                  for j in range(i, len(pos))]
            pos = pos[:i]
        return fn.uid, pos, kw

    def fixed(self, scope):
        """A non negative integer that does not change."""
        return ["i", self.rng.choice([0, 1, 2, 5, 9])]

    def fixedarg(self, scope, ty):
        r = self.rng
        if ty == "bool":
            return ["b", r.randint(0, 1)]
        k = r.random()
        fz = [v.path for v in self.frozen]
        if fz and k < .3:
            return r.choice(fz)
        if fz and k < .4:
            return ["bin", r.choice("+-*"), r.choice(fz),
                    r.choice(fz + [["i", r.randint(1, 9)]])]
        if k < .6:
            # a variable: its value when the function starts
            vs = [v.path for v in self.root.frames[0]
                  if v.ty == "int" and v.kind == "var"
                  and not isinstance(v, tuple)]
            if vs:
                return r.choice(vs)
        return ["i", r.choice([0, 1, -1, 5, 77, 1000])]

    def newtask(self, scope):
        r = self.rng
        t = self.target(scope)
        if t is None:
            return []
        u = self.uid(scope, r.choice(["task", "t", "timer", None]))
        node = ["task", u, t[0], t[1], t[2]]
        self.tasks.append(u)
        out = [node]
        if r.random() < .5 and "task" in self.want:
            out.append(["after", u, self.delay(scope)])
        return out

    def newloop(self, scope):
        r = self.rng
        t = self.target(scope)
        if t is None or t[2]:
            return []
        self.nl += 1
        u = "loop%d@l" % self.nl
        if t[1] or r.random() < .85:
            k = r.random()
            if k < .65:
                iv = ["i", r.choice([1, 2, 2, 3, 4, 5, 7, 10, 20])]
            elif k < .75:
                iv = ["i", r.choice([0, -1, -5])]
            else:
                vs = [v.path for v in self.root.frames[0]
                      if v.ty == "int" and v.kind == "var"]
                iv = r.choice(vs)
                if r.random() < .4:
                    iv = ["bin", r.choice("+*"), iv,
                          ["i", r.randint(1, 3)]]
        else:
            iv = None
        return [["loop", u, t[0], iv, t[1]]]

    def toplevel(self, scope):
        r = self.rng
        body = [["import", None, "from schedule import Task, register_loop"
                 if self.star else "import schedule"]]
        for i in range(r.randint(0, 2)):
            v = self.newvar(scope, "int")
            v.guard = True
            v.lv = False
            self.frozen.append(v)
            body.append(["def", v.uid, "int",
                         ["i", r.choice([0, 1, 2, 3, 6, 12])], False])
        for i in range(r.randint(0, 2)):
            v = self.newvar(scope, "int")
            body.append(["def", v.uid, "int", ["i", r.randint(0, 6)],
                         False])
        if "task" in self.want and r.random() < .5:
            # an interface declared later, run by a raw command: the only
            # way for a target to reach its own task
            self.selfif.append("again")
        n = r.randint(3, self.size)
        late = []
        for i in range(n):
            k = r.random()
            if k < .25 or i == 0:
                body.append(self.func(scope, r.choice(
                    ["def", "def", "inline"]
                    if "inline" in self.f else ["def"]), False))
            elif k < .5:
                body += self.newtask(scope) if "loop" not in self.want or \
                    r.random() < .4 else self.newloop(scope)
            elif k < .6 and len(self.ifaces) < 4:
                body.append(self.iface(scope))
            elif k < .68 and self.tasks:
                t = self.target(scope, False)
                if t and "task" in self.want:
                    body.append(["taskgo", "anon%d@t" % i, t[0], t[1],
                                 t[2], self.delay(scope)])
            else:
                body += self.stmt(scope, 2)
        if not self.tasks and "task" in self.want:
            body += self.newtask(scope)
        if "loop" in self.want and not self.nl:
            body += self.newloop(scope)
        if self.tasks:
            body.append(self.iface(scope))
        if self.selfif:
            self.selfif, s = [], self.selfif
            inner = Scope(scope)
            b = [self.mark()]
            for _ in range(r.randint(1, 3) if self.tasks else 0):
                t = r.choice(self.tasks)
                b.append(r.choice([
                    ["after", t, self.delay(inner)],
                    ["after", t, ["i", r.choice([0, 1, 2])]],
                    ["cancel", t],
                    ["if", [[["has", t], [self.mark()]]],
                     [["after", t, ["i", 2]]]],
                    ["set", self.outs[0].path, ["timer", t]]]))
            b.append(self.mark())
            body.append(["iface", s[0], b])
            self.ifaces.append(s[0])
        return body

    def program(self):
        self.star = self.rng.random() < .3
        p = super().program()
        p["lang"] = "sched"
        if self.star:
            p["star"] = 1
        return p


def gen_load(rng, g):
    n = rng.choice(g.made)
    keys = [list(k) for k in area_needs(n[2], n[3])]
    k = rng.random()
    if k < .15:
        return ["unload", rng.sample(keys, min(len(keys), 2))]
    if k < .5 and len(keys) > 1:
        keys.pop(rng.randrange(len(keys)))      # all but one
    elif k < .6 and keys[0][0] != "ta":
        d = rng.choice([x for x in geo.DIMS if x != keys[0][0]])
        keys = [[d] + q[1:] for q in keys]      # in another dimension
    return ["load", keys]


def gen_events(rng, g, hi=12):
    ev = [["main"]]
    for _ in range(rng.randint(3, hi)):
        k = rng.random()
        if k < .45:
            ev.append(["tick", rng.choice([1, 1, 2, 3, 5, 8, 13, 21])])
        elif k < .72 and g.ifaces:
            ev.append(["if", rng.choice(g.ifaces)])
        elif k < .8 and g.ins:
            ev.append(["in", "in%d" % rng.randrange(len(g.ins)),
                       rng.choice([0, 0, 1, 2, 3, 4, 9])])
        elif k < .85:
            ev.append(["main"])
        elif k < .9:
            ev.append(["restart"])
        elif k < .95:
            ev.append(["save"])
        else:
            ev.append(["crash"])
        if g.made and rng.random() < .6:
            ev.append(gen_load(rng, g))
            if rng.random() < .5:
                ev.append(["tick", 1])
    if g.made:
        keys = {k for n in g.made for k in area_needs(n[2], n[3])}
        ev.append(["load", sorted(map(list, keys), key=str)])
    ev.append(["tick", rng.choice([3, 10, 25])])
    ev.append(["if", "dump/all"])
    return ev
