"""Random programs about entities and entity groups (see ents.py)."""

from . import geo, langcase
from .ents import Templates
from .lang import text_of

MOBS = ["pig", "zombie", "sheep", "creeper", "armor_stand", "spider", "bat",
        "wolf", "squid", "horse"]
WILD = ["cow", "villager", "cat"]
TAGS = ["ut0", "ut1", "x y"]
OBJS = ["sc", "kills"]
NAMES = ["Bob", "Al ice", "z", None]
LITS = [0, 1, -1, 2, 3, 5, 7, 10, -4, 100, 2147483647, -2147483648]


def constant(e):
    """May be folded by the compiler (and overflow then)."""
    if e[0] in ("i", "b"):
        return True
    if e[0] in ("int", "neg", "not"):
        return constant(e[1])
    if e[0] == "cmp":
        return constant(e[1]) and all(constant(x) for _, x in e[2])
    if e[0] in ("and", "or"):
        return all(map(constant, e[1]))
    return False


class Fam:
    """A method name: all its definitions share this."""

    def __init__(self, name, qual, params, ret, pure, level):
        self.name, self.qual, self.params = name, qual, params
        self.ret, self.pure, self.level = ret, pure, level


class Fn:
    def __init__(self, name, params, ret, pure, level):
        self.name, self.params, self.ret = name, params, ret
        self.pure, self.level = pure, level


class Env:
    def __init__(self, outer=None):
        o = outer
        self.vars = list(o.vars) if o else []    # (path, type, assignable)
        self.self = o.self if o else None        # template of `self`
        self.level = o.level if o else 1 << 30
        self.pure = o.pure if o else False
        self.inline = o.inline if o else False
        self.loop = o.loop if o else 0
        self.only = o.only if o else None        # globals hidden if set

    def add(self, path, ty, lv=True):
        self.vars.append((path, ty, lv))


PERMS = ["camera", "movement"]


class EGen:
    def __init__(self, rng, want="ents", size=10):
        self.r = rng
        self.want = want
        self.size = size
        self.T = Templates()
        self.cur = None      # template being defined: has no name yet
        self.fams = {}       # template -> {name: Fam}
        self.newpar = {}     # template -> params of its constructor
        self.mob = {}        # template -> mob its constructor makes
        self.owner = {}      # mob -> template that first used it
        self.fns = []
        self.single = []
        self.level = 0
        self.n = 0
        self.marks = 0
        self.structs = {}
        self.quals = {}
        self.ifaces = []
        self.watches = []
        self.hot = []        # what the conditions of watches depend on
        self.ins = []
        self.outs = []
        self.kills = rng.random() < .35
        self.moves = rng.random() < .5
        self.tags = rng.random() < .6
        self.guard = rng.random() < .6
        self.inl = rng.random() < .5
        self.wild = want == "groups" or rng.random() < .4
        self.share = rng.random() < .5
        self.players = rng.randint(1, 3)
        self.main = []
        # many templates below the first one
        self.family = want == "ents" and rng.random() < .3

    # -- small things
    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mark(self):
        self.marks += 1
        return ["mark", self.marks]

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def sub(self, a, b):
        return self.T.sub(a, b)

    def named(self):
        return [t for t in self.T.t if t != self.cur]

    # -- expressions without effects
    def lit(self):
        return ["i", self.pick(LITS)]

    def paths(self, env, ty, lv=False):
        return [p for p, t, a in env.vars if t == ty and (a or not lv)]

    def ents(self, env, tmpl=None, selfok=True):
        """[(expression, declared template)] of entities."""
        out = []
        for p, t, a in env.vars:
            if t.startswith("E:") and (tmpl is None
                                       or self.sub(t[2:], tmpl)):
                out.append((p, t[2:]))
        if env.self and selfok and (tmpl is None
                                    or self.sub(env.self, tmpl)):
            out.append((["self"], env.self))
            out.append((["self"], env.self))
        return out

    def fieldsof(self, env, ty):
        """Readable field paths of a type."""
        out = []
        for e, t in self.ents(env):
            for n, fty in self.T.fields(t).items():
                if fty == ty:
                    out.append(["f", e, n])
                elif "@" in fty:
                    for m, sty in self.structs[fty]:
                        if sty == ty:
                            out.append(["f", ["f", e, n], m])
        for p, t, a in env.vars:
            if "@" in t:
                for m, sty in self.structs[t]:
                    if sty == ty:
                        out.append(["f", p, m])
        return out

    def groups(self, env, tmpl=None, sup=None, lv=False):
        """Groups of a template below `tmpl` / above `sup`."""
        return [(p, t[2:]) for p, t, a in env.vars
                if t.startswith("G:") and (a or not lv)
                and (tmpl is None or self.sub(t[2:], tmpl))
                and (sup is None or self.sub(sup, t[2:]))]

    def ent(self, env, tmpl=None):
        es = self.ents(env, tmpl)
        if self.chance(.1):
            one = [(["single", p], t) for p, t in self.groups(env, tmpl)
                   if p[0] == "v" and p[1].startswith("one")]
            if one:
                return self.pick(one)
        return self.pick(es) if es else None

    def expr(self, env, ty, d=2):
        if ty == "int":
            return self.int(env, d)
        if ty == "bool":
            return self.bool(env, d)
        return None

    def int(self, env, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            k = r.random()
            if k < .5:
                fs = self.fieldsof(env, "int")
                if fs:
                    return self.pick(fs)
            if k < .62:
                gs = self.groups(env)
                gs += [(p, "") for p, t, a in env.vars if t == "X"]
                if gs:
                    return ["gsize", self.pick(gs)[0]]
            if k < .85:
                vs = self.paths(env, "int")
                if vs:
                    return self.pick(vs)
            return self.lit()
        if k < .8:
            op = self.pick("+-*+-")
            a, b = self.int(env, d - 1), self.int(env, d - 1)
            if constant(a) and constant(b):
                return a
            return ["bin", op, a, b]
        if k < .85:
            return ["int", self.bool(env, d - 1)]
        if k < .87:
            a = self.int(env, d - 1)
            return a if constant(a) else ["neg", a]
        c = self.purecall(env, "int")
        return c if c else self.int(env, d - 1)

    def bool(self, env, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .3:
            k = r.random()
            vs = self.paths(env, "bool") + self.fieldsof(env, "bool")
            if vs and k < .4:
                return self.pick(vs)
            gs = self.groups(env)
            if gs and k < .75:
                g, t = self.pick(gs)
                if self.chance(.5):
                    return ["gempty", g]
                e = self.ent(env, t)
                if e:
                    return ["ghas", g, e[0]]
            if k < .9:
                e = self.ent(env)
                if e and not env.pure:
                    return ["isent", e[0], self.filt(env, small=True)]
            return ["b", r.randint(0, 1)]
        if k < .65:
            a, b = self.int(env, d - 1), self.int(env, d - 1)
            return ["cmp", a, [[self.pick(["<", "<=", ">", ">=", "==",
                                           "!="]), b]]]
        if k < .75:
            return ["not", self.bool(env, d - 1)]
        if k < .9:
            return [self.pick(["and", "or"]),
                    [self.bool(env, d - 1), self.bool(env, d - 1)]]
        c = self.purecall(env, "bool")
        return c if c else self.bool(env, d - 1)

    # -- calls
    def callables(self, env, ret=None, pure=None):
        """[(kind, thing...)]"""
        out = []
        for f in self.fns:
            if f.level < env.level and (ret is None or f.ret == ret) \
                    and (pure is None or f.pure == pure):
                out.append(("fn", f))
        for e, t in self.ents(env):
            for f in self.fams.get(t, {}).values():
                if f.level < env.level and (ret is None or f.ret == ret) \
                        and (pure is None or f.pure == pure):
                    out.append(("m", e, t, f))
        for t, fs in self.fams.items():
            for f in fs.values() if t != self.cur else ():
                if f.qual == "static" and f.level < env.level and \
                        (ret is None or f.ret == ret) \
                        and (pure is None or f.pure == pure):
                    out.append(("s", t, f))
        return out

    def value(self, env, ty, d=1):
        """An expression without effects of any type, or None."""
        if ty in ("int", "bool"):
            return self.expr(env, ty, d)
        if ty.startswith("E:"):
            e = self.ent(env, ty[2:])
            return e[0] if e else None
        if ty.startswith("G:"):
            g = self.groups(env, ty[2:])
            if not g:
                return None
            p = self.pick(g)[0]
            return ["gcopy", p] if self.chance(.2) else p
        return None

    def arglist(self, env, params, exact):
        args = []
        for puid, ty, dflt, port in params:
            if exact and ty.startswith("G:"):
                # inline code sees the type of the argument
                g = [p for p, t in self.groups(env, ty[2:]) if t == ty[2:]]
                v = self.pick(g) if g else None
            else:
                v = self.value(env, ty)
            if v is None:
                return None
            args.append(v)
        n = len(args)
        while n and params[n - 1][2] is not None and self.chance(.4):
            n -= 1
        args = args[:n]
        kw = []
        if args and self.chance(.3):
            i = self.r.randrange(len(args))
            kw = [[text_of(params[j][0]), args[j]]
                  for j in range(i, len(args))]
            self.r.shuffle(kw)
            args = args[:i]
        return args, kw

    def mkcall(self, env, c):
        a = self.arglist(env, c[-1].params, self.inl)
        if a is None:
            return None
        if c[0] == "fn":
            return ["call", c[1].name, a[0], a[1]]
        if c[0] == "s":
            return ["smcall", c[1], c[2].name, a[0], a[1]]
        _, e, t, f = c
        if f.qual != "static" and self.chance(.15):
            ups = [u for u in self.T.mro(t)
                   if f.name in self.fams[u] and u != self.cur]
            if ups:
                return ["ucall", e, self.pick(ups), f.name, a[0], a[1]]
        return ["mcall", e, f.name, a[0], a[1], t]

    def purecall(self, env, ret):
        cs = self.callables(env, ret, True)
        return self.mkcall(env, self.pick(cs)) if cs else None

    def anycall(self, env, ret=None):
        cs = self.callables(env, ret)
        if env.pure:
            cs = [c for c in cs if c[-1].pure]
        for _ in range(3):
            if cs:
                c = self.mkcall(env, self.pick(cs))
                if c:
                    return c

    def newent(self, env, tmpl, exact=False):
        """Creation of an entity of `tmpl` or below."""
        ts = [t for t in self.named() if self.sub(t, tmpl)]
        t = tmpl if exact else self.pick(ts)
        if self.newlevel(t) >= env.level:
            return None
        kw = []
        for puid, ty, dflt, port in self.newpar[t]:
            if dflt is not None and self.chance(.4):
                continue
            v = self.value(env, ty)
            if v is None:
                return None
            kw.append([puid, v])
        self.r.shuffle(kw)
        return ["enew", t, kw]

    def newlevel(self, t):
        return self.nlevel[self.T.new(t)[0]]

    nlevel = None
    perms = True

    # -- filters
    def geo(self, env, dims=False):
        refs = [e for e, t in self.ents(env)] if env else []
        g = geo.GeoGen(self.r, refs=refs, dims=dims, wide=12, far=False)
        return g.pos(maxops=2)

    def kinds(self):
        return WILD + list(self.owner) + ["player"]

    def filt(self, env, small=False, types=None):
        """`types`: only entities of these kinds may be selected."""
        r = self.r
        f = []
        typed = None
        n = r.choice([0, 1, 1, 2] if small else [1, 1, 2, 2, 3, 4, 5])
        if types is not None:
            typed = self.pick(types)
            f.append(["is_type", [typed]])
        names = 0
        if typed is None and self.chance(.07):
            # several conditions that only players have
            typed = "player"
            f += [self.of_player() for _ in range(r.choice([2, 2, 3, 4]))]
        for _ in range(n):
            k = r.random()
            if k < .15:
                f.append([self.pick(["has_tag", "has_no_tag"]),
                          r.sample(TAGS, r.choice([1, 1, 2]))])
            elif k < .27 and typed is None:
                typed = self.pick(self.kinds())
                f.append(["is_type", [typed]])
            elif k < .33:
                f.append(["is_not_type",
                          r.sample(self.kinds(), r.choice([1, 2]))])
            elif k < .4:
                f.append(["is_name", [self.pick(["Bob", "Al ice", "z"])]])
            elif k < .45:
                f.append(["is_not_name",
                          r.sample(["Bob", "Al ice", "z"], 2)])
            elif k < .6:
                lo = self.pick([None, None, 1.3, 3.3, 6.1])
                hi = self.pick([None, 4.3, 8.7, 12.7, 20.3])
                if lo is None and hi is None:
                    hi = 9.7
                f.append(["distance_from", self.geo(env, True), lo, hi])
            elif k < .68:
                f.append(["inside", self.geo(env, True)] + [
                    self.pick([None, 5.25, -6.25, 12.1, 3.6])
                    for _ in range(3)])
            elif k < .76:
                f.append(["scores", self.pick(OBJS), self.pick(
                    [0, 3, "0..", "..3", "1..5", "!3", "!2..4", "-2..2",
                     " 3 .. 10", "!0.."])])
            elif k < .84 and not small:
                f.append([self.pick(["nearest_from", "farthest_from"]),
                          self.geo(env), self.pick([1, 1, 2, 3])])
            elif k < .91 and not small:
                f.append(["random", None if typed and self.chance(.6)
                          else typed or self.pick(self.kinds()),
                          self.pick([1, 1, 2, 3])])
                typed = f[-1][1] or typed
            elif k < .94:
                lo, hi = sorted(r.sample([-80.5, -30.5, 0.5, 29.5, 60.5], 2))
                f.append([self.pick(["rot_vertical", "rot_horizontal"]),
                          self.pick([None, lo]), hi])
            elif typed in (None, "player"):
                f.append(self.of_player())
                typed = "player"
            else:
                f.append(["has_item", self.pick(["apple", "stick"])] +
                         self.pick([[], ["2.."], [1], ["0"],
                                    ["1..", 0, "slot.hotbar"],
                                    ["..3", None, "slot.hotbar", "0..3"]]))
        return f

    def of_player(self):
        r = self.r
        k = r.random()
        if k < .15:
            return ["all_players"]
        if k < .35:
            return ["level"] + self.pick([[1, None], [None, 3], [1, 4]])
        if k < .65 and self.perms:
            return [self.pick(["has_permission", "has_no_permission"]),
                    r.sample(PERMS, r.choice([1, 1, 2]))]
        if k < .82:
            return ["is_game_mode", [self.pick(["survival", "creative"])]]
        return ["is_not_game_mode",
                r.sample(["survival", "creative", "adventure"],
                         r.choice([1, 1, 2]))]

    # -- statements
    def block(self, env, n, d):
        env = Env(env)
        out = []
        for _ in range(n):
            out += self.stmt(env, d) or []
        return out or [["pass"]]

    def out(self, env):
        return self.pick(self.outs)

    def stmt(self, env, d):
        if env.pure:
            return self.pure_stmt(env)
        r = self.r
        for _ in range(6):
            k = r.random()
            if self.want == "groups":
                k = r.choice([k, .45 + r.random() * .25])
            if k < .14:
                s = self.s_observe(env)
            elif k < .24:
                s = self.s_setfield(env)
            elif k < .30:
                s = self.s_setvar(env)
            elif k < .45:
                s = self.s_setent(env)
            elif k < .62:
                s = self.s_gop(env)
            elif k < .70:
                s = self.s_forg(env, d)
            elif k < .80:
                s = self.s_call(env)
            elif k < .87:
                s = self.s_toggle(env) if self.chance(.25) \
                    else self.s_if(env, d)
            elif k < .93:
                s = self.s_local(env)
            else:
                s = self.s_world(env)
            if s:
                return s
        return [["set", self.out(env), self.int(env, 1)], self.mark()]

    def pure_stmt(self, env):
        k = self.r.random()
        if k < .4:
            u = self.uid("l")
            s = [["def", u, "int", self.int(env, 2), False]]
            env.add(["v", u], "int")
            return s
        vs = [p for p in self.paths(env, "int", True)
              if p[0] == "v" and p[1].startswith("l")]
        if vs and k < .8:
            p = self.pick(vs)
            return [["aug", p, self.pick("+-*"), self.int(env, 1)]]
        if vs:
            p = self.pick(vs)
            return [["if", [[self.bool(env, 1),
                             [["set", p, self.int(env, 1)]]]], None]]
        return [["pass"]]

    def s_observe(self, env):
        o = self.out(env)
        if self.chance(.3):
            return [["set", o, ["int", self.bool(env, 2)]], self.mark()]
        fs = self.fieldsof(env, "int")
        if fs and self.chance(.5):
            return [["set", o, self.pick(fs)], self.mark()]
        return [["set", o, self.int(env, 2)], self.mark()]

    def guarded(self, env, e, s):
        """Only if the entity exists."""
        if self.kills and self.guard and self.chance(.7):
            return [["if", [[["isent", e, []], s]], None]]
        return s

    def s_setfield(self, env):
        ty = self.pick(["int", "int", "bool"])
        fs = [f for f in self.fieldsof(env, ty)
              if not (f[2].startswith("id"))]
        if not fs:
            return
        f = self.pick(fs)
        if ty == "int" and self.chance(.4):
            return [["aug", f, self.pick("+-*"), self.int(env, 1)]]
        if ty == "int" and len(fs) > 1 and self.chance(.1):
            g = self.pick(fs)
            return [["swap", f, g]]
        e = None
        if self.chance(.15):
            e = self.anycall(env, ty)
        return [["set", f, e or self.expr(env, ty, 2)]]

    def s_setvar(self, env):
        ty = self.pick(["int", "int", "bool"])
        vs = self.paths(env, ty, True)
        if not vs:
            return
        p = self.pick(vs)
        e = self.anycall(env, ty) if self.chance(.35) else None
        return [["set", p, e or self.expr(env, ty, 2)]]

    def entvars(self, env):
        if env.inline:
            return [(p, t) for p, t, a in env.vars if a
                    and t.startswith("E:") and p[0] == "v"
                    and p[1].startswith("le")]
        return [(p, t) for p, t, a in env.vars if a and t.startswith("E:")]

    def s_setent(self, env):
        vs = self.entvars(env)
        if not vs:
            return
        p, t = self.pick(vs)
        t = t[2:]
        k = self.r.random()
        if k < .35 and env.loop == 0:
            e = self.newent(env, t)
        elif k < .5:
            e = self.anycall(env, "E:" + t)
        elif k < .65:
            same = [x for x, u in vs if u == "E:" + t and x != p]
            if not same:
                return
            return [["swap", p, self.pick(same)]]
        else:
            e = self.ent(env, t)
            e = e and e[0]
        if e is None:
            return
        return [["set", p, e]]

    def s_gop(self, env):
        gs = [(p, t) for p, t, a in env.vars if a
              and (t.startswith("G:") or t == "X") and
              not (env.inline and not p[1].startswith("lg"))]
        if not gs:
            return
        p, t = self.pick(gs)
        if self.chance(.12) and t != "X":
            # assignment
            src = [q for q, u in self.groups(env, t[2:]) if q != p]
            c = self.anycall(env, t) if self.chance(.4) else None
            if c:
                return [["set", p, c]]
            if src:
                s = self.pick(src)
                return [["set", p, ["gcopy", s] if self.chance(.4) else s]]
        if self.chance(.06):
            same = [q for q, u, a in env.vars if a and u == t and q != p]
            if same:
                return [["swap", p, self.pick(same)]]
        if p[0] == "v" and p[1].startswith("one"):
            e = self.ent(env, t[2:])
            if e is None:
                return
            return [["gop", p, [["clear", None], ["add", [e[0]]]]]]
        ops = []
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            o = self.gop1(env, p, t)
            if o:
                ops.append(o)
        if not ops:
            return
        if self.chance(.25):
            return self.chained(env, p, t, ops)
        if len(ops) == 1 and ops[0][0] in ("extend", "subtract") and \
                self.chance(.4):
            ops[0][0] = {"extend": "+=", "subtract": "-="}[ops[0][0]]
        return [["gop", p, ops, self.r.randrange(1 << 30)
                 if self.share and self.chance(.4) else None]]

    def chained(self, env, p, t, ops):
        """The result of operations on a group or a copy of it."""
        c = ["gchain", p if self.chance(.25) else ["gcopy", p], ops]
        k = self.r.random()
        if t != "X":
            dst = [q for q, u, a in env.vars if a and u == t and q != p and
                   not (env.inline and not q[1].startswith("lg"))
                   and not q[1].startswith("one")]
            if dst and k < .3:
                return [["set", self.pick(dst), c]]
            if k < .45:
                u = self.uid("lg")
                s = [["def", u, t, c, False]]
                env.add(["v", u], t)
                return s
        if k < .75:
            ty, e = "int", ["gsize", c]
        else:
            x = self.ent(env, t[2:]) if t != "X" else None
            ty, e = "bool", ["ghas", c, x[0]] if x and k < .87 \
                else ["gempty", c]
        dst = self.paths(env, ty, True)
        if not dst:
            return
        return [["set", self.pick(dst), e]]

    def gop1(self, env, p, t):
        k = self.r.random()
        if t == "X":
            if k < .5:
                return ["select", self.filt(env)]
            if k < .65:
                return ["filter", self.filt(env)]
            if k < .8:
                return ["drop", self.filt(env)]
            if k < .85:
                return ["clear", None]
            xs = [q for q, u, a in env.vars if u == "X"]
            ls = [q for q, u, a in env.vars if u == "EX"]
            if ls and k < .93:
                return [self.pick(["add", "remove"]), [self.pick(ls)]]
            return [self.pick(["extend", "subtract", "intersect"]),
                    self.pick(xs)]
        t = t[2:]
        if k < .3:
            es = [self.ent(env, t) for _ in range(self.pick([1, 1, 2, 3]))]
            es = [e[0] for e in es if e]
            return ["add", es] if es else None
        if k < .42:
            es = [self.ent(env, t) for _ in range(self.pick([1, 1, 2]))]
            es = [e[0] for e in es if e]
            return ["remove", es] if es else None
        if k < .46:
            return ["clear", None]
        if k < .7:
            src = self.groups(env, t)
            if not src:
                return
            return [self.pick(["extend", "extend", "subtract",
                               "intersect"]), self.pick(src)[0]]
        if k < .82:
            kinds = [m for m, o in self.owner.items() if self.sub(o, t)]
            if kinds:
                return ["select", self.filt(env, types=kinds)]
            return
        if k < .92:
            return ["filter", self.filt(env)]
        return ["drop", self.filt(env)]

    def s_forg(self, env, d):
        if d <= 0 or env.loop >= 2:
            return
        gs = [(p, "E:" + t) for p, t in self.groups(env)]
        gs += [(p, "EX") for p, t, a in env.vars if t == "X"]
        if not gs:
            return
        g, ty = self.pick(gs)
        u = self.uid("it")
        inner = Env(env)
        inner.loop += 1
        inner.add(["v", u], ty, False)
        b = []
        f = [x for x in self.single if x[1] < env.level]
        if f and self.chance(.5):
            f = self.pick(f)
            self.single.remove(f)
            return [["forg", u, g, [["expr", ["call", f[0], [], []]]]],
                    self.mark()]
        if ty != "EX" and self.chance(.5):
            fs = [n for n, t in self.T.fields(ty[2:]).items() if t == "int"]
            if fs:
                f = ["f", ["v", u], self.pick(fs)]
                o = self.out(env)
                b.append(["set", o, ["bin", "+", ["bin", "*", o, ["i", 3]],
                                     f]] if self.chance(.5)
                         else ["aug", o, "+", f])
        elif self.chance(.4):
            b.append(["aug", self.out(env), "+", ["i", 1]])
        b += self.block(inner, self.pick([1, 1, 2]), d - 1)
        s = [["forg", u, g, b]]
        if self.chance(.6):
            s.append(self.mark())
        return s

    def s_call(self, env):
        return self.callstmt(env, self.anycall(env))

    def callstmt(self, env, c):
        if c is None:
            return
        ret = None
        if c[0] == "call":
            ret = [f.ret for f in self.fns if f.name == c[1]][0]
        else:
            t = c[1] if c[0] == "smcall" else c[5] if c[0] == "mcall" \
                else c[2]
            name = c[3] if c[0] == "ucall" else c[2]
            ret = self.fams[t][name].ret
        if ret == "int" and self.chance(.7):
            return [["set", self.out(env), c], self.mark()]
        if ret == "bool" and self.chance(.5):
            return [["if", [[c, [self.mark()]]], [self.mark()]]]
        return [["expr", c]]

    def s_if(self, env, d):
        if d <= 0:
            return
        c = self.bool(env, 2)
        if self.chance(.4):
            fs = self.fieldsof(env, "int")
            if fs:
                c = ["cmp", self.pick(fs), [[self.pick(
                    ["<", ">", "==", "!="]), self.int(env, 0)]]]
        b = self.block(env, self.pick([1, 2, 2]), d - 1)
        els = self.block(env, 1, d - 1) if self.chance(.4) else None
        return [["if", [[c, b]], els]]

    def s_toggle(self, env):
        """A condition about a group or an entity whose consequences may
        make it false: they happen all the same."""
        gs = [(p, t[2:]) for p, t, a in env.vars
              if a and t.startswith("G:") and not p[1].startswith("one")
              and not (env.inline and not p[1].startswith("lg"))]
        if not gs:
            return
        p, t = self.pick(gs)
        e = self.ent(env, t)
        k = self.r.random()
        grow = []
        if e:
            grow.append(["add", [e[0]]])
        src = [q for q, u in self.groups(env, t) if q != p]
        if src:
            grow.append(["extend", self.pick(src)])
        if k < .4 and grow:
            c, op = ["gempty", p], self.pick(grow)
        elif k < .6 and e:
            c, op = ["ghas", p, e[0]], ["remove", [e[0]]]
        elif k < .7 and e:
            c, op = ["not", ["ghas", p, e[0]]], ["add", [e[0]]]
        else:
            c, op = ["not", ["gempty", p]], ["clear", None]
        b = [["gop", p, [op], None],
             ["aug", self.out(env), "+", self.lit()]]
        if self.chance(.6):
            b.append(self.mark())
        if self.chance(.2):
            self.r.shuffle(b)
        els = [["aug", self.out(env), "-", ["i", 1]],
               self.mark()] if self.chance(.3) else None
        return [["if", [[c, b]], els]]

    def once(self, genv):
        """A function that is going to be called from one place only."""
        env = Env(genv)
        env.level = self.level
        name = self.uid("fo")
        b = self.body(env, None, False, 1)
        b += [["aug", self.out(env), "+", self.lit()], self.mark()]
        self.single.append((name, self.level))
        self.level += 1
        return [["func", "def", name, [], None, b]]

    def s_local(self, env):
        k = self.r.random()
        if k < .35:
            u = self.uid("l")
            s = [["def", u, "int", self.int(env, 2), self.chance(.3)]]
            env.add(["v", u], "int")
            return s
        if k < .75:
            ts = self.named()
            if not ts:
                return
            t = self.pick(ts)
            k = self.r.random()
            e = None
            if k < .4 and env.loop == 0:
                e = self.newent(env, t)
            elif k < .5:
                e = self.anycall(env, "E:" + t)
            if e is None:
                x = self.ent(env, t)
                e = x and x[0]
            if e is None:
                return
            u = self.uid("le")
            # inline code may infer the template of the argument
            typed = (self.chance(.6) or env.inline or
                     e[0] not in ("enew", "v", "single"))
            if not typed:
                t = self.static(env, e) or t
            s = [["def", u, "E:" + t, e, typed]]
            env.add(["v", u], "E:" + t)
            return s
        ts = self.named()
        if not ts:
            return
        t = self.pick(ts)
        u = self.uid("lg")
        src = [p for p, v in self.groups(env) if v == t]
        if src and self.chance(.5):
            e = self.pick(src)
            if self.chance(.5):
                e = ["gcopy", e]
        else:
            e = ["gnew", t]
        s = [["def", u, "G:" + t, e, False]]
        env.add(["v", u], "G:" + t)
        return s

    def static(self, env, e):
        """The declared template of an entity expression."""
        if e[0] == "enew":
            return e[1]
        if e[0] == "self":
            return env.self
        for p, t, a in env.vars:
            if p == e and t.startswith("E:"):
                return t[2:]
        if e[0] == "single":
            for p, t, a in env.vars:
                if p == e[1]:
                    return t[2:]
        if e[0] == "call":
            return [f.ret for f in self.fns if f.name == e[1]][0][2:]
        if e[0] in ("mcall", "smcall", "ucall"):
            t = {"mcall": 5, "smcall": 1, "ucall": 2}[e[0]]
            name = e[3] if e[0] == "ucall" else e[2]
            return self.fams[e[t]][name].ret[2:]

    def s_world(self, env):
        k = self.r.random()
        e = self.ent(env)
        ex = [p for p, t, a in env.vars if t == "EX"]
        if ex and (e is None or self.chance(.5)):
            e = (self.pick(ex), None)
        if e is None:
            return
        e = e[0]
        if k < .3 and self.kills:
            return [["wkill", e]]
        if k < .6 and self.tags:
            return [["wtag", e, self.pick(TAGS), self.r.randint(0, 1)]]
        if self.moves:
            return [["wtp", e, self.geo(env)]]

    # -- declarations
    def params(self, n, pure=False):
        out = []
        dflt = False
        for _ in range(n):
            k = self.r.random()
            ts = self.named()
            if k < .6 or not ts or dflt:
                ty = self.pick(["int", "int", "bool"])
                dflt = dflt or self.chance(.25)
                d = None
                if dflt:
                    d = self.lit() if ty == "int" else ["b", 1]
                out.append([self.uid("p"), ty, d, "val"])
            elif k < .9:
                out.append([self.uid("pe"), "E:" + self.pick(ts), None,
                            "val"])
            elif not pure:
                out.append([self.uid("pg"), "G:" + self.pick(ts), None,
                            "val"])
        return out

    def body(self, env, ret, pure, n=None):
        r = self.r
        env = Env(env)
        b = []
        for _ in range(r.choice([1, 2, 3]) if n is None else n):
            b += self.stmt(env, 2) or []
        if ret == "int":
            b.append(["result", self.int(env, 2)])
        elif ret == "bool":
            b.append(["result", self.bool(env, 2)])
        elif ret and ret.startswith("E:"):
            es = self.ents(env, ret[2:])
            e = self.newent(env, ret[2:]) if not pure and (
                not es or self.chance(.3)) else None
            if e is None:
                if not es:
                    return None
                e = self.pick(es)[0]
            b.append(["result", e])
        elif ret and ret.startswith("G:"):
            v = self.value(env, ret)
            b.append(["result", v or ["gnew", ret[2:]]])
        return b or [["pass"]]

    def ret(self, virtual=False):
        k = self.r.random()
        ts = self.named()
        if k < .35:
            return None
        if k < .65:
            return "int"
        if k < .75:
            return "bool"
        if k < .92 and ts:
            return "E:" + self.pick(ts)
        if ts:
            return "G:" + self.pick(ts)
        return "int"

    def func(self, genv):
        r = self.r
        pure = self.chance(.3)
        ret = self.ret() if not pure else self.pick(["int", "bool"])
        ps = self.params(r.choice([0, 1, 2, 2]), pure)
        env = Env(genv)
        env.level = self.level
        env.pure = pure
        kind = "inline" if self.inl and self.chance(.3) else "def"
        env.inline = kind == "inline"
        for puid, ty, d, port in ps:
            env.add(["v", puid], ty, ty in ("int", "bool")
                    and kind != "inline")
        name = self.uid("fn")
        b = self.body(env, ret, pure)
        if b is None:
            return []
        self.fns.append(Fn(name, ps, ret, pure, self.level))
        self.level += 1
        return [["func", kind, name, ps, ret, b]]

    def struct(self):
        u = "S%d@s" % len(self.structs)
        self.structs[u] = [[self.uid("sf"), self.pick(
            ["int", "int", "bool"])] for _ in range(self.r.randint(1, 3))]
        return [["struct", u, self.structs[u], []]]

    def choose_parents(self):
        r = self.r
        ts = self.named()
        if ts and self.family and self.chance(.65):
            return [ts[0]]
        if not ts or self.chance(.25):
            return []
        for _ in range(5):
            ps = r.sample(ts, min(len(ts), r.choice([1, 1, 1, 2, 2, 3])))
            try:
                type("probe", tuple(self.T.cls[p] for p in ps), {})
            except TypeError:
                continue
            seen = []
            for p in ps:
                seen += list(self.T.fields(p))
            if len(seen) != len(set(seen)):
                continue
            return ps
        return [self.pick(ts)]

    def tmpl(self, genv):
        r = self.r
        name = "T%d" % len(self.T.t)
        parents = self.choose_parents()
        root = not parents
        bare = root and self.chance(.3)
        fields = []
        if root and not bare:
            fields.append([self.uid("id"), "int"])
        for _ in range(0 if bare else r.choice([0, 1, 1, 2])):
            k = r.random()
            ty = "int" if k < .65 else "bool" if k < .85 or \
                not self.structs else self.pick(list(self.structs))
            fields.append([self.uid("x"), ty])
        # what is inherited
        inh = {}
        node = ["tmpl", name, parents, fields, [], None]
        probe = Templates()
        probe.t, probe.cls = dict(self.T.t), dict(self.T.cls)
        probe.add(node)
        for t in reversed(probe.mro(name)[1:]):
            inh.update(self.fams[t])
        self.T.add(node)
        self.cur = name
        fams = self.fams[name] = dict(inh)
        # constructor
        allf = self.T.fields(name)
        pnew = None
        if parents:
            owner = self.T.mro(name)[1]
            pnew = owner
        single = parents and (set(allf) == set(self.T.fields(pnew)))
        if not (single and self.chance(.5)):
            node[5] = self.newdef(genv, name, allf, pnew, fields)
        else:
            self.newpar[name] = self.newpar[pnew]
            self.mob[name] = self.mob[pnew]
        # methods
        todo = []
        for f in inh.values():
            if self.chance(.25 if self.family else .45):
                todo.append((f, "override" if f.qual == "virtual"
                             else f.qual))
        for _ in range(r.choice([0, 1, 2, 2])):
            qual = self.pick(["virtual", "virtual", "virtual", "", "",
                              "static"])
            pure = self.chance(.3)
            ret = self.pick(["int", "bool"]) if pure else self.ret()
            if ret and ret[:2] == "G:":
                ret = "int"
            f = Fam(self.uid("m"), qual, self.params(
                r.choice([0, 1, 1, 2]), pure), ret, pure, self.level)
            self.level += 1
            todo.append((f, qual))
        for f, qual in todo:
            m = self.method(genv, name, f, qual)
            if m is None:
                continue
            self.quals[f.name] = f.qual
            fams[f.name] = f
            node[4].append([qual, m])
        self.cur = None
        return [node]

    def method(self, genv, tmpl, f, qual):
        env = Env(genv)
        env.level = f.level
        env.pure = f.pure
        kind = "inline" if self.inl and self.chance(.35) else "def"
        env.inline = kind == "inline"
        if f.qual != "static":
            env.self = tmpl
        for puid, ty, d, port in f.params:
            env.add(["v", puid], ty, ty in ("int", "bool")
                    and kind != "inline")
        b = []
        one = [x for x in self.single if x[1] < f.level]
        if one and not f.params and f.ret is None and self.chance(.6):
            one = self.pick(one)
            self.single.remove(one)
            if self.inl and f.qual == "virtual" and self.chance(.7):
                kind = "inline"
            return ["func", kind, tmpl + "." + f.name, f.params, f.ret,
                    [["expr", ["call", one[0], [], []]]]]
        # a super call
        if f.qual == "virtual" and qual == "override" and self.chance(.4):
            ups = [u for u in self.T.mro(tmpl)[1:] if f.name in self.fams[u]]
            if ups:
                c = ["ucall", ["self"], self.pick(ups), f.name,
                     [["v", p[0]] for p in f.params], []]
                if f.pure:
                    u = self.uid("l")
                    if f.ret == "int":
                        b.append(["def", u, "int", c, False])
                        env.add(["v", u], "int")
                else:
                    b.append(["expr", c])
        rest = self.body(env, f.ret, f.pure)
        if rest is None:
            return None
        return ["func", kind, tmpl + "." + f.name, f.params, f.ret, b + rest]

    def newdef(self, genv, name, allf, pnew, own):
        r = self.r
        ps = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ps.append([self.uid("p"), "int", None, "val"])
        if ps and self.chance(.4):
            ps[-1][2] = self.lit()
        kind = "inline" if self.inl and self.chance(.3) else "def"
        env = Env(genv)
        env.level = self.level
        env.inline = kind == "inline"
        env.vars = [(p, t, a) for p, t, a in env.vars
                    if not t.startswith("E:")]
        for p in ps:
            env.add(["v", p[0]], "int", kind != "inline")
        b = []
        if self.chance(.2):
            u = self.uid("l")
            b.append(["def", u, "int", self.int(env, 1), False])
            env.add(["v", u], "int")
        done = {}
        if pnew is not None and self.chance(.6):
            kw = []
            for puid, ty, dflt, port in self.newpar[pnew]:
                if dflt is None or self.chance(.5):
                    kw.append([puid, self.int(env, 1)])
            b.append(["newcall", pnew, kw])
            done = self.T.fields(pnew)
            self.mob[name] = self.mob[pnew]
        else:
            if pnew is not None and self.chance(.6):
                mob = self.mob[pnew]
            else:
                free = [m for m in MOBS if m not in self.owner]
                mob = free[0] if free else None
                if mob is None:
                    mob = self.mob[pnew] if pnew else MOBS[0]
                self.owner.setdefault(mob, name)
            self.mob[name] = mob

            def call():
                return ["newcall", None, {
                    "type": mob, "pos": self.geo(None),
                    "name": self.pick(NAMES + [None] * 4),
                    "event": self.pick([None, None, None, "spawn_baby"])}]
            if kind == "def" and self.chance(.15):
                b.append(["if", [[self.bool(env, 1), [call()]]], [call()]])
            else:
                b.append(call())
        env.self = name
        for n, ty in allf.items():
            if n in done:
                continue
            if n.startswith("id"):
                b.append(["aug", ["v", "cnt"], "+", ["i", 1]])
                b.append(["set", ["f", ["self"], n], ["v", "cnt"]])
            elif "@" in ty:
                for m, sty in self.structs[ty]:
                    b.append(["set", ["f", ["f", ["self"], n], m],
                              self.lit() if sty == "int" else
                              ["b", r.randint(0, 1)]])
            else:
                src = [["v", p[0]] for p in ps] if ty == "int" else []
                b.append(["set", ["f", ["self"], n],
                          self.pick(src) if src and self.chance(.6)
                          else self.lit() if ty == "int"
                          else ["b", r.randint(0, 1)]])
        if self.chance(.2):
            b += self.stmt(env, 1) or []
        self.newpar[name] = ps
        self.nlevel[name] = self.level
        self.level += 1
        return [kind, ps, b]

    # -- program
    def gdecl(self, genv):
        """A global variable of an entity or group type."""
        ts = self.named()
        t = self.pick(ts)
        k = self.r.random()
        if k < .55:
            e = self.newent(genv, t)
            if e is None:
                return []
            u = self.uid("e")
            typed = self.chance(.6)
            if not typed:
                t = e[1]
            s = [["def", u, "E:" + t, e, typed]]
            genv.add(["v", u], "E:" + t)
            self.globs.append((u, "E:" + t))
            return s
        u = self.uid("one" if self.chance(.15) else "g")
        s = [["def", u, "G:" + t, ["gnew", t], self.chance(.3)]]
        genv.add(["v", u], "G:" + t)
        self.globs.append((u, "G:" + t))
        return s

    def roll(self, genv):
        """One variable takes entities of several templates in turn and a
        virtual method is called on each."""
        c = [(t, f) for t in self.named() for f in self.fams[t].values()
             if f.qual == "virtual"
             and sum(self.sub(d, t) for d in self.named()) > 2]
        if not c:
            return []
        t, f = self.pick(c)
        ds = [d for d in self.named() if self.sub(d, t)]
        self.r.shuffle(ds)
        u = self.uid("e")
        out = []
        for d in ds[:self.r.choice([2, 3, 4])]:
            e = self.newent(genv, d, True)
            if e is None:
                continue
            if out:
                out.append(["set", ["v", u], e])
            else:
                out.append(["def", u, "E:" + t, e, True])
                genv.add(["v", u], "E:" + t)
                self.globs.append((u, "E:" + t))
            c = self.mkcall(genv, ("m", ["v", u], t, f))
            if c:
                out += self.callstmt(genv, c) or []
                out.append(self.mark())
        return out

    def iface(self, genv, name=None):
        n = name or "if%d" % len(self.ifaces)
        env = Env(genv)
        b = self.block(env, self.r.randint(1, 4), 2)
        self.ifaces.append(n)
        return [["iface", n, b + [self.mark()]]]

    def xgroups(self, genv):
        out = []
        for _ in range(self.pick([1, 2, 3]) if self.want == "groups"
                       else 1):
            u = self.uid("xg")
            out.append(["def", u, "X", ["xnew"], False])
            genv.add(["v", u], "X")
            self.globs.append((u, "X"))
        return out

    def watch(self, genv):
        """The same selection made again and again, while the world
        changes."""
        r = self.r
        xs = [["v", u] for u, ty in self.globs if ty == "X"]
        x, y = self.pick(xs), self.pick(xs)

        def cond():
            k = r.random()
            if k < .45:
                c = [self.pick(["has_tag", "has_no_tag"]),
                     r.sample(TAGS, r.choice([1, 1, 1, 2]))]
                self.hot.append(["tag", c[1][0]])
                return c
            if k < .8:
                c = ["scores", self.pick(OBJS),
                     self.pick([0, "0..", "..1", "1..5", "!3"])]
                self.hot.append(["score", c[1]])
                return c
            self.hot.append(["move"])
            return ["distance_from", self.geo(None), None,
                    self.pick([6.3, 12.7])]

        def some():
            return [cond() for _ in range(r.choice([1, 1, 2]))]
        ops = []
        if self.chance(.6):
            ops.append(["clear", None])
        ops.append(["select", [] if self.chance(.5) else
                    [["is_not_type", [self.pick(self.kinds())]]]])
        for _ in range(r.choice([1, 1, 2])):
            ops.append([self.pick(["filter", "filter", "drop"]), some()])
        if self.chance(.5):
            b = [["gop", x, ops, None]]
        else:
            b = [["gop", x, [o], None] for o in ops]
        if y != x and self.chance(.6):
            b.append(["gop", y, [self.pick([
                ["extend", x], ["subtract", x], ["intersect", x],
                ["filter", some()]])], None])
        elif self.chance(.4):
            b.append(["set", self.outs[2], ["gsize", ["gchain", [
                "gcopy", x], [["filter", some()]]]]])
        b += [["set", self.outs[0], ["gsize", x]],
              ["set", self.outs[1], ["gsize", y]], self.mark()]
        if self.chance(.4):
            it = self.uid("it")
            b.append(["forg", it, x, [["aug", self.outs[0], "*", ["i", 2]],
                                      self.mark()]])
        n = "watch%d" % len(self.watches)
        self.watches.append(n)
        return [["iface", n, b]]

    def resolve(self, genv):
        """Wild entities join a template: their fields are set at once."""
        ts = self.named()
        t = self.pick(ts)
        xs = [u for u, ty in self.globs if ty == "X"]
        if not xs:
            return []
        x = ["v", self.pick(xs)]
        u = self.uid("g")
        kinds = [w for w in WILD if self.wildof.setdefault(w, t) == t]
        if not kinds:
            return []
        it = self.uid("it")
        b = []
        for n, ty in self.T.fields(t).items():
            f = ["f", ["v", it], n]
            if "@" in ty:
                for m, sty in self.structs[ty]:
                    b.append(["set", ["f", f, m], self.lit()
                              if sty == "int" else ["b", 1]])
            elif n.startswith("id"):
                b.append(["aug", ["v", "cnt"], "+", ["i", 1]])
                b.append(["set", f, ["v", "cnt"]])
            else:
                b.append(["set", f, self.lit() if ty == "int"
                          else ["b", 0]])
        out = [["gop", x, [["clear", None],
                           ["select", self.filt(genv, types=kinds)]], None],
               ["def", u, "G:" + t, ["resolve", x, t], False],
               ["forg", it, ["v", u], b or [["pass"]]]]
        genv.add(["v", u], "G:" + t)
        self.globs.append((u, "G:" + t))
        return out

    def program(self):
        r = self.r
        self.nlevel = {}
        self.globs = []
        self.wildof = {}
        g = Env()
        body = [["import", None, "import world"]]
        for i in range(3):
            u = "o%d" % i
            body.append(["scb", u, u, "obs"])
            self.outs.append(["v", u])
            g.add(["v", u], "int", False)
        for i in range(r.choice([0, 1, 2])):
            u = "in%d" % i
            body.append(["scb", u, u, "obs"])
            self.ins.append(u)
            g.add(["v", u], "int", False)
        body.append(["def", "cnt", "int", ["i", 0], False])
        for _ in range(r.choice([1, 2, 3])):
            u = self.uid("v")
            ty = self.pick(["int", "int", "bool"])
            body.append(["def", u, ty, self.lit() if ty == "int"
                         else ["b", r.randint(0, 1)], False])
            g.add(["v", u], ty)
        if self.chance(.35):
            body += self.struct()
        nt = r.choice([1, 2, 3, 4]) if self.want == "ents" else \
            r.choice([1, 1, 2])
        if self.family:
            nt = r.choice([3, 4, 5])
        for _ in range(nt):
            if self.chance(.25):
                body += self.func(g)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                body += self.once(g)
            body += self.tmpl(g)
            for _ in range(r.choice([0, 1, 1])):
                body += self.gdecl(g)
            if self.family and self.chance(.3):
                body += self.roll(g)
        for _ in range(r.choice([2, 3, 4])):
            body += self.gdecl(g)
        if self.wild:
            body += self.xgroups(g)
            if self.chance(.4):
                body += self.resolve(g)
        for _ in range(r.randint(3, self.size)):
            k = r.random()
            if k < .2:
                body += self.func(g)
            elif k < .25:
                body += self.once(g)
            elif k < .45 and len(self.ifaces) < 4:
                body += self.iface(g)
            else:
                body += self.stmt(g, 2) or []
        if self.family:
            body += self.roll(g)
        body += self.iface(g)
        if self.wild and self.chance(.5 if self.want == "groups" else .1):
            for _ in range(r.choice([1, 1, 2])):
                body += self.watch(g)
        body += self.dump(g)
        pop = self.population()
        return {"style": r.randrange(1 << 30) if self.chance(.4) else None,
                "lang": "ents", "modules": {"main": body},
                "quals": self.quals, "pop": pop, "tags": TAGS,
                "objs": OBJS}

    def dump(self, genv):
        """Show every global variable."""
        b = []
        o = self.outs
        decl = []
        for u, ty in self.globs:
            if ty.startswith("E:"):
                h = "h_" + u
                decl.append(["def", h, "G:" + ty[2:], ["gnew", ty[2:]],
                             False])
                b.append(["gop", ["v", h], [["clear", None],
                                            ["add", [["v", u]]]], None])
                b.append(["set", o[0], ["gsize", ["v", h]]])
                inner = []
                for n, fty in self.T.fields(ty[2:]).items():
                    f = ["f", ["v", u], n]
                    if fty == "int":
                        inner += [["set", o[1], f], self.mark()]
                    elif fty == "bool":
                        inner += [["set", o[1], ["int", f]], self.mark()]
                b.append(self.mark())
                if inner:
                    b.append(["if", [[["not", ["gempty", ["v", h]]],
                                      inner]], None])
            else:
                b.append(["set", o[0], ["gsize", ["v", u]]])
                b.append(["set", o[1], ["int", ["gempty", ["v", u]]]])
                b.append(self.mark())
                if ty == "X":
                    continue
                ids = [n for n in self.T.fields(ty[2:])
                       if n.startswith("id")]
                if ids:
                    it = "it_" + u
                    b.append(["set", o[2], ["i", 0]])
                    b.append(["forg", it, ["v", u], [
                        ["set", o[2], ["bin", "+", ["bin", "*", o[2],
                                                    ["i", 3]],
                                       ["f", ["v", it], ids[0]]]]]])
                    b.append(self.mark())
        return decl + [["iface", "dump/all", b + [self.mark()]]]

    def place(self):
        r = self.r
        return [r.randint(-24, 24) / 2, r.randint(-8, 8) / 2,
                r.randint(-24, 24) / 2]

    def population(self):
        r = self.r
        pop = []
        for _ in range(self.players):
            pop.append({"type": "player", "name": self.pick(
                ["Steve", "Alex", "Bob"]), "pos": self.place(),
                "mode": self.pick(["survival", "creative", "adventure"]),
                "level": r.randint(0, 5),
                "perms": {p: False for p in PERMS if r.random() < .4},
                "rot": [self.pick([0, 30, -60]), self.pick([0, 90, -120])]})
        for _ in range(r.randint(2, 9) if self.wild else r.randint(0, 2)):
            pop.append({"type": self.pick(WILD), "pos": self.place(),
                        "name": self.pick(NAMES),
                        "rot": [self.pick([0, 30, -60]),
                                self.pick([0, 90, -120])]})
        for d in pop:
            d["tags"] = [t for t in TAGS if r.random() < .3]
            d["scores"] = {o: r.choice([-3, 0, 1, 3, 4, 8])
                           for o in OBJS if r.random() < .5}
            if r.random() < .3:
                d["items"] = [{"item": self.pick(["apple", "stick"]),
                               "quantity": r.randint(1, 4),
                               "data": r.randint(0, 1),
                               "location": "slot.hotbar",
                               "slot": r.randint(0, 5)}]
        return pop


def gen_ext(rng, g):
    """Something else acts in the world."""
    i = rng.randrange(1000)
    k = rng.random()
    if k < .3:
        return ["ext", "spawn", rng.choice(WILD), rng.choice(NAMES),
                g.place()]
    if k < .5 and g.kills:
        return ["ext", "kill", i]
    if k < .7:
        return ["ext", "move", i, g.place()]
    if k < .85:
        return ["ext", "tag", i, rng.choice(TAGS)]
    return ["ext", "score", i, rng.choice(OBJS), rng.choice([0, 2, 3, -1])]


def gen_events(rng, g, lo=1, hi=8):
    events = [["main"]]
    for _ in range(rng.randint(lo, hi)):
        k = rng.random()
        if k < .42:
            events.append(["if", rng.choice(g.ifaces)])
        elif k < .5:
            events.append(["if", "dump/all"])
        elif k < .58 and g.ins:
            events.append(["in", rng.choice(g.ins),
                           rng.choice(langcase.VALS)])
        elif k < .63:
            events.append(["main"])
        elif k < .68:
            events.append(["restart"])
        elif k < .73:
            events.append(["save"])
        elif k < .78:
            events.append(["crash"])
        elif k < .84:
            events.append(["ext", "spawn", rng.choice(WILD),
                           rng.choice(NAMES), g.place()])
        elif k < .88 and g.kills:
            events.append(["ext", "kill", rng.randrange(1000)])
        elif k < .94:
            events.append(["ext", "move", rng.randrange(1000), g.place()])
        elif k < .97:
            events.append(["ext", "tag", rng.randrange(1000),
                           rng.choice(TAGS)])
        else:
            events.append(["ext", "score", rng.randrange(1000),
                           rng.choice(OBJS), rng.choice([0, 2, 3, -1])])
    for _ in range(rng.randint(2, 5) if g.watches else 0):
        events.append(["if", rng.choice(g.watches)])
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.random()
            i = rng.randrange(1000)
            h = rng.choice(g.hot)
            if k < .85:
                e = h[:1] + [i] + h[1:]
                if h[0] == "score":
                    e.append(rng.choice([0, 1, 3, -1]))
                elif h[0] == "move":
                    e.append(g.place())
            elif k < .9 and g.kills:
                e = ["kill", i]
            else:
                e = ["spawn", rng.choice(WILD), rng.choice(NAMES), g.place()]
            events.append(["ext"] + e)
    if g.watches:
        events.append(["if", rng.choice(g.watches)])
    events.append(["if", "dump/all"])
    return events
