"""The language of lang.py extended with entities: templates, references,
groups and filters, over a population of entities that other things in the
world also create, move, tag and kill.

Types: "E:<template>", "G:<template>" (group), "X" (external group).
Values: ("e", id | None), ("g", frozenset of ids).

statements
  ["tmpl", name, parents, fields, methods, new]
      fields [[name, type]]; methods [[qualifier, func node]] where the func
      uid is "<template>.<method>"; new [kind, params, body] | None
  ["newcall", template | None, args]      inside `new`
  ["gop", group, [[op, arg]...], share]   chained group operations
  ["forg", uid, group, body]
  ["wkill", e]  ["wtp", e, pos]  ["wtag", e, tag, add]
expressions
  ["self"] ["enew", template, args] ["single", g] ["gnew", template]
  ["gchain", g, [[op, arg]...]]   operations on a group or a copy of it
  ["xnew"] ["gcopy", g] ["resolve", x, template] ["gsize", g] ["gempty", g]
  ["ghas", g, e] ["isent", e, filter] ["escb", e, objective]
  ["mcall", obj, method, args, kw, declared template] ["ucall", obj, template, method, args, kw]
  ["smcall", template, method, args, kw]
filter: list of conditions [name, arg...]; positions as in geo.py
"""

import copy
import math
import random

from . import geo, lang, langcase
from .lang import Discard, Cell, StructCell, text_of

MAXENTS = 40


def q(s):
    return '"%s"' % s


def typed(f):
    """Does a filter say which type the entities have?"""
    return any(c[0] in ("is_type", "all_players", "is_game_mode",
                        "is_not_game_mode", "level", "has_permission",
                        "has_no_permission") or
               c[0] == "random" and c[1] is not None for c in f)


class Renderer(lang.Renderer):
    def tn(self, ty):
        if ty.startswith("E:"):
            return ty[2:]
        if ty.startswith("G:"):
            return "Engroup[%s]" % ty[2:]
        if ty == "X":
            return "ExternEngroup"
        return super().tn(ty)

    def _e(self, x):
        t = x[0]
        if t == "self":
            return "self", 8
        if t == "enew":
            return "%s(%s)" % (x[1], self.args([], x[2])), 8
        if t == "single":
            return self.e(x[1], 8) + ".to_single()", 8
        if t == "gnew":
            return "Engroup[%s]()" % x[1], 8
        if t == "xnew":
            return "ExternEngroup()", 8
        if t == "gcopy":
            return self.e(x[1], 8) + ".copy()", 8
        if t == "gchain":
            return self.gops(self.e(x[1], 8), x[2], None, None), 8
        if t == "resolve":
            return "%s.resolve(%s)" % (self.e(x[1], 8), x[2]), 8
        if t == "gsize":
            return self.e(x[1], 8) + ".size()", 8
        if t == "gempty":
            return self.e(x[1], 8) + ".is_empty()", 8
        if t == "ghas":
            return "%s.has(%s)" % (self.e(x[1], 8), self.e(x[2])), 8
        if t == "isent":
            return "world.is_entity(%s, %s)" % (
                self.e(x[1]), self.filt(x[2])), 8
        if t == "escb":
            return "scb(%s, %s)" % (self.e(x[1]), q(x[2])), 8
        if t == "mcall":
            return "%s.%s(%s)" % (self.e(x[1], 8), x[2],
                                  self.args(x[3], x[4])), 8
        if t == "ucall":
            return "upcast(%s, %s).%s(%s)" % (
                self.e(x[1]), x[2], x[3], self.args(x[4], x[5])), 8
        if t == "smcall":
            return "%s.%s(%s)" % (x[1], x[2], self.args(x[3], x[4])), 8
        return super()._e(x)

    def gops(self, s, ops, share, lines):
        for op, a in ops:
            if op in ("select", "drop", "filter"):
                s += ".%s(%s)" % (op, self.filt(a, share, lines))
            elif op in ("add", "remove"):
                s += ".%s(%s)" % (op, ", ".join(map(self.e, a)))
            elif op == "clear":
                s += ".clear()"
            else:
                s += ".%s(%s)" % (op, self.e(a))
        return s

    # filters
    def filt(self, f, share=None, lines=None):
        """share: a Random; the filter is then built through constants, next
        to others derived from them that are used nowhere (or elsewhere)."""
        s = "Enfilter()"
        for i, c in enumerate(f):
            s += self.cond(c)
            if share is not None and share.random() < .4:
                n = self.fname()
                lines.append("const %s = %s" % (n, s))
                while share.random() < .5:
                    lines.append("const %s = %s%s" % (
                        self.fname(), n, share.choice([
                            '.has_tag("ut0")', '.is_not_name("Bob")',
                            '.distance_from(Pos(1, 2, 3), max=2.2)',
                            '.random()' if typed(f[:i + 1]) else
                            '.random("pig")', '.is_not_type("cow")',
                            '.scores("sc", "1..")'])))
                s = n
        return s

    def fname(self):
        self.nfilt = getattr(self, "nfilt", 0) + 1
        return "_f%d" % self.nfilt

    def pos(self, p):
        return geo.Text(self.e).pos(p)

    def cond(self, c):
        k = c[0]
        if k in ("has_tag", "has_no_tag", "is_type", "is_not_type",
                 "is_name", "is_not_name", "is_game_mode",
                 "is_not_game_mode", "has_permission",
                 "has_no_permission"):
            a = ", ".join(map(q, c[1]))
        elif k == "all_players":
            a = ""
        elif k == "random":
            a = []
            if c[1] is not None:
                a.append(q(c[1]))
            if c[2] != 1:
                a.append("limit=%d" % c[2])
            a = ", ".join(a)
        elif k in ("nearest_from", "farthest_from"):
            a = self.pos(c[1]) + ("" if c[2] == 1 else ", limit=%d" % c[2])
        elif k == "distance_from":
            a = self.pos(c[1])
            if c[2] is not None:
                a += ", min=" + geo.num(c[2])
            if c[3] is not None:
                a += ", max=" + geo.num(c[3])
        elif k == "inside":
            a = ", ".join([self.pos(c[1])] + [
                "%s=%s" % (n, geo.num(v)) for n, v in
                zip(("dx", "dy", "dz"), c[2:]) if v is not None])
        elif k in ("rot_vertical", "rot_horizontal", "level"):
            a = ", ".join("%s=%s" % (n, geo.num(v)) for n, v in
                          zip(("min", "max"), c[1:]) if v is not None)
        elif k == "scores":
            a = "%s, %s" % (q(c[1]), c[2] if isinstance(c[2], int)
                            else q(c[2]))
        elif k == "has_item":
            a = q(c[1])
            for n, v in zip(("quantity", "data", "slot_type", "slot_num"),
                            c[2:]):
                if v is not None:
                    a += ", %s=%s" % (n, q(v) if isinstance(v, str) else v)
        else:
            raise AssertionError(k)
        return ".%s(%s)" % (k, a)

    # statements
    def st(self, x):
        t = x[0]
        if t == "tmpl":
            self.tmpl(x)
        elif t == "newcall":
            if x[1] is None:
                kw = x[2]
                a = ["type=" + q(kw["type"]), "pos=" + self.pos(kw["pos"])]
                if kw.get("name") is not None:
                    a.append("name=" + q(kw["name"]))
                if kw.get("event") is not None:
                    a.append("event=" + q(kw["event"]))
                self.w("new(%s)" % ", ".join(a))
            else:
                self.w("%s.new(%s)" % (x[1], self.args([], x[2])))
        elif t == "gop":
            lines = []
            share = x[3] if len(x) > 3 else None
            share = None if share is None else random.Random(share)
            s = self.e(x[1], 8)
            if len(x[2]) == 1 and x[2][0][0] in ("+=", "-="):
                s = "%s %s %s" % (s, x[2][0][0], self.e(x[2][0][1]))
            else:
                s = self.gops(s, x[2], share, lines)
            for ln in lines:
                self.w(ln)
            self.w(s)
        elif t == "forg":
            self.w("for %s in %s:" % (text_of(x[1]), self.e(x[2])))
            self.block(x[3])
        elif t == "wkill":
            self.w("world.kill(%s)" % self.e(x[1]))
        elif t == "wtp":
            self.w("world.tp(%s, %s)" % (self.e(x[1]), self.pos(x[2])))
        elif t == "wtag":
            self.w('world.tag_%s(%s, %s)' % (
                "add" if x[3] else "remove", self.e(x[1]), q(x[2])))
        else:
            super().st(x)

    def tmpl(self, x):
        _, name, parents, fields, methods, new = x
        self.w("entity %s%s:" % (
            name, " extends " + ", ".join(parents) if parents else ""))
        self.ind += 1
        for n, ty in fields:
            self.w("%s: %s" % (n, self.tn(ty)))
        if new:
            self.w("%snew(%s):" % ("inline " if new[0] == "inline" else "",
                                   self.params(new[1])))
            self.block(new[2])
        for qual, f in methods:
            self.func(f[:2] + [f[2].split(".")[1]] + f[3:], qual)
        if not fields and not methods and not new:
            self.w("pass")
        self.ind -= 1


lang.RENDERERS["ents"] = Renderer


# ---------------------------------------------------------------- meaning

class Void:
    """A field of an entity that does not exist."""

    def get(self):
        raise Discard("field of an entity that does not exist")

    def set(self, v):
        pass

    @property
    def f(self):
        return AnyVoid()


class AnyVoid:
    def __getitem__(self, k):
        return Void()


class SelfScore:
    def __init__(self, ent, o):
        self.ent, self.o = ent, o

    def get(self):
        if self.ent is None or self.o not in self.ent.scores:
            raise Discard("no such score")
        return self.ent.scores[self.o]

    def set(self, v):
        if self.ent is not None:
            self.ent.scores[self.o] = v


class Ent:
    def __init__(self, type_, name, pos, dim="overworld", tmpl=None):
        self.type = type_
        self.name = name if name is not None else type_
        self.pos = tuple(map(float, pos))
        self.rot = (0.0, 0.0)
        self.dim = dim
        self.tmpl = tmpl
        self.f = {}
        self.tags = set()
        self.mode, self.level, self.items, self.perms = "survival", 0, [], {}
        self.scores = {}
        self.events = []


def score_range(r):
    """-> predicate"""
    if isinstance(r, int):
        return lambda v: v == r
    s = r.strip()
    neg = s.startswith("!")
    if neg:
        s = s[1:].strip()
    if ".." in s:
        a, b = (p.strip() for p in s.split(".."))
        lo = int(a.replace(" ", "")) if a else -1 << 40
        hi = int(b.replace(" ", "")) if b else 1 << 40
    else:
        lo = hi = int(s.replace(" ", ""))
    return lambda v: (lo <= v <= hi) != neg


class Templates:
    """Linearisation and attribute lookup, by Python's own classes."""

    def __init__(self):
        self.t = {}        # name -> node
        self.cls = {"Entity": type("Entity", (), {})}

    def add(self, node):
        bases = tuple(self.cls[p] for p in node[2]) or \
            (self.cls["Entity"],)
        self.cls[node[1]] = type(node[1], bases, {})
        self.t[node[1]] = node

    def mro(self, name):
        return [c.__name__ for c in self.cls[name].__mro__
                if c is not object and c.__name__ != "Entity"]

    def sub(self, a, b):
        return b in self.mro(a)

    def fields(self, name):
        d = {}
        for t in self.mro(name):
            for n, ty in self.t[t][3]:
                d[n] = ty
        return d

    def method(self, name, m):
        """-> [qualifier, func node]"""
        for t in self.mro(name):
            for qual, f in self.t[t][4]:
                if f[2] == t + "." + m:
                    return qual, f
        raise KeyError(m)

    def methods(self, name):
        out = {}
        for t in reversed(self.mro(name)):
            for qual, f in self.t[t][4]:
                out[f[2].split(".")[1]] = (qual, f)
        return out

    def new(self, name):
        while True:
            n = self.t[name][5]
            if n is not None:
                return name, n
            name = self.mro(name)[1]


class Interp(lang.Interp):
    def __init__(self, *a):
        super().__init__(*a)
        self.T = Templates()
        self.ents = {}
        self.next_id = 1
        self.newdata = None
        self.user_objs = self.prog.get("objs", [])
        self.user_tags = self.prog.get("tags", [])
        for d in self.prog.get("pop", ()):
            e = self.spawn(d["type"], d.get("name"), d["pos"],
                           d.get("dim", "overworld"))
            e.rot = tuple(map(float, d.get("rot", (0, 0))))
            e.tags = set(d.get("tags", ()))
            e.mode = d.get("mode", "survival")
            e.level = d.get("level", 0)
            e.items = d.get("items", [])
            e.perms = d.get("perms", {})
            e.scores = dict(d.get("scores", {}))

    def spawn(self, *a, **kw):
        e = Ent(*a, **kw)
        self.ents[self.next_id] = e
        self.next_id += 1
        return e

    # durable state
    def snapshot(self):
        s = super().snapshot()
        s["ents"] = copy.deepcopy(self.ents)
        s["next_id"] = self.next_id
        return s

    def restore(self, s):
        super().restore(s)
        self.ents = copy.deepcopy(s["ents"])
        self.next_id = s["next_id"]

    # the world outside
    def mobs(self):
        return sorted(i for i, e in self.ents.items() if e.type != "player")

    def external(self, ev, w=None):
        """ev: ["ext", what, ...]"""
        k = ev[1]
        if k == "spawn":
            self.spawn(ev[2], ev[3], ev[4])
            if w is not None:
                w.spawn(ev[2], name=ev[3], pos=ev[4])
            return
        ids = self.mobs()
        if not ids:
            return
        i = ids[ev[2] % len(ids)]
        e = self.ents[i]
        we = w.ents[i] if w is not None else None
        if k == "kill":
            del self.ents[i]
            if we is not None:
                w.despawn(i)
        elif k == "move":
            e.pos = tuple(map(float, ev[3]))
            if we is not None:
                we.pos = e.pos
        elif k == "tag":
            e.tags ^= {ev[3]}
            if we is not None:
                if ev[3] in e.tags:
                    we.tags[ev[3]] = 1
                else:
                    we.tags.pop(ev[3], None)
        elif k == "score":
            e.scores[ev[3]] = ev[4]
            if we is not None:
                w.obj.setdefault(ev[3], {})[i] = ev[4]

    def compare(self, w):
        def r3(p):
            return [round(v, 3) + 0.0 for v in p]
        a = [[i, e.type, e.name, r3(e.pos), e.dim,
              sorted(t for t in e.tags if t in self.user_tags),
              [w.obj.get(o, {}).get(i) for o in self.user_objs]]
             for i, e in sorted(w.ents.items())]
        b = [[i, e.type, e.name, r3(e.pos), e.dim,
              sorted(e.tags),
              [e.scores.get(o) for o in self.user_objs]]
             for i, e in sorted(self.ents.items())]
        for x, y in zip(a, b):
            if x[0] == y[0] and all(abs(u - v) < .002 for u, v in
                                    zip(x[3], y[3])):
                x[3] = y[3]     # rounded the other way
        if a != b:
            from .simrun import diff_at
            x, y = diff_at(a, b)
            return "entities", "observed %r, expected %r" % (x, y)

    def run_main(self):
        self.selfv = None
        super().run_main()

    def run_iface(self, path):
        self.selfv = None
        super().run_iface(path)

    # values
    def live(self, v):
        """The entity of an ("e", id) value, or None."""
        if v is None:
            raise Discard("uninitialised")
        return self.ents.get(v[1])

    def group(self, e):
        v = self.ev(e)
        return {i for i in v[1] if i in self.ents}

    def lval(self, e):
        t = e[0]
        if t == "f":
            b = e[1]
            if b[0] in ("v", "f", "q", "a"):
                c = self.lval(b)
                if isinstance(c, (StructCell, Void)):
                    return c.f[e[2]]
                v = c.get()
            else:
                v = self.ev(b)
                if isinstance(v, dict):
                    raise Discard("field of a value")
            ent = self.live(v)
            if ent is None:
                return Void()
            if e[2] not in ent.f:
                if ent.tmpl is None:
                    raise Discard("not of this template")
                raise AssertionError(e)
            return ent.f[e[2]]
        if t == "escb":
            return SelfScore(self.live(self.ev(e[1])), e[2])
        return super().lval(e)

    def ev(self, e):
        f = getattr(self, "e_" + e[0], None)
        if f is not None:
            return f(e)
        return super().ev(e)

    def e_self(self, e):
        if self.selfv is None:
            raise AssertionError("self")
        return self.selfv

    def e_single(self, e):
        g = self.group(e[1])
        if len(g) > 1:
            raise Discard("single of many")
        return ("e", min(g) if g else None)

    def e_gnew(self, e):
        return ("g", frozenset())

    e_xnew = e_gnew

    def e_gcopy(self, e):
        return ("g", frozenset(self.group(e[1])))

    def e_resolve(self, e):
        g = self.group(e[1])
        for i in g:
            self.adopt(self.ents[i], e[2])
        return ("g", frozenset(g))

    def adopt(self, ent, tmpl):
        if ent.tmpl not in (None, tmpl):
            raise Discard("two templates")
        if ent.tmpl is None:
            ent.tmpl = tmpl
            for n, ty in self.T.fields(tmpl).items():
                ent.f[n] = self.new_struct(ty) if "@" in ty else Cell()

    def e_gsize(self, e):
        return len(self.group(e[1]))

    def e_gempty(self, e):
        return not self.group(e[1])

    def e_ghas(self, e):
        v = self.ev(e[2])
        return self.live(v) is not None and v[1] in self.group(e[1])

    def e_isent(self, e):
        got = self.select(e[2], None)
        v = self.ev(e[1])
        return self.live(v) is not None and v[1] in got

    def e_escb(self, e):
        return self.lval(e).get()

    # filters
    def look(self, ref):
        e = self.live(self.ev(ref))
        return None if e is None else geo.At(e.pos, e.rot, e.dim)

    def select(self, filt, among):
        """Sequentially: every condition keeps some of the entities."""
        cur = set(self.ents) if among is None else set(among)
        for c in filt:
            cur = self.cond(c, cur)
        return cur

    def cond(self, c, cur):
        k = c[0]
        E = self.ents

        def keep(p):
            return {i for i in cur if p(E[i])}
        if k == "has_tag":
            return keep(lambda e: all(t in e.tags for t in c[1]))
        if k == "has_no_tag":
            return keep(lambda e: not any(t in e.tags for t in c[1]))
        if k == "is_type":
            return keep(lambda e: e.type == c[1][0])
        if k == "is_not_type":
            return keep(lambda e: e.type not in c[1])
        if k == "is_name":
            return keep(lambda e: e.name == c[1][0])
        if k == "is_not_name":
            return keep(lambda e: e.name not in c[1])
        if k == "all_players":
            return keep(lambda e: e.type == "player")
        if k == "is_game_mode":
            return keep(lambda e: e.type == "player" and e.mode == c[1][0])
        if k == "is_not_game_mode":
            return keep(lambda e: e.type == "player" and
                        e.mode not in c[1])
        if k in ("has_permission", "has_no_permission"):
            want = k == "has_permission"
            return keep(lambda e: e.type == "player" and all(
                e.perms.get(p, True) == want for p in c[1]))
        if k == "level":
            return keep(lambda e: e.type == "player" and
                        (c[1] is None or e.level >= c[1]) and
                        (c[2] is None or e.level <= c[2]))
        if k == "scores":
            ok = score_range(c[2])
            return keep(lambda e: c[1] in e.scores and ok(e.scores[c[1]]))
        if k == "rot_vertical":
            return keep(lambda e: (-90 if c[1] is None else c[1]) <=
                        e.rot[0] <= (90 if c[2] is None else c[2]))
        if k == "rot_horizontal":
            return keep(lambda e: (-180 if c[1] is None else c[1]) <=
                        e.rot[1] <= (180 if c[2] is None else c[2]))
        if k == "has_item":
            return keep(lambda e: self.has_item(e, c))
        if k == "random":
            if c[1] is not None:
                cur = keep(lambda e: e.type == c[1])
            if not cur:
                return cur
            return set(self.draws.pick(cur, c[2]))
        at = geo.place(c[1], geo.At(), self.look)
        if at is None:
            return set()

        def d2(e):
            return sum((p - o) ** 2 for p, o in zip(e.pos, at.pos))
        if k == "distance_from":
            return keep(lambda e: e.dim == at.dim and
                        (c[2] is None or d2(e) >= c[2] ** 2) and
                        (c[3] is None or d2(e) <= c[3] ** 2))
        if k == "inside":
            def inside(e):
                if e.dim != at.dim:
                    return False
                for p, o, d in zip(e.pos, at.pos, c[2:]):
                    d = d or 0.0
                    if not min(o, o + d) <= p < max(o, o + d) + 1:
                        return False
                return True
            return keep(inside)
        ids = sorted(cur, key=self.draws.rank)
        ids.sort(key=lambda i: (E[i].dim != at.dim, round(d2(E[i]), 6)),
                 reverse=k == "farthest_from")
        return set(ids[:c[2]])

    @staticmethod
    def has_item(e, c):
        _, item, quantity, data, slot_type, slot_num = \
            c + [None] * (6 - len(c))
        n = 0
        for it in e.items:
            if it["item"] == item and \
                    (data is None or it["data"] == data) and \
                    (slot_type is None or it["location"] == slot_type) and \
                    (slot_num is None or score_range(slot_num)(it["slot"])):
                n += it["quantity"]
        return score_range("1.." if quantity is None else quantity)(n)

    # templates
    def s_tmpl(self, x):
        self.T.add(x)
        for _, f in x[4]:
            self.funcs[f[2]] = f
        if x[5]:
            self.funcs[x[1] + ".<new>"] = [
                "func", x[5][0], x[1] + ".<new>", x[5][1], None, x[5][2]]

    def e_enew(self, e):
        outer, self.newdata = self.newdata, [e[1], None]
        owner, _ = self.T.new(e[1])
        self.call(["call", owner + ".<new>", [], e[2]], selfv=("new",))
        v, self.newdata = self.newdata[1], outer
        if v is None:
            raise AssertionError("new did not create anything")
        return v

    def s_newcall(self, x):
        nd = self.newdata
        if x[1] is not None:
            self.newdata = [nd[0], None]
            owner, _ = self.T.new(x[1])
            self.call(["call", owner + ".<new>", [], x[2]], selfv=("new",))
            v, self.newdata = self.newdata[1], nd
        else:
            kw = x[2]
            at = geo.place(kw["pos"], geo.At(), self.look)
            if at is None:
                raise Discard("created at an entity that does not exist")
            if not any(e.type == "player" for e in self.ents.values()):
                raise Discard("no player")
            if len(self.ents) >= MAXENTS:
                raise Discard("too many entities")
            i = self.next_id
            e = self.spawn(kw["type"], kw.get("name"), at.pos, at.dim)
            self.adopt(e, nd[0])
            if kw.get("event"):
                e.events.append(kw["event"])
            v = ("e", i)
        nd[1] = v
        self.selfv = v

    # calls of methods
    def e_mcall(self, e):
        return self.mcall(e, True)

    def mcall(self, e, used):
        v = self.ev(e[1])
        ent = self.live(v)
        if ent is None:
            qual = self.prog["quals"][e[2]]
            if qual == "static":
                pass
            elif qual == "" or used:
                raise Discard("method of an entity that does not exist")
            else:
                return None     # no implementation runs
        if self.prog["quals"][e[2]] in ("", "static"):
            # bound by the declared template
            tmpl = e[5]
            if self.kind == "inline" and ent is not None and \
                    ent.tmpl is not None and \
                    self.T.method(tmpl, e[2]) != self.T.method(ent.tmpl,
                                                               e[2]):
                # declared type or that of the argument?
                raise Discard("hidden method called in inline code")
        else:
            tmpl = ent.tmpl
            if tmpl is None:
                raise Discard("not of a template")
        _, f = self.T.method(tmpl, e[2])
        return self.call(["call", f[2], e[3], e[4]], selfv=v)

    def e_ucall(self, e):
        v = self.ev(e[1])
        if self.live(v) is None and self.prog["quals"][e[3]] != "static":
            raise Discard("method of an entity that does not exist")
        _, f = self.T.method(e[2], e[3])
        return self.call(["call", f[2], e[4], e[5]], selfv=v)

    def e_smcall(self, e):
        _, f = self.T.method(e[1], e[2])
        return self.call(["call", f[2], e[3], e[4]])

    # statements
    def s_expr(self, x):
        if x[1][0] == "mcall":
            self.mcall(x[1], False)
        else:
            self.ev(x[1])

    def s_gop(self, x):
        for op in x[2]:
            c = self.lval(x[1])
            cur = {i for i in c.get()[1] if i in self.ents}
            c.set(("g", frozenset(self.gop(cur, *op))))

    def e_gchain(self, x):
        if x[1][0] in ("gcopy", "gnew"):
            c = Cell(self.ev(x[1]))
        else:
            c = self.lval(x[1])
        for op in x[2]:
            cur = {i for i in c.get()[1] if i in self.ents}
            c.set(("g", frozenset(self.gop(cur, *op))))
        return ("g", frozenset(c.get()[1]))

    def gop(self, cur, op, a):
        if op in ("add", "remove"):
            for y in a:
                v = self.ev(y)
                if self.live(v) is None:
                    continue
                (cur.add if op == "add" else cur.discard)(v[1])
            return cur
        if op == "clear":
            return set()
        if op in ("extend", "+="):
            return cur | self.group(a)
        if op in ("subtract", "-="):
            return cur - self.group(a)
        if op == "intersect":
            return cur & self.group(a)
        if op == "select":
            return cur | self.select(a, None)
        if op == "drop":
            return cur - self.select(a, cur)
        if op == "filter":
            return self.select(a, cur)
        raise AssertionError(op)

    def s_forg(self, x):
        ids = sorted(self.group(x[2]), key=self.draws.rank)
        for i in ids:
            self.step()
            if i not in self.ents:
                raise Discard("died while being iterated")
            self.env[x[1]] = Cell(("e", i))
            for d in lang.declared(x[3]):
                self.env.pop(d, None)
            self.block(x[3])

    def s_wkill(self, x):
        v = self.ev(x[1])
        ids = [v[1]] if v[0] == "e" else v[1]
        for i in ids:
            if i in self.ents and self.ents[i].type != "player":
                del self.ents[i]

    def targets(self, e):
        v = self.ev(e)
        ids = [v[1]] if v[0] == "e" else v[1]
        return [self.ents[i] for i in sorted(ids, key=str)
                if i in self.ents]

    def s_wtp(self, x):
        at = geo.place(x[2], geo.At(), self.look)
        if at is None:
            return
        for e in self.targets(x[1]):
            e.pos, e.dim = tuple(at.pos), at.dim

    def s_wtag(self, x):
        for e in self.targets(x[1]):
            (e.tags.add if x[3] else e.tags.discard)(x[2])

    def s_def(self, x):
        if x[3] is None and x[2][:2] not in ("E:", "G:") and x[2] != "X":
            return super().s_def(x)
        if x[3] is None:
            if x[1] not in self.env:
                self.env[x[1]] = Cell()
            return
        super().s_def(x)


lang.INTERPS["ents"] = Interp


# --------------------------------------------------------------- shrinking

def _sh_tmpl(s):
    for i in range(len(s[4])):
        yield [s[:4] + [s[4][:i] + s[4][i + 1:]] + s[5:]]
    for i, (qual, f) in enumerate(s[4]):
        for b in lang.shrink_block(f[5]):
            yield [s[:4] + [s[4][:i] + [[qual, f[:5] + [b]]] + s[4][i + 1:]]
                   + s[5:]]
    if s[5]:
        for b in lang.shrink_block(s[5][2]):
            yield [s[:5] + [s[5][:2] + [b]]]
    for i in range(len(s[3])):
        yield [s[:3] + [s[3][:i] + s[3][i + 1:]] + s[4:]]


def _sh_gop(s):
    ops = s[2]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield [s[:2] + [ops[:i] + ops[i + 1:]] + s[3:]]
    if len(s) > 3 and s[3] is not None:
        yield [s[:3] + [None]]
    for i, (op, a) in enumerate(ops):
        if op in ("select", "drop", "filter", "add", "remove"):
            for j in range(len(a)):
                yield [s[:2] + [ops[:i] + [[op, a[:j] + a[j + 1:]]]
                                + ops[i + 1:]] + s[3:]]


def _sh_forg(s):
    yield s[3]
    for b in lang.shrink_block(s[3]):
        yield [s[:3] + [b]]


lang.SHRINK_STMT.update(tmpl=_sh_tmpl, gop=_sh_gop, forg=_sh_forg)
