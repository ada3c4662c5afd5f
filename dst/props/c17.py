"""C17: world actions happen in exactly the described context."""

import copy
import json
import math
import re

from .. import geo, simrun
from ..engine import Outcome, digest

ID = "C17"
QUICK = 3600
THOROUGH = 100000
RULE = ("random programs that call every function of the world module "
        "(blocks, entities, players, messages, tests) with positions, "
        "offsets and rotations composed from every operation and from "
        "entities, on entity variables, groups, loop variables, parameters "
        "and self, from main, interfaces, functions, inline functions, "
        "methods, branches and loops; run through a random history of "
        "calls, re-runs, restarts, crash rollbacks and outside changes "
        "(entities killed, moved, sent to other dimensions, tagged, players "
        "joining, blocks changed); after every event all entities, blocks, "
        "test results and commands that the game was given are compared "
        "with a model of the world that carries out the described actions; "
        "distinct = different sequence of actions and results; non-trivial "
        "= at least four actions and tests")

BLOCKS = ["stone", "dirt", "air", "minecraft:gold_block"]
STATES = [{}, {"facing": 2}, {"top_slot_bit": True}, {"kind": "oak"},
          {"kind": "oak", "facing": 2}, {"facing": 0}]
TAGS = ["u1", "u2", "u 3"]
TYPES = ["cow", "pig", "minecraft:bat"]
WORDS = ["hi", "hello you", "a b  c", "x:y"]
PLAYER_FNS = ("ability", "clear_inventory", "clear", "spawnpoint_clear",
              "gamemode", "give", "recipe", "spawnpoint_set",
              "xp_add_levels", "xp_add_points")


class Cut(Exception):
    """From here on the history is not specified."""


def bare(t):
    return t[10:] if t.startswith("minecraft:") else t


# ------------------------------------------------------------ rendering

def q(s):
    return '"%s"' % s


def lit(v):
    if isinstance(v, bool):
        return "True" if v else "False"
    if isinstance(v, str):
        return q(v)
    if isinstance(v, (int, float)):
        return geo.num(v)
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (lit(a), lit(b))
                                  for a, b in v.items()) if v else "{:}"
    if isinstance(v, list):
        return "{%s}" % ", ".join(map(lit, v))
    return "None"


def r_val(v):
    """An argument: [kind, ...]"""
    k = v[0]
    if k == "pos":
        return geo.pos_text(v[1], str)
    if k == "off":
        return geo.off_text(v[1], str)
    if k == "rot":
        return geo.rot_text(v[1], str)
    if k in ("name", "e", "g"):
        return v[1]
    if k == "block":
        if v[2] is None:
            return q(v[1])
        return "world.Block(%s%s)" % (q(v[1]), ", " + lit(v[2])
                                      if v[2] else "")
    if k == "item":
        if v[2] is None:
            return q(v[1])
        return "world.Item(%s%s)" % (q(v[1]), "".join(
            ", %s=%s" % (a, lit(b)) for a, b in v[2].items()))
    if k == "lit":
        return lit(v[1])
    if k == "filter":
        return "Enfilter()" + "".join(".%s(%s)" % (n, lit(x))
                                      for n, x in v[1])
    raise ValueError(k)


def r_call(s):
    a = [r_val(x) for x in s[2]]
    a += ["%s=%s" % (n, r_val(x)) for n, x in s[3].items()]
    return "world.%s(%s)" % (s[1], ", ".join(a))


def r_body(b, ind, out):
    pad = "    " * ind
    if not b:
        out.append(pad + "pass")
    for s in b:
        k = s[0]
        if k == "do":
            out.append(pad + r_call(s))
        elif k == "test":
            t = r_call(s[2])
            if s[3] == "var":
                out.append("%sbt = %s" % (pad, t))
                t = "bt"
            if s[3] == "not":
                out += ["%sif not %s:" % (pad, t),
                        "%s    %s = 0" % (pad, s[1]),
                        pad + "else:", "%s    %s = 1" % (pad, s[1])]
            else:
                out += ["%sif %s:" % (pad, t), "%s    %s = 1" % (pad, s[1]),
                        pad + "else:", "%s    %s = 0" % (pad, s[1])]
        elif k == "if":
            out.append("%sif %s == 1:" % (pad, s[1]))
            r_body(s[2], ind + 1, out)
            out.append(pad + "else:")
            r_body(s[3], ind + 1, out)
        elif k == "each":
            out.append("%sfor %s in %s:" % (pad, s[1], s[2]))
            r_body(s[3], ind + 1, out)
        elif k == "call":
            out.append("%s%s(%s)" % (pad, s[1], s[2]))
        elif k == "meth":
            out.append("%s%s.act(%s)" % (pad, s[1], s[2]))
        elif k == "assign":
            out.append("%s%s = %s" % (pad, s[1], s[2]))
        elif k == "refill":
            if s[2]:
                out.append("%s%s.clear()" % (pad, s[1]))
            out.append("%s%s.select(%s)" % (pad, s[1], r_val(s[3])))
        elif k == "gadd":
            out.append("%smobs.%s(%s)" % (pad, s[1], s[2]))
        else:
            raise ValueError(k)


def render(prog):
    out = ["import world", "entity Base:", "    new():",
           '        new(type="armor_stand", pos=AbsPos(0.5, 1.0, -2.5))',
           "a0 := Base()", "a1 := Base()", "&grp = Engroup[Entity]()",
           "&ext = ExternEngroup()", "mobs := Engroup[Base]()",
           "bt := False"]
    for i in range(3):
        out += ['&t%d = scb("t%d", "obs")' % (i, i), "t%d = 0" % i]
    out.append('ext.select(Enfilter().has_tag("band"))')
    out.append("mobs.add(a0, a1)")
    for n, v in prog["consts"]:
        out.append("const %s = %s" % (n, r_val(v)))
    out += ["entity Mob extends Base:", "    %sdef act(q: Base):"
            % prog["qual"]]
    r_body(prog["method"], 2, out)
    out.append("m0 := Mob()")
    for f in prog["fns"]:
        out.append("%sdef %s(p: Base):" % ("inline " if f["inline"] else "",
                                           f["name"]))
        r_body(f["body"], 1, out)
    for n, b in prog["ifaces"]:
        out.append("interface %s:" % n)
        r_body(b, 1, out)
    r_body(prog["main"], 0, out)
    return "\n".join(out) + "\n"


# ----------------------------------------------------------- generation

class Gen:
    def __init__(self, rng, edu, rots):
        self.rng = rng
        self.edu, self.rots = edu, rots
        self.nloop = 0
        self.consts = []

    def geo(self, sc, wide=8):
        return geo.GeoGen(self.rng, sc["refs"], wide=wide, far=False)

    def pos(self, sc, blocks=False):
        r = self.rng
        c = [n for n, v in self.consts if v[0] == "pos"]
        if c and r.random() < .25:
            return ["name", r.choice(c)]
        return ["pos", self.geo(sc).pos(local=not blocks or
                                        r.random() < .1)]

    def off(self, sc):
        r = self.rng
        c = [n for n, v in self.consts if v[0] == "off"]
        if c and r.random() < .2:
            return ["name", r.choice(c)]
        return ["off", self.geo(sc, 3).off(local=r.random() < .1,
                                           absolute=r.random() < .25)]

    def rot(self, sc):
        c = [n for n, v in self.consts if v[0] == "rot"]
        if c and self.rng.random() < .2:
            return ["name", self.rng.choice(c)]
        return ["rot", self.geo(sc).rot()]

    def ent(self, sc):
        return ["e", self.rng.choice(sc["refs"])]

    def tgt(self, sc, player=False):
        r = self.rng
        if r.random() < (.7 if player else .4):
            return ["g", r.choice(["grp", "ext", "grp", "mobs"]
                                  if not player else ["grp", "ext"])]
        return self.ent(sc)

    def block(self):
        r = self.rng
        b = r.choice(BLOCKS)
        if r.random() < .5:
            return ["block", b, None]
        return ["block", b, r.choice(STATES)]

    def item(self):
        r = self.rng
        if r.random() < .5:
            return ["item", "apple", None]
        d = {}
        if r.random() < .5:
            d["data"] = r.choice([0, 3, 32767])
        if r.random() < .3:
            d["keep_on_death"] = r.random() < .8
        if r.random() < .3:
            d["can_destroy"] = r.choice([["dirt"], ["dirt", "stone"]])
        if r.random() < .3:
            d["can_place_on"] = ["grass"]
        if r.random() < .3:
            d["lock"] = r.choice(["lock_in_slot", "lock_in_inventory"])
        return ["item", "apple", d]

    def opt(self, kw, n, vals, p=.5):
        if self.rng.random() < p:
            kw[n] = ["lit", self.rng.choice(vals)]

    def action(self, sc):
        r = self.rng
        kw = {}
        k = r.random()
        rep = ["aironly", "destroy", "all"]
        if k < .35:
            f = r.choice(["setblock", "setblock", "fill", "fill_replace",
                          "clone", "clone_only"])
            p = self.pos(sc, True)
            if f == "setblock":
                self.opt(kw, "replacement", rep)
                return ["do", f, [p, self.block()], kw]
            if f == "fill":
                self.opt(kw, "replacement", rep + ["hollow", "outline"], .7)
                return ["do", f, [p, self.off(sc), self.block()], kw]
            if f == "fill_replace":
                return ["do", f, [p, self.off(sc), self.block(),
                                  self.block()], kw]
            self.opt(kw, "mode", ["move", "force"])
            if f == "clone":
                self.opt(kw, "no_air", [True, False])
                return ["do", f, [p, self.off(sc), self.off(sc)], kw]
            return ["do", f, [p, self.off(sc), self.off(sc), self.block()],
                    kw]
        if k < .7:
            f = r.choice(["tp", "tp", "rotate", "rotate", "move",
                          "move_local", "summon", "tag_add", "tag_remove",
                          "kill"])
            if f == "kill" and (not sc["top"] or r.random() < .5):
                f = "rotate"
            if f == "tp":
                self.opt(kw, "check_for_blocks", [True, False], .3)
                return ["do", f, [self.tgt(sc), self.pos(sc)], kw]
            if f == "rotate":
                return ["do", f, [self.tgt(sc), self.rot(sc)], kw]
            if f in ("move", "move_local"):
                for n in (("x", "y", "z") if f == "move" else
                          ("left", "up", "front")):
                    self.opt(kw, n, [1.0, -2.5, 0.125, 3.0, -0.75], .6)
                self.opt(kw, "check_for_blocks", [True, False], .2)
                return ["do", f, [self.tgt(sc)], kw]
            if f == "summon":
                self.opt(kw, "event", ["minecraft:ev", "e_x"], .4)
                self.opt(kw, "name", ["Bob", "long name", "9", "q,x"], .4)
                if self.rots and r.random() < .6:
                    kw["rot"] = self.rot(sc)
                return ["do", f, [["lit", r.choice(TYPES)], self.pos(sc)],
                        kw]
            if f == "kill":
                return ["do", f, [self.tgt(sc)], kw]
            return ["do", f, [self.tgt(sc), ["lit", r.choice(TAGS)]], kw]
        fs = ["damage", "effect_give", "effect_clear", "enchant",
              "event_entity", "msg_me", "msg_say", "msg_tell", "msg_tell",
              "replaceitem_block", "replaceitem_entity",
              "ride_start_tp_ride", "ride_start_tp_rider", "ride_stop",
              "ride_evict_riders", "summon_rider", "summon_ride", "spread",
              "kick"] + list(PLAYER_FNS)
        f = r.choice(fs)
        if f == "ability" and not self.edu:
            f = "msg_tell"
        w = ["lit", r.choice(WORDS)]
        t = self.tgt(sc, f in PLAYER_FNS)
        if f == "damage":
            a = [t, ["lit", r.choice([0, 3, 100])]]
            if r.random() < .6:
                kw["cause"] = ["lit", r.choice(["fall", "none"])]
                if r.random() < .6:
                    kw["damager"] = self.ent(sc)
        elif f == "effect_give":
            a = [t, ["lit", "speed"], ["lit", r.choice([0, 3, 999])]]
            self.opt(kw, "amplifier", [0, 1, 255])
            self.opt(kw, "particle", [True, False])
        elif f == "enchant":
            a = [t, ["lit", "sharpness"]]
            self.opt(kw, "level", [1, 3])
        elif f == "event_entity":
            a = [t, ["lit", r.choice(["ev:x", "ev"])]]
        elif f in ("msg_me", "msg_say"):
            a = [self.ent(sc), w]
        elif f == "msg_tell":
            a = [self.ent(sc), t, w]
        elif f == "replaceitem_block":
            a = [self.pos(sc), ["lit", r.choice([0, 5])], self.item()]
            self.opt(kw, "amount", [1, 7])
            self.opt(kw, "keep_old", [True, False])
        elif f == "replaceitem_entity":
            a = [t, ["lit", "slot.hotbar"], ["lit", r.choice([0, 5])],
                 self.item()]
            self.opt(kw, "amount", [1, 7])
            self.opt(kw, "keep_old", [True, False])
        elif f == "ride_start_tp_ride":
            a = [self.ent(sc), self.ent(sc)]
        elif f == "ride_start_tp_rider":
            a = [t, self.ent(sc)]
            self.opt(kw, "fill", ["if_group_fits", "until_full"])
        elif f in ("summon_rider", "summon_ride"):
            a = [t, ["lit", "cow"]]
            self.opt(kw, "event", ["ev:x"])
            self.opt(kw, "name", ["bob", "x y"])
            if f == "summon_ride":
                self.opt(kw, "mode", ["skip_riders", "no_ride_change",
                                      "reassign_rides"])
        elif f == "spread":
            a = [t, self.pos(sc), ["lit", r.choice([4.0, 10.5])]]
            self.opt(kw, "interval", [0.0, 2.5])
        elif f == "kick":
            a = [["lit", r.choice(["Steve", "A b"])]]
            self.opt(kw, "reason", ["bad", "no way"])
        elif f == "ability":
            a = [t, ["lit", "mayfly"], ["lit", r.random() < .5]]
        elif f == "clear":
            a = [t, ["lit", "apple"]]
            self.opt(kw, "item_data", [-1, 0, 3])
            self.opt(kw, "max_count", [-1, 0, 9])
        elif f == "gamemode":
            a = [t, ["lit", r.choice(["survival", "creative", "adventure",
                                      "spectator", "default"])]]
        elif f == "give":
            a = [t, self.item()]
            self.opt(kw, "amount", [1, 64])
        elif f == "recipe":
            a = [t, ["lit", r.choice(["*", "my:r", "a b"])],
                 ["lit", r.random() < .5]]
        elif f == "spawnpoint_set":
            a = [t, self.pos(sc)]
        elif f == "xp_add_levels":
            a = [t, ["lit", r.choice([-3, 0, 5])]]
        elif f == "xp_add_points":
            a = [t, ["lit", r.choice([0, 5])]]
        else:
            a = [t]
        return ["do", f, a, kw]

    def filt(self):
        r = self.rng
        c = []
        for _ in range(r.choice([1, 1, 2])):
            c.append(r.choice([
                ["has_tag", r.choice(TAGS + ["band"])],
                ["has_no_tag", r.choice(TAGS)],
                ["is_type", r.choice(["cow", "armor_stand", "player"])],
                ["is_not_type", "cow"]]))
        if sum(x[0] == "is_type" for x in c) > 1:
            c = c[:1]
        return ["filter", c]

    def test(self, sc):
        r = self.rng
        f = r.choice(["is_block", "is_block", "is_same_area", "is_entity"])
        kw = {}
        if f == "is_block":
            a = [self.pos(sc, True), self.block()]
        elif f == "is_same_area":
            a = [self.pos(sc, True), self.off(sc), self.off(sc)]
            self.opt(kw, "ignore_air", [True, False])
        else:
            a = [self.ent(sc), self.filt()]
        return ["test", "t%d" % r.randrange(3), ["do", f, a, kw],
                r.choice(["if", "var", "not"])]

    def body(self, sc, n, d=0):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < .6 or d > 2:
                out.append(self.action(sc))
            elif k < .72:
                out.append(self.test(sc))
            elif k < .77:
                s2 = dict(sc, top=sc["top"])
                out.append(["if", "t%d" % r.randrange(3),
                            self.body(s2, r.randint(1, 2), d + 1),
                            self.body(s2, r.randint(0, 1), d + 1)])
            elif k < .86 and not sc["infn"]:
                self.nloop += 1
                v = "e%d" % self.nloop
                g = r.choice(["grp", "ext", "mobs", "mobs"])
                s2 = dict(sc, refs=sc["refs"] + [v, v], top=False, infn=True)
                if g == "mobs":
                    s2["bases"] = sc["bases"] + [v]
                out.append(["each", v, g, self.body(s2, r.randint(1, 3),
                                                    d + 1)])
            elif k < .9 and sc["fns"]:
                out.append(["call", r.choice(sc["fns"]),
                            r.choice(sc["bases"])])
            elif k < .94 and sc["meth"]:
                out.append(["meth", "m0", r.choice(sc["bases"])])
            elif k < .96 and sc["top"]:
                out.append(["assign", "a0", r.choice(["a1", "a0"] + (
                    ["m0"] if "m0" in sc["bases"] else []))])
            elif k < .985 and sc["top"]:
                out.append(["refill", r.choice(["grp", "ext"]),
                            r.random() < .7, self.filt()])
            elif sc["top"]:
                out.append(["gadd", r.choice(["add", "remove"]),
                            r.choice(sc["bases"])])
            else:
                out.append(self.action(sc))
        return out

    def program(self):
        r = self.rng
        sc = {"refs": ["a0", "a1"], "bases": ["a0", "a1"], "fns": [],
              "top": True, "infn": False, "meth": False}
        for i in range(r.randint(0, 3)):
            k = r.choice(["pos", "off", "rot"])
            v = getattr(self, k)(sc)
            self.consts.append(["K%d" % i, v])
        p = {"consts": self.consts, "fns": []}
        low = dict(sc, top=False, infn=True)
        p["qual"] = r.choice(["", "", "virtual ", "inline "])
        p["method"] = self.body(dict(
            low, refs=["a0", "self", "self", "q"], bases=["a0", "q"]),
            r.randint(1, 3), 1)
        sc = dict(sc, refs=["a0", "a1", "m0"], bases=["a0", "a1", "m0"],
                  meth=True)
        low = dict(sc, top=False, infn=True)
        for i in range(r.randint(0, 2)):
            f = {"name": "f%d" % i, "inline": r.random() < .5}
            f["body"] = self.body(dict(
                low, refs=sc["refs"] + ["p", "p"], fns=list(sc["fns"]),
                bases=sc["bases"] + ["p"]), r.randint(1, 3), 1)
            p["fns"].append(f)
            sc = dict(sc, fns=sc["fns"] + ["f%d" % i])
        p["ifaces"] = [["if/%d" % i, self.body(sc, r.randint(1, 5))]
                       for i in range(r.randint(1, 3))]
        p["main"] = self.body(sc, r.randint(2, 7))
        return p


def gen_case(rng, index):
    cfg = simrun.random_config(rng) if rng.random() < .6 else {}
    v = tuple(cfg.get("mc_version", (1, 20, 10)))
    g = Gen(rng, cfg.get("education_edition", False), v >= (1, 19, 70))
    prog = g.program()
    names = [n for n, _ in prog["ifaces"]]
    events = [["main"]]
    for _ in range(rng.randint(1, 9)):
        k = rng.random()
        if k < .5:
            events.append(["if", rng.choice(names)])
        elif k < .54:
            events.append(["main"])
        elif k < .58:
            events.append(["restart"])
        elif k < .63:
            events.append(["save"])
        elif k < .69:
            events.append(["crash"])
        elif k < .73:
            events.append(["kill", rng.randrange(8)])
        elif k < .83:
            events.append(["move", rng.randrange(8), [
                rng.randint(-9, 9) / 2, rng.randint(-4, 9) / 2,
                rng.randint(-9, 9) / 2], [rng.choice([0, 30, -45]),
                                          rng.choice([0, 90, -135, 12])],
                rng.choice(["overworld", "overworld", "nether"])])
        elif k < .88:
            events.append(["tag", rng.randrange(8),
                           rng.choice(TAGS + ["band"])])
        elif k < .94:
            events.append(["block", [rng.randint(-5, 5) for _ in range(3)],
                           rng.choice(["stone", "dirt", "air"])])
        else:
            events.append(["spawn", rng.choice(["player", "cow"]),
                           rng.random() < .5])
    return {"prog": prog, "events": events, "players": rng.randint(1, 2),
            "config": cfg, "seed": rng.randrange(1 << 30)}


# ---------------------------------------------------------------- model

class Ent:
    def __init__(self, type_, pos, rot=(0.0, 0.0), dim="overworld", tags=()):
        self.type, self.pos, self.rot, self.dim = type_, tuple(pos), \
            tuple(rot), dim
        self.tags = set(tags)


class Model:
    def __init__(self, prog):
        self.p = prog
        self.ents = {}
        self.blocks = {}
        self.obs = {}
        self.v = {}
        self.groups = {"grp": set(), "ext": set(), "mobs": set()}
        self.bt = False
        self.consts = {n: v for n, v in prog["consts"]}
        self.acts = []
        self.next = 0
        self.rank = None
        self.steps = 0

    def state(self):
        return copy.deepcopy((self.ents, self.blocks, self.obs, self.v,
                              self.groups))

    def load(self, s):
        self.ents, self.blocks, self.obs, self.v, self.groups = \
            copy.deepcopy(s)

    # values
    def id_of(self, ref, env):
        return env[ref] if ref in env else self.v[ref]

    def look(self, env):
        def f(ref):
            e = self.ents.get(self.id_of(ref, env))
            return e and geo.At(e.pos, e.rot, e.dim)
        return f

    def val(self, v):
        if v[0] == "name":
            return self.consts[v[1]]
        return v

    def deref(self, v):
        while v[0] == "name":
            v = self.consts[v[1]]
        return v[1]

    def place(self, v, env):
        return geo.place(self.deref(v), geo.At(), self.look(env))

    def targets(self, t, env):
        if t[0] == "g":
            ids = [i for i in self.groups[t[1]] if i in self.ents]
        else:
            i = self.id_of(t[1], env)
            ids = [i] if i in self.ents else []
        return sorted(ids)

    def blockpos(self, p):
        out = []
        for v in p:
            n = round(v)
            if abs(v - n) < 1e-4 and v != n:
                raise Cut
            out.append(int(math.floor(v)))
        return tuple(out)

    def block(self, v):
        st = {}
        for a, b in (v[2] or {}).items():
            st[a] = ("true" if b else "false") if isinstance(b, bool) else \
                str(b) if isinstance(b, int) else '"%s"' % b
        return bare(v[1]), st

    def at(self, dim, p):
        return self.blocks.get((dim,) + tuple(p), ("air", {}))

    def is_(self, dim, p, b):
        have = self.at(dim, p)
        return have[0] == b[0] and all(have[1].get(k) == x
                                       for k, x in b[1].items())

    def put(self, dim, p, b):
        if b[0] == "air":
            self.blocks.pop((dim,) + tuple(p), None)
        else:
            self.blocks[(dim,) + tuple(p)] = (b[0], dict(b[1]))

    def box(self, at, off):
        """The blocks of the area from `at` to the end of the offset."""
        a = self.blockpos(at.pos)
        b = self.blockpos(geo.off_apply(self.deref(off), at))
        lo = tuple(map(min, a, b))
        hi = tuple(map(max, a, b))
        n = 1
        for x, y in zip(lo, hi):
            n *= y - x + 1
        if n > 6000:
            raise Cut
        return lo, hi, [(x, y, z) for x in range(lo[0], hi[0] + 1)
                        for y in range(lo[1], hi[1] + 1)
                        for z in range(lo[2], hi[2] + 1)]

    def args(self, s, names, defaults):
        """{parameter: argument} of a call"""
        a = dict(zip(names, s[2]))
        a.update(s[3])
        for n, d in defaults.items():
            a.setdefault(n, ["lit", d])
        return a

    # tests
    def test(self, s, env):
        f = s[1]
        if f == "is_entity":
            i = self.id_of(s[2][0][1], env)
            return i in self.ents and self.passes(self.ents[i], s[2][1])
        at = self.place(s[2][0], env)
        if at is None:
            return False
        if f == "is_block":
            return self.is_(at.dim, self.blockpos(at.pos),
                            self.block(s[2][1]))
        air = s[3].get("ignore_air", ["lit", False])[1]
        lo, hi, ps = self.box(at, s[2][1])
        d = self.blockpos(geo.off_apply(self.deref(s[2][2]), at))
        for p in ps:
            b = self.at(at.dim, p)
            if air and b[0] == "air":
                continue
            if self.at(at.dim, tuple(x - y + z for x, y, z in zip(
                    p, lo, d))) != b:
                return False
        return True

    def passes(self, e, filt):
        for n, x in filt[1]:
            ok = {"has_tag": lambda: x in e.tags,
                  "has_no_tag": lambda: x not in e.tags,
                  "is_type": lambda: e.type == x,
                  "is_not_type": lambda: e.type != x}[n]()
            if not ok:
                return False
        return True

    # actions
    def do(self, s, env):
        f = s[1]
        m = getattr(self, "f_" + f, None)
        if m is not None:
            m(s, env)
        else:
            self.opaque(s, env)

    def f_setblock(self, s, env):
        at = self.place(s[2][0], env)
        if at is None:
            return
        p = self.blockpos(at.pos)
        mode = s[3].get("replacement", ["lit", "all"])[1]
        if mode == "aironly" and self.at(at.dim, p)[0] != "air":
            return
        b = self.block(s[2][1])
        self.put(at.dim, p, b)
        self.acts.append(["setblock", at.dim, p, b[0], mode])

    def f_fill(self, s, env, replaces=None):
        at = self.place(s[2][0], env)
        if at is None:
            return
        lo, hi, ps = self.box(at, s[2][1])
        b = self.block(s[2][2])
        mode = s[3].get("replacement", ["lit", "all"])[1]
        self.acts.append(["fill", at.dim, lo, hi, b[0], mode,
                          replaces and replaces[0]])
        for p in ps:
            edge = any(x in (y, z) for x, y, z in zip(p, lo, hi))
            if mode == "aironly" and self.at(at.dim, p)[0] != "air":
                continue
            if replaces and not self.is_(at.dim, p, replaces):
                continue
            if mode in ("hollow", "outline") and not edge:
                if mode == "hollow":
                    self.put(at.dim, p, ("air", {}))
                continue
            self.put(at.dim, p, b)

    def f_fill_replace(self, s, env):
        self.f_fill(s, env, self.block(s[2][3]))

    def f_clone(self, s, env, only=None):
        at = self.place(s[2][0], env)
        if at is None:
            return
        lo, hi, ps = self.box(at, s[2][1])
        d = self.blockpos(geo.off_apply(self.deref(s[2][2]), at))
        mode = s[3].get("mode", ["lit", "normal"])[1]
        air = s[3].get("no_air", ["lit", False])[1]
        self.acts.append(["clone", at.dim, lo, hi, d,
                          "filtered" if only else "masked" if air
                          else "replace", mode, only and only[0]])
        take = {}
        for p in ps:
            b = self.at(at.dim, p)
            if air and b[0] == "air" or only and not self.is_(
                    at.dim, p, only):
                continue
            take[p] = b
        if mode == "move":
            for p in take:
                self.put(at.dim, p, ("air", {}))
        for p, b in take.items():
            self.put(at.dim, tuple(x - y + z for x, y, z in zip(p, lo, d)),
                     b)

    def f_clone_only(self, s, env):
        self.f_clone(s, env, self.block(s[2][3]))

    def f_tp(self, s, env):
        at = self.place(s[2][1], env)
        if at is None:
            return
        for i in self.targets(s[2][0], env):
            e = self.ents[i]
            e.pos, e.dim = at.pos, at.dim

    def f_rotate(self, s, env):
        ids = self.targets(s[2][0], env)
        r = self.deref(s[2][1])
        if len(ids) > 1 and r[0][0] != "abs" and \
                self.id_of(r[0][1], env) in ids:
            raise Cut           # which one turns first?
        for i in ids:
            e = self.ents[i]
            at = geo.rot_apply(r, geo.At(e.pos, e.rot, e.dim),
                               self.look(env))
            if at is not None:
                if r[0][0] == "face":
                    o = self.look(env)(r[0][1])
                    if sum((a - b) ** 2 for a, b in zip(
                            o.pos, e.pos)) < 1e-6 or o.dim != e.dim:
                        raise Cut
                e.rot = at.rot

    def f_move(self, s, env):
        for i in self.targets(s[2][0], env):
            e = self.ents[i]
            e.pos = tuple(v + s[3].get(n, ["lit", 0.0])[1]
                          for n, v in zip("xyz", e.pos))

    def f_move_local(self, s, env):
        for i in self.targets(s[2][0], env):
            e = self.ents[i]
            e.pos = geo.to_local(geo.At(e.pos, e.rot, e.dim), *(
                s[3].get(n, ["lit", 0.0])[1]
                for n in ("left", "up", "front")))

    def f_summon(self, s, env):
        at = self.place(s[2][1], env)
        if at is None:
            return
        rot = (0.0, 0.0)
        if "rot" in s[3]:
            r = geo.rot_apply(self.deref(s[3]["rot"]), at, self.look(env))
            if r is None:
                return
            rot = r.rot
            b = self.deref(s[3]["rot"])[0]
            if b[0] == "face":
                o = self.look(env)(b[1])
                if sum((x - y) ** 2 for x, y in zip(
                        o.pos, at.pos)) < 9 or o.dim != at.dim:
                    raise Cut   # (facing a very near point)
        t = bare(s[2][0][1])
        self.spawn(t, at.pos, rot, at.dim, s[3].get("name", [0, None])[1],
                   s[3].get("event", [0, "*"])[1])

    def spawn(self, t, pos, rot=(0.0, 0.0), dim="overworld", name=None,
              event="*"):
        i = self.next
        self.next += 1
        self.ents[i] = Ent(t, pos, rot, dim)
        self.acts.append(["summon", i, t, name, event])
        return i

    def f_tag_add(self, s, env):
        for i in self.targets(s[2][0], env):
            self.ents[i].tags.add(s[2][1][1])

    def f_tag_remove(self, s, env):
        for i in self.targets(s[2][0], env):
            self.ents[i].tags.discard(s[2][1][1])

    def f_kill(self, s, env):
        for i in self.targets(s[2][0], env):
            self.acts.append(["kill", i])
            if self.ents[i].type != "player":
                del self.ents[i]

    def f_msg_me(self, s, env):
        w = self.targets(s[2][0], env)
        if w:
            self.acts.append([s[1][4:], s[2][1][1], w[0]])

    f_msg_say = f_msg_me

    def f_msg_tell(self, s, env):
        w = self.targets(s[2][0], env)
        if w:
            self.acts.append(["msg", s[2][2][1], w[0],
                              self.targets(s[2][1], env)])

    def opaque(self, s, env):
        """Commands whose effect is left to the game: what it is told."""
        f, a, kw = s[1], s[2], s[3]

        def k(n, d=None):
            return kw[n][1] if n in kw else d

        def sel(t, player=False):
            ids = self.targets(t, env)
            if player:
                ids = [i for i in ids if self.ents[i].type == "player"]
            return ["@", ids]

        def tf(b):
            return "true" if b else "false"

        def item(v, n):
            d = v[2] or {}
            c = {}
            if d.get("can_destroy"):
                c["minecraft:can_destroy"] = {"blocks": d["can_destroy"]}
            if d.get("can_place_on"):
                c["minecraft:can_place_on"] = {"blocks": d["can_place_on"]}
            if d.get("keep_on_death"):
                c["minecraft:keep_on_death"] = {}
            if d.get("lock"):
                c["minecraft:item_lock"] = {"mode": d["lock"]}
            return [v[1], n, d.get("data", 0)] + ([c] if c else [])

        t = None
        if a and a[0][0] in ("e", "g"):
            t = sel(a[0], f in PLAYER_FNS)
        if f == "damage":
            c = ["damage", t, a[1][1]]
            if "cause" in kw:
                c.append(k("cause"))
            if "damager" in kw:
                c += ["entity", sel(kw["damager"])]
        elif f == "effect_give":
            c = ["effect", t, a[1][1], a[2][1], k("amplifier", 0),
                 tf(not k("particle", True))]
        elif f == "effect_clear":
            c = ["effect", t, "clear"]
        elif f == "enchant":
            c = ["enchant", t, a[1][1], k("level", 1)]
        elif f == "event_entity":
            c = ["event", "entity", t, a[1][1]]
        elif f == "replaceitem_block":
            at = self.place(a[0], env)
            if at is None:
                return
            c = ["replaceitem", "block", list(at.pos), "slot.container",
                 a[1][1], "keep" if k("keep_old") else "destroy"] + \
                item(a[2], k("amount", 1))
        elif f == "replaceitem_entity":
            c = ["replaceitem", "entity", t, a[1][1], a[2][1],
                 "keep" if k("keep_old") else "destroy"] + \
                item(a[3], k("amount", 1))
        elif f == "ride_start_tp_ride":
            c = ["ride", t, "start_riding", sel(a[1]), "teleport_ride"]
        elif f == "ride_start_tp_rider":
            c = ["ride", t, "start_riding", sel(a[1]), "teleport_rider",
                 k("fill", "until_full")]
        elif f == "ride_stop":
            c = ["ride", t, "stop_riding"]
        elif f == "ride_evict_riders":
            c = ["ride", t, "evict_riders"]
        elif f in ("summon_rider", "summon_ride"):
            c = ["ride", t, f, a[1][1]]
            if f == "summon_ride":
                c.append(k("mode", "reassign_rides"))
            c.append(k("event", "*"))
            if "name" in kw:
                c.append(k("name"))
        elif f == "spread":
            at = self.place(a[1], env)
            if at is None:
                return
            c = ["spreadplayers", [at.pos[0], at.pos[2]],
                 k("interval", 0.0), a[2][1], t]
        elif f == "kick":
            c = ["kick", a[0][1]] + k("reason", "").split()
        elif f == "ability":
            c = ["ability", t, a[1][1], tf(a[2][1])]
        elif f == "clear_inventory":
            c = ["clear", t]
        elif f == "clear":
            c = ["clear", t, a[1][1], k("item_data", -1),
                 k("max_count", -1)]
        elif f == "spawnpoint_clear":
            c = ["clearspawnpoint", t]
        elif f == "gamemode":
            c = ["gamemode", a[1][1], t]
        elif f == "give":
            c = ["give", t] + item(a[1], k("amount", 1))
        elif f == "recipe":
            c = ["recipe", "give" if a[2][1] else "take", t, a[1][1]]
        elif f == "spawnpoint_set":
            at = self.place(a[1], env)
            if at is None:
                return
            c = ["spawnpoint", t, list(at.pos)]
        elif f == "xp_add_levels":
            c = ["xp", "%dL" % a[1][1], t]
        elif f == "xp_add_points":
            c = ["xp", a[1][1], t]
        else:
            raise KeyError(f)
        self.acts.append(["cmd", c])

    # statements
    def run(self, body, env):
        self.steps += 1
        if self.steps > 400:
            raise Cut
        for s in body:
            k = s[0]
            if k == "do":
                self.do(s, env)
            elif k == "test":
                x = self.test(s[2], env)
                self.obs[s[1]] = int(x)
                self.acts.append(["test", s[2][1]])
            elif k == "if":
                self.run(s[2] if self.obs.get(s[1], 0) == 1 else s[3], env)
            elif k == "each":
                ids = [i for i in self.groups[s[2]] if i in self.ents]
                for i in sorted(ids, key=self.rank):
                    self.run(s[3], dict(env, **{s[1]: i}))
            elif k == "call":
                f = [f for f in self.p["fns"] if f["name"] == s[1]][0]
                self.run(f["body"], {"p": self.id_of(s[2], env)})
            elif k == "meth":
                i = self.id_of(s[1], env)
                j = self.id_of(s[2], env)
                if i not in self.ents:
                    raise Cut       # (a method of an entity that is gone)
                self.run(self.p["method"], {"self": i, "q": j})
            elif k == "assign":
                self.v[s[1]] = self.id_of(s[2], env)
            elif k == "refill":
                if s[2]:
                    self.groups[s[1]] = set()
                self.groups[s[1]] |= {i for i, e in self.ents.items()
                                      if self.passes(e, s[3])}
            elif k == "gadd":
                i = self.id_of(s[2], env)
                if s[1] == "add":
                    self.groups["mobs"].add(i)
                else:
                    self.groups["mobs"].discard(i)

    def main(self):
        for n in ("a0", "a1"):
            self.v[n] = self.spawn("armor_stand", (0.5, 1.0, -2.5))
        self.groups = {"grp": set(), "ext": {
            i for i, e in self.ents.items() if "band" in e.tags},
            "mobs": {self.v["a0"], self.v["a1"]}}
        self.obs = {"t0": 0, "t1": 0, "t2": 0}
        self.v["m0"] = self.spawn("armor_stand", (0.5, 1.0, -2.5))
        self.run(self.p["main"], {})


# ------------------------------------------------------------ comparison

def tokens(text):
    """A logged command -> tokens like those of Model.opaque"""
    out = []
    if " {" in text:
        i = text.index(" {")
        return tokens(text[:i]) + [json.loads(text[i + 1:])]
    for t in re.findall(r'"[^"]*"|@\{[^}]*\}|\([^)]*\)|\S+', text):
        if t.startswith("@{"):
            out.append(["@", [int(x) for x in t[2:-1].split(",") if x]])
        elif t[0] == "(":
            out.append([float(x) for x in t[1:-1].split(",")])
        elif t[0] == '"':
            out.append(t[1:-1])
        else:
            out.append(t)
    return out


def tok_same(a, b):
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        try:
            return abs(float(a) - b) < 1e-3
        except (TypeError, ValueError):
            return False
    if isinstance(b, list) and b and isinstance(b[0], float):
        return isinstance(a, list) and len(a) == len(b) and all(
            isinstance(x, float) and abs(x - y) < 2e-3
            for x, y in zip(a, b))
    return a == b


MODES = {"keep": "aironly", "replace": "all"}


def happened(log):
    """What the world was told, in the form of Model.acts"""
    out = []
    for x in log:
        k = x[0]
        if k == "kill":
            out.append(["kill", x[1]])
        elif k == "summon":
            out.append(["summon", x[1], x[2], x[3], x[4]])
        elif k == "setblock":
            out.append([k, x[1], tuple(x[2]), x[3], MODES.get(x[5], x[5])])
        elif k == "fill":
            out.append([k, x[1], tuple(x[2]), tuple(x[3]), x[4],
                        MODES.get(x[6], x[6]), x[7]])
        elif k == "clone":
            out.append([k, x[1], tuple(x[2]), tuple(x[3]), tuple(x[4]),
                        x[5], x[6], x[7]])
        elif k in ("me", "say"):
            out.append([k, x[1], x[2]])
        elif k == "msg":
            out.append([k, x[1], x[2], list(x[3])])
        elif k == "cmd":
            out.append([k, tokens(x[1])])
        else:
            out.append(["?", x])
    return out


def idle(a):
    """Nobody is addressed."""
    if a[0] == "msg":
        return not a[3]
    return a[0] == "test" or a[0] == "cmd" and any(
        isinstance(t, list) and t[:1] == ["@"] and not t[1] for t in a[1])


def groups(acts):
    """Kills by one command come in any order."""
    out = []
    for a in acts:
        if idle(a):
            continue
        if a[0] == "kill" and out and out[-1][0] == "kill":
            out[-1] = ["kill"] + sorted(out[-1][1:] + a[1:])
        else:
            out.append(list(a))
    return out


def act_same(a, b):
    if a[0] == "cmd" and b[0] == "cmd":
        return len(a[1]) == len(b[1]) and all(map(tok_same, a[1], b[1]))
    return a == b


def turn(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def compare(out, ev, w, m, log):
    got, want = groups(happened(log)), groups(m.acts)
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else None
        b = want[i] if i < len(want) else None
        if a is None or b is None or not act_same(a, b):
            out.fail("action", "after %r: action %d is %r, expected %r"
                     % (ev, i, a, b), "%s/%s" % (
                         a and (a[1][0] if a[0] == "cmd" else a[0]),
                         b and (b[1][0] if b[0] == "cmd" else b[0])))
            return
    if set(w.ents) != set(m.ents):
        out.fail("entities", "after %r: the entities are %r, expected %r"
                 % (ev, sorted(w.ents), sorted(m.ents)))
        return
    for i, e in sorted(m.ents.items()):
        g = w.ents[i]
        if max(abs(a - b) for a, b in zip(g.pos, e.pos)) > 2e-3:
            out.fail("position", "after %r: entity %d is at %r, expected %r"
                     % (ev, i, g.pos, e.pos))
            return
        if g.dim != e.dim:
            out.fail("dimension", "after %r: entity %d is in %s, expected "
                     "%s" % (ev, i, g.dim, e.dim))
            return
        if turn(g.rot[0], e.rot[0]) > 2e-2 or \
                turn(g.rot[1], e.rot[1]) > 2e-2:
            out.fail("rotation", "after %r: entity %d is turned %r, "
                     "expected %r" % (ev, i, g.rot, e.rot))
            return
        t = {x for x in g.tags if x in TAGS or x == "band"}
        if t != e.tags:
            out.fail("tags", "after %r: entity %d has the tags %r, expected "
                     "%r" % (ev, i, sorted(t), sorted(e.tags)))
            return
    gb = {k: (b[0], dict(b[1])) for k, b in w.blocks.items()}
    if gb != m.blocks:
        bad = sorted(k for k in set(gb) | set(m.blocks)
                     if gb.get(k) != m.blocks.get(k))[0]
        out.fail("blocks", "after %r: block %r is %r, expected %r" % (
            ev, bad, gb.get(bad), m.blocks.get(bad)))
        return
    for n, v in m.obs.items():
        if w.obj["obs"].get(n) != v:
            out.fail("test", "after %r: %s is %r, expected %r" % (
                ev, n, w.obj["obs"].get(n), v))
            return


STATE = re.compile(r'\["[^"]*"([=:])')
TURNED = re.compile(r"^(?:execute .* run )?summon \S+( [~^]?-?[\d.]*){5}( |$)")


def dialect(out, files, cfg):
    """Block states and summon rotations as the game version takes them."""
    v = tuple(cfg.get("mc_version", (1, 20, 20)))
    eq = "=" if v >= (1, 20, 10) else ":"
    for name, text in sorted(files.items()):
        for t in text.splitlines():
            if any(x != eq for x in STATE.findall(t)) or \
                    v < (1, 19, 70) and TURNED.match(t):
                out.fail("dialect", "%s: not a command of version %s: %r"
                         % (name, ".".join(map(str, v)), t))
                return


def run_case(case):
    out = Outcome()
    prog, cfg = case["prog"], case["config"]
    try:
        src = {"main.aca": render(prog)}
    except (KeyError, IndexError, ValueError, TypeError):
        out.discard = "not a program"
        return out
    res = simrun.compile_or_fail(out, src, cfg)
    if res is None:
        return out
    dialect(out, res.files, cfg)
    w = simrun.new_world(case["seed"], res, {"obs": {}})
    m = Model(prog)

    def outside(t, pos, band):
        e = w.spawn(t, pos=pos)
        if band:
            e.tags["band"] = 1
        m.ents[e.id] = Ent(t, e.pos, tags=["band"] if band else [])

    for j in range(case["players"]):
        outside("player", (j * 2.5, 64, -j), j != 1)
    outside("cow", (3.5, 2, 1.25), True)
    outside("cow", (-3, 2, 4), False)
    init = simrun.fn_path(cfg, cfg.get("init_file", "init")) \
        if cfg.get("split_init") else None
    ready = False
    saved = None
    total = 0
    sig = []
    m.rank = w.rand_stream.rank
    for ev in case["events"]:
        k = ev[0]
        n0 = len(w.log)
        m.acts = []
        m.steps = 0
        m.next = w.next_ent
        w.rand_stream.next()
        e = None
        if k in ("kill", "move", "tag"):
            ids = sorted(w.ents)
            if not ids:
                continue
            e = w.ents[ids[ev[1] % len(ids)]]
        try:
            if k == "main":
                m.main()
                ready = True
            elif k == "if":
                b = [b for n, b in prog["ifaces"] if n == ev[1]]
                if not ready or not b:
                    continue
                m.run(b[0], {})
        except Cut:
            out.count("histories_cut")
            break
        except (KeyError, IndexError, TypeError):
            if case.get("shrunk"):
                out.discard = "not a program"
                return out
            raise
        if k == "main":
            if init:
                w.run_function(init)
            simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file",
                                                            "main")))
        elif k == "if":
            simrun.enter(out, w, simrun.fn_path(cfg, ev[1]))
        elif k == "restart":
            w.restore(w.snapshot())
            out.fault("restart")
        elif k == "save":
            saved = (w.snapshot(), m.state(), ready)
        elif k == "crash" and saved:
            w.restore(saved[0])
            m.load(saved[1])
            ready = saved[2]
            out.fault("crash_rollback")
        elif k == "kill":
            if not e.is_player:
                w.despawn(e.id)
                del m.ents[e.id]
                out.fault("entity_killed")
        elif k == "move":
            x = m.ents[e.id]
            e.pos = x.pos = tuple(ev[2])
            e.rot = x.rot = tuple(map(float, ev[3]))
            e.dim = x.dim = ev[4]
            out.fault("entity_moved")
        elif k == "tag":
            if ev[2] in e.tags:
                del e.tags[ev[2]]
                m.ents[e.id].tags.discard(ev[2])
            else:
                e.tags[ev[2]] = 1
                m.ents[e.id].tags.add(ev[2])
            out.fault("tag_changed")
        elif k == "block":
            for x in (w, m):
                x.put("overworld", ev[1], (ev[2], {}))
            out.fault("block_changed")
        elif k == "spawn":
            outside(ev[1], (1.5, 70.0, 2.0), ev[2])
            out.fault("entity_spawned")
        if w.problems:
            out.fail("problem", "%r: %r" % (ev, w.problems[0]),
                     "%s" % (w.problems[0][0],))
            break
        compare(out, ev, w, m, w.log[n0:])
        total += len(m.acts)
        for x in m.acts:
            out.count("acts_" + (x[1] if x[0] == "test" else x[0]))
        sig.append(happened(w.log[n0:]))
        sig.append(sorted(m.obs.items()))
        if out.violation:
            break
    out.count("commands", w.ncmds)
    out.count("actions_compared", total)
    out.nontrivial = total >= 4
    out.sigs = [digest(sig)]
    out.trace = digest(w.log, w.blocks)
    out.sample = {"main.aca": src["main.aca"][:1800],
                  "events": case["events"]}
    return out


# ------------------------------------------------------------ shrinking

def cuts(b):
    n = len(b)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield b[:i] + b[i + size:]
        size //= 2


def sh_body(b):
    yield from cuts(b)
    for i, s in enumerate(b):
        for x in sh_stmt(s):
            yield b[:i] + x + b[i + 1:]


def sh_val(v):
    if v[0] in ("pos", "off", "rot"):
        for i in range(len(v[1]) - 1, 0, -1):
            yield [v[0], v[1][:i] + v[1][i + 1:]]
        for i, x in enumerate(v[1]):
            for j, y in enumerate(x):
                if isinstance(y, (int, float)) and y:
                    yield [v[0], v[1][:i] + [x[:j] + [0] + x[j + 1:]]
                           + v[1][i + 1:]]
        if v[0] == "pos" and v[1] != [["abs", 0, 0, 0]]:
            yield ["pos", [["abs", 0, 0, 0]]]
        if v[0] == "off" and v[1] != [["pos3", 1]]:
            yield ["off", [["pos3", 1]]]


def sh_stmt(s):
    k = s[0]
    if k == "do":
        for n in s[3]:
            yield [s[:3] + [{a: b for a, b in s[3].items() if a != n}]]
        for i, v in enumerate(s[2]):
            for y in sh_val(v):
                yield [["do", s[1], s[2][:i] + [y] + s[2][i + 1:], s[3]]]
        for n, v in s[3].items():
            for y in sh_val(v):
                yield [["do", s[1], s[2], dict(s[3], **{n: y})]]
    elif k == "test":
        for y in sh_stmt(s[2]):
            yield [["test", s[1], y[0], s[3]]]
        if s[3] != "if":
            yield [["test", s[1], s[2], "if"]]
    elif k == "if":
        yield s[2]
        yield s[3]
        for j in (2, 3):
            for y in sh_body(s[j]):
                yield [s[:j] + [y] + s[j + 1:]]
    elif k == "each":
        for y in sh_body(s[3]):
            yield [s[:3] + [y]]


def shrinks(case):
    case = dict(case, shrunk=True)
    yield from simrun.shrink_events(case)
    yield from simrun.shrink_config(case)
    p = case["prog"]

    def put(**kw):
        return dict(case, prog=dict(p, **kw))
    for b in sh_body(p["main"]):
        yield put(main=b)
    for i, (n, b) in enumerate(p["ifaces"]):
        yield put(ifaces=p["ifaces"][:i] + p["ifaces"][i + 1:])
        for x in sh_body(b):
            yield put(ifaces=p["ifaces"][:i] + [[n, x]]
                      + p["ifaces"][i + 1:])
    for i, f in enumerate(p["fns"]):
        yield put(fns=p["fns"][:i] + p["fns"][i + 1:])
        for x in sh_body(f["body"]):
            yield put(fns=p["fns"][:i] + [dict(f, body=x)]
                      + p["fns"][i + 1:])
    for b in sh_body(p["method"]):
        yield put(method=b)
    for b in cuts(p["consts"]):
        yield put(consts=b)
    for i, (n, v) in enumerate(p["consts"]):
        for y in sh_val(v):
            yield put(consts=p["consts"][:i] + [[n, y]]
                      + p["consts"][i + 1:])
    if p["qual"]:
        yield put(qual="")
    if case["players"] > 1:
        yield dict(case, players=1)


def describe(case):
    return {"sources": {"main.aca": render(case["prog"])},
            "events": case["events"], "config": case["config"]}
