"""Statements that use everything with anything: mostly wrong programs, which
have to be refused with an error that names the place."""

PRELUDE = '''\
import world
import print
import math
import schedule
import print as pr2
from math import randint
i := 3
j := 4
b := True
const fl = 1.5
const n = None
const s = "text"
const L = {1, 2, 3}
const L2 = {"a", True, 1.5, {1}}
const L0 = {}
const m = {"a": 1, "b": 2}
const m2 = {1: "x", True: 3}
const p = Pos(1, 2, 3)
const o = Offset(x=1.5)
const ap = AbsPos(1, 2, 3)
const r = Rot(10, 20)
const flt = Enfilter().is_type("cow")
const fs = print.format("%0 %{k}", i, k=b)
struct S:
    x: int
    y: bool
struct T extends S:
    s: S
sv := S(x=1)
tv := T(x=2)
entity A:
    f: int
    g: S
    def me(x: int) -> int:
        self.f = x
        result x
    virtual def vm(x: int) -> bool:
        result x > self.f
    inline def im(const c, &q: int, z: int) -> const int:
        q = z
        result c
    static def sm() -> int:
        result 3
    static const def sc(x):
        result x
    new():
        new(type="pig", pos=p)
entity B extends A:
    h: bool
    override def vm(x: int) -> bool:
        result False
    new(x: int):
        new(type="cow", pos=p)
        self.f = x
ea := A()
eb := B(3)
any: Entity
ge := Engroup[A]()
gg := Engroup[Entity]()
&xg = ExternEngroup()
def fn(x: int, y=3) -> int:
    result x + y
def f0():
    i = 1
inline def fi(const c, &q: int, z: int) -> int:
    q += z
    result q
const def cf(x, y=1):
    result x
const tk = schedule.Task(f0)
'''

ATOMS = ("i j b fl n s L L2 L0 m m2 p o ap r flt fs S T sv tv A B ea eb any "
         "ge gg xg fn f0 fi cf tk world print math schedule int bool float "
         "Pos Rot Offset Engroup Enfilter list map AbsPos Any ExternEngroup "
         "Entity swap scb upcast self True False None").split()
LITERALS = ["0", "1", "-1", "2", "3", "7", "100", "2147483647", "-2147483648",
            "0.5", "-2.0", "0.0", "\"\"", "\"x\"", "\"a b\"", "\"%0\"",
            "\"cow\"", "\"stone\"", "\"xyz\"", "\"overworld\"", "\"eyes\"",
            "{}", "{1}", "{1, 2}", "{\"a\": 1}", "{1: {2: 3}}", "{i}",
            "{i: 1}", "()", "\"${i}\"", "\"${s}\"", "@s", "\"1..3\"",
            "{\"x\": True}", "\"\\u0041\"", "\"\\#(red)a\"", "{:}", "{,}"]
ATTRS = ("abs add after align all_players append apply cancel clear copy "
         "cycle dim distance_from drop evolve extend face_entity "
         "farthest_from filter from_keys geometric get has has_item "
         "has_no_permission has_no_tag has_permission has_schedule has_tag "
         "insert inside intersect is_empty is_game_mode is_name "
         "is_not_game_mode is_not_name is_not_type is_type keys level local "
         "nearest_from offset on_area_loaded on_circle_loaded on_tickingarea "
         "play pop random range remove repeat reverse rot_horizontal "
         "rot_vertical scores select set_default size slice stop subtract "
         "to_single update values absolute relative face_pos face "
         "resolve x y s f g h me vm im sm sc C __new__ _timer nope "
         "new").split()
OF = {
    "flt": "all_players distance_from farthest_from has_item "
           "has_no_permission has_no_tag has_permission has_tag inside "
           "is_game_mode is_name is_not_game_mode is_not_name is_not_type "
           "is_type level nearest_from random rot_horizontal rot_vertical "
           "scores",
    "ge": "add clear copy drop extend filter has intersect is_empty remove "
          "select size subtract to_single",
    "xg": "resolve", "int": "MAX MIN", "list": "range repeat geometric",
    "L": "copy cycle size slice", "L0": "copy cycle size slice",
    "L2": "copy cycle size slice", "m": "copy get has keys size values",
    "m2": "copy get has keys size values", "map": "from_keys",
    "p": "abs align apply dim local offset", "Pos": "local abs offset",
    "ap": "abs offset", "o": "abs local offset", "Offset": "abs local offset",
    "r": "abs face_entity offset", "Rot": "abs face_entity offset",
    "ea": "f g me vm im", "eb": "f g h me vm im", "A": "sm sc new me",
    "B": "sm sc new", "sv": "x y", "tv": "x y s", "self": "f g me vm",
    "tk": "after cancel has_schedule on_area_loaded on_circle_loaded "
          "on_tickingarea", "a0": "append extend insert pop reverse size "
          "slice copy update set_default clear get has keys values x",
    "t9": "append extend insert pop reverse size slice copy cycle",
    "t8": "update pop set_default clear get has keys values size copy",
}
OF["gg"] = OF["ge"]
OF = {k: v.split() for k, v in OF.items()}
MODS = {
    "world": "clone clone_only fill fill_replace setblock damage "
             "effect_give effect_clear enchant event_entity kill msg_me "
             "replaceitem_block replaceitem_entity ride_start_tp_ride "
             "ride_start_tp_rider ride_stop ride_evict_riders summon_rider "
             "summon_ride msg_say spread summon tag_add tag_remove "
             "msg_tell tp rotate move move_local ability clear_inventory "
             "clear spawnpoint_clear gamemode give kick recipe "
             "spawnpoint_set xp_add_levels xp_add_points is_block "
             "is_same_area is_entity Block Item ".split(),
    "print": "ACTIONBAR SUBTITLE TITLE format tell title title_clear "
             "translate with_font".split(),
    "math": "floordiv max min mod pow randint".split(),
    "schedule": "Task register_loop".split(),
}
KEYS = ("_pattern ability amount amplifier anchor axis b base block "
        "bold can_destroy can_place_on cause center channel_volume "
        "check_for_blocks chunk_size color damager data default delay "
        "dest duration dx dy dz effect enchantment ent entity event "
        "exp fade_in fade_out fill filter front gamemode horizontal i "
        "id ignore_air index instrument interval italic item "
        "item_data item_id keep_old keep_on_death key left length "
        "level limit listener location lock loop_interval looping max "
        "max_count message min mode name no_air note_offset "
        "obfuscated object objective offset origin other particle "
        "path player player_name pos quantity radius range ratio "
        "reason receiver recipe replacement replaces ride rider rot "
        "sender slot slot_num slot_type speed start states stay_time "
        "step stop tag target template text timer times type unlock "
        "up value values vertical volume x x_abs y y_abs z z_abs ").split()
BIN = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "and",
       "or", "in"]


class Wild:
    def __init__(self, rng):
        self.rng = rng

    def args(self, d):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4])):
            out.append(self.expr(d - 1))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append(rng.choice(KEYS) + "=" + self.expr(d - 1))
        if rng.random() < .03:
            rng.shuffle(out)
        return "(" + ", ".join(out) + ")"

    def name(self, d):
        rng = self.rng
        k = rng.random()
        if k < .22:
            mod = rng.choice(sorted(MODS))
            return mod + "." + rng.choice(MODS[mod])
        if k < .5:
            a = rng.choice(sorted(OF))
            return a + "." + rng.choice(OF[a])
        if k < .6:
            return self.atom() + "." + rng.choice(ATTRS)
        if k < .7 and d > 0:
            return self.prim(d - 1) + "." + rng.choice(ATTRS)
        return self.atom()

    def atom(self):
        return self.rng.choice(ATOMS)

    def prim(self, d):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < .35:
            return self.atom() if rng.random() < .65 \
                else rng.choice(LITERALS)
        if k < .65:
            return self.name(d) + self.args(d)
        if k < .72:
            return self.name(d)
        if k < .8:
            return self.prim(d - 1) + "[" + self.expr(d - 1) + "]"
        if k < .86:
            return "{" + ", ".join(self.expr(d - 1) for _ in range(
                rng.choice([0, 1, 2, 3]))) + "}"
        if k < .9:
            return "{" + ", ".join(
                self.expr(d - 1) + ": " + self.expr(d - 1)
                for _ in range(rng.choice([0, 1, 2]))) + "}"
        if k < .94:
            return "\"" + rng.choice(["", "a", "%0", "\\#(blue)", "%"]) \
                + "${" + self.expr(d - 1) + "}" \
                + rng.choice(["", "b", "%%"]) + "\""
        return "(" + self.expr(d - 1) + ")"

    def expr(self, d):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < .62:
            return self.prim(d)
        if k < .9:
            return self.prim(d - 1) + " " + rng.choice(BIN) + " " \
                + self.prim(d - 1)
        if k < .95:
            return rng.choice(["-", "not ", "+"]) + self.prim(d - 1)
        return self.prim(d - 1) + " < " + self.prim(d - 1) + " " \
            + rng.choice(["<", "<=", "==", "!=", ">"]) + " " \
            + self.prim(d - 1)

    def block(self, d):
        body = self.stmt(d - 1) if d > 0 else "pass"
        return "\n".join("    " + x for x in body.split("\n"))

    def types(self):
        rng = self.rng
        return rng.choice(["int", "bool", "A", "B", "S", "T", "Entity",
                           "Engroup[A]", "Engroup[Entity]", "Pos", "Rot",
                           "float", "list", "map", "Any", "Engroup",
                           self.expr(1)])

    def params(self):
        rng = self.rng
        out = []
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            out.append(rng.choice(["", "", "", "&", "const "]) + "a%d" % i
                       + rng.choice(["", ": " + self.types(),
                                     ": " + self.types(),
                                     "=" + self.expr(1),
                                     ": %s = %s" % (self.types(),
                                                    self.expr(1))]))
        return "(" + ", ".join(out) + ")"

    def result(self):
        rng = self.rng
        return rng.choice(["", "", " -> " + self.types(),
                           " -> const " + self.types(),
                           " -> &" + self.types(), " -> const", " -> &"])

    def stmt(self, d=2):
        rng = self.rng
        e = lambda: self.expr(rng.choice([1, 1, 2, 2, 3]))
        k = rng.randrange(26)
        v = "w%d" % rng.randrange(30)
        if k < 4:
            return self.name(2) + self.args(2)
        if k == 4:
            return e()
        if k == 5:
            return v + " := " + e()
        if k == 6:
            return "const %s = %s" % (v, e())
        if k == 7:
            return "&%s = %s" % (v, e())
        if k == 8:
            return "%s = %s" % (self.prim(1), e())
        if k in (9, 10):
            return "%s %s= %s" % (self.prim(1), rng.choice("+-*/%"), e())
        if k == 11:
            return "if %s:\n%s" % (e(), self.block(d))
        if k == 12:
            return "for %s in %s:\n%s" % (v, e(), self.block(d))
        if k == 13:
            return "/say ${%s}" % e()
        if k == 14:
            return "%s: %s" % (v, self.types()) + rng.choice(
                ["", " = " + e()])
        if k == 15:
            return "%sdef %s%s%s:\n%s\n%s%s" % (
                rng.choice(["", "", "inline ", "const "]), v, self.params(),
                self.result(), self.block(d),
                rng.choice(["    result %s\n" % e(), ""]),
                v + self.args(1))
        if k == 16:
            return "const def %s(a0, a1=2):\n%s\n    result %s\n" \
                "const %sr = %s(%s)" % (v, self.ctblock(), e(), v, v, e())
        if k == 17:
            return "struct %s%s:\n    x: %s\n    q: %s\n%sv := %s%s" % (
                v.upper(), rng.choice(["", " extends S", " extends T, S",
                                       " extends " + self.atom()]),
                self.types(), self.types(), v, v.upper(), self.args(1))
        if k == 18:
            return "entity %s%s:\n    %s\n%sv := %s%s" % (
                v.upper(), rng.choice(["", " extends A", " extends B",
                                       " extends A, B", " extends B, A",
                                       " extends " + self.atom()]),
                rng.choice([
                    "q: " + self.types(),
                    "const q = " + e(),
                    "def vm%s%s:\n        pass" % (self.params(),
                                                  self.result()),
                    "override def vm%s%s:\n        result %s" % (
                        self.params(), self.result(), e()),
                    "virtual %sdef z%s%s:\n        result %s" % (
                        rng.choice(["", "inline "]), self.params(),
                        self.result(), e()),
                    "override inline def vm%s%s:\n        result %s" % (
                        self.params(), self.result(), e()),
                    "static def q%s:\n        result %s" % (
                        self.params(), e()),
                    "new%s:\n        %s" % (self.params(), e()),
                    "inline new%s:\n        new%s" % (self.params(),
                                                      self.args(1)),
                    "new():\n        %s.new%s" % (self.atom(),
                                                  self.args(1)),
                ]), v, v.upper(), self.args(1))
        if k == 19:
            return "interface %s:\n%s" % (
                rng.choice([v, "a/b", "../x", "main", "tick", "_acacia/x",
                            "\"q r\"", "${s}", "\"%s\"" % v]),
                self.block(d))
        if k == 20:
            return "while %s:\n%s\n    i = i + 1" % (
                rng.choice(["i < 3", e()]), self.block(d))
        if k == 21:
            return rng.choice(["from %s import %s", "import %s as %s",
                               "from .%s import %s", "from %s import *%s"]) \
                % (rng.choice(["world", "print", "nope", "math", "A", "main"]),
                   rng.choice(["tell", "x9", "tp", "randint", "_x", "i"]))
        if k == 22:
            return rng.choice(["result " + e(), "new" + self.args(1),
                               "self." + rng.choice(ATTRS), "pass",
                               "&i = j", "const i = 3", "def i():\n    pass",
                               "swap(%s, %s)" % (e(), e()),
                               "upcast(%s, %s)" % (e(), self.atom()),
                               "scb(%s, %s)" % (e(), e())])
        if k == 23:
            return "def %s():\n%s\n%s()" % (v, self.block(d), v)
        if k == 24:
            return "/* say ${%s}\n ${%s} */" % (e(), e())
        return "inline def %s(const c):\n%s\n%s(%s)" % (
            v, self.block(d), v, e())

    def ctblock(self):
        rng = self.rng
        e = lambda: self.expr(rng.choice([1, 1, 2]))
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            out.append(rng.choice([
                lambda: "t := " + e(),
                lambda: "t%d := %s" % (rng.randrange(9), e()),
                lambda: "a0 = " + e(),
                lambda: "a0%s = %s" % (rng.choice(["[0]", ".x", "[a1]"]),
                                       e()),
                lambda: "a0.%s%s" % (rng.choice(OF["a0"]), self.args(1)),
                lambda: "L.%s%s" % (rng.choice(ATTRS), self.args(1)),
                lambda: "m.%s%s" % (rng.choice(ATTRS), self.args(1)),
                lambda: "t9 := {1, 2, \"x\"}\n    t9.%s%s" % (
                    rng.choice(OF["t9"]), self.args(1)),
                lambda: "t8 := {1: 2}\n    t8.%s%s" % (
                    rng.choice(OF["t8"]), self.args(1)),
                lambda: "a0 %s= %s" % (rng.choice("+-*/%"), e()),
                lambda: "if %s:\n        a0 = 1" % e(),
                lambda: "for x in %s:\n        a0 = x" % e(),
                lambda: "&t7 = " + e(),
                lambda: e(),
                lambda: "/say x",
                lambda: "def q():\n        pass",
                lambda: "const t6 = " + e(),
            ])())
        return "\n".join("    " + x for x in out)


def statements(rng, n):
    w = Wild(rng)
    return [w.stmt() for _ in range(n)]
