"""C09: state is durable and initialization is repeatable."""

from .. import lang, langcase, langgen, simrun
from ..engine import Outcome
from . import c08

ID = "C09"
QUICK = 8000
THOROUGH = 200000
RULE = ("a random program (one module as in C01, or a module graph as in "
        "C08), with and without a separately generated init file, in a world "
        "that also holds objectives, scores and tagged entities of others; a "
        "random history of init and main re-runs, interface calls, "
        "main or init runs cut off after any number of commands (followed "
        "by complete ones), restarts, crash rollbacks also to before the "
        "first initialization; scores and marks compared with the reference "
        "after every event, foreign data compared for equality; distinct = "
        "different sequence of marks and scores; non-trivial = at least two "
        "initializations and three observations")

FOREIGN = {"acacia": {"acacia1": 5, "acacia2": -7, "u": 1},
           "money": {"acacia1": 11, "Alex": 100, "$x": 3},
           "acaciax1": {"acacia1": 77}, "acc": {"acacia3": 4},
           "acacia_": {"acacia1": 1}, "sb": {"acacia1": 2},
           "Z9x": {"acacia2": 8}}


def gen_case(rng, index):
    if rng.random() < .6:
        g = langgen.Gen(rng, size=rng.choice([4, 8, 12]))
        prog = g.program()
        inputs = langcase.gen_inputs(rng, g)
    else:
        g = c08.ModGen(rng)
        prog = g.program()
        inputs = [rng.choice([0, 1, 2, 5]) for _ in range(2)]
    cfg = simrun.random_config(rng)
    if rng.random() < .6:
        cfg["split_init"] = True
        if rng.random() < .4:
            cfg["init_file"] = rng.choice(["setup", "start0"])
    # objectives of the pack must not be the foreign ones
    cfg["scoreboard"] = cfg.get("scoreboard", "acacia")
    events = []
    if rng.random() < .3:
        events += [["save"]]
    events.append(["main"])
    for _ in range(rng.randint(2, 9)):
        k = rng.random()
        if k < .3 and g.ifaces:
            events.append(["if", rng.choice(g.ifaces)])
        elif k < .4 and inputs:
            events.append(["in", "in%d" % rng.randrange(len(inputs)),
                           rng.choice(langcase.VALS)])
        elif k < .55:
            events.append(["main"])
        elif k < .68:
            events.append(["init"])
        elif k < .76:
            events.append(["restart"])
        elif k < .82:
            events.append(["save"])
        elif k < .9:
            events.append(["crash"])
            if rng.random() < .5:
                events += [["init"], ["main"]]
        else:
            what = rng.choice(["main", "main", "init"])
            events += [["trunc", what, rng.choice(
                [0, 1, 2, 3, 5, 8, 13, 20, 40, 80])], ["init"], ["main"]]
    if g.ifaces:
        events.append(["if", g.ifaces[-1]])
    return {"prog": prog, "events": events, "config": cfg,
            "inputs": inputs, "seed": rng.randrange(1 << 30)}


def foreign(w):
    return ({o: dict(w.obj.get(o, {})) for o in FOREIGN},
            {i: (e.type, sorted(e.tags), list(e.pos), list(e.rot))
             for i, e in w.ents.items()})


def run_case(case):
    out = Outcome()
    case = langcase.defined(out, case)
    if case is None:
        return out
    src = lang.render(case["prog"])
    cfg = case["config"]
    res = simrun.compile_or_fail(out, src, cfg)
    if res is None:
        return out
    ref = simrun.make_ref(case, case["seed"])
    w = simrun.new_world(case["seed"], res, simrun.init_obs(case))
    for o, t in FOREIGN.items():
        w.obj[o] = dict(t)
    w.spawn("pig").tags.update(user=1, acacia=1, acacia_x=1)
    w.spawn("player", name="Alex").tags.update(acaciaA=1)
    w.obj["money"][1] = 6       # a score held by an entity
    before = foreign(w)

    def look(ev):
        now = foreign(w)
        if now != before:
            d = [(k, before[i][k], now[i].get(k)) for i in (0, 1)
                 for k in before[i] if now[i].get(k) != before[i][k]]
            out.fail("foreign", "%r changed data of others: %r"
                     % (ev, d or sorted(set(now[1]) - set(before[1]))))
    try:
        simrun.play(out, w, case["events"], cfg, ref, on_event=look)
    except lang.Discard:
        # undefined from here on (values left by a truncated run)
        out.count("histories_cut")
    langcase.finish(out, case, w, ref, src)
    n = sum(e[0] in ("main", "init") for e in case["events"])
    out.nontrivial = n >= 2 and len(ref.log) >= 3
    return out


def shrinks(case):
    yield from langcase.shrinks(case)


describe = langcase.describe
