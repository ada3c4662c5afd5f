"""Compile a generated program, run a schedule of events on the simulated
world and on the reference interpreter, compare after every event."""

import copy
import random

from . import acabuild, lang
from .engine import Outcome, norm, digest
from .mcworld import World, Draws

BUDGET = 300000


def new_world(seed, res, obs, pop=(), objs=()):
    w = World(seed, budget=BUDGET, files=res.files, tick_json=res.tick)
    populate(w, pop)
    for o in objs:
        w.obj.setdefault(o, {})
    for o, t in obs.items():
        w.obj[o] = dict(t)
    w.obs_obj = "obs"
    return w


def populate(w, pop):
    """Entities that are there before the pack is loaded."""
    for d in pop:
        e = w.spawn(d["type"], name=d.get("name"), pos=d["pos"],
                    rot=d.get("rot", (0, 0)), dim=d.get("dim", "overworld"))
        e.tags = dict.fromkeys(d.get("tags", ()), 1)
        e.mode = d.get("mode", "survival")
        e.level = d.get("level", 0)
        e.items = [dict(x) for x in d.get("items", ())]
        e.perms = dict(d.get("perms", {}))
        for o, v in d.get("scores", {}).items():
            w.obj.setdefault(o, {})[e.id] = v


def marks(log):
    return [[x[1], x[3], x[2]] for x in log if x[0] == "mark"]


def compile_or_fail(out, sources, config, main="main.aca"):
    res = acabuild.compile_sources(sources, config, main=main)
    if not res.ok:
        out.fail("compile-" + res.kind,
                 "a valid program was refused: " + res.msg, norm(res.msg))
        return None
    return res


class Restart(Exception):
    pass


def fn_path(config, name):
    root = config.get("root_folder", "")
    return (root + "/" if root else "") + name


def enter(out, w, name):
    """A player runs an entry function.  The optimizer removes empty ones:
    running an absent function does nothing, so the comparison of effects
    still notices one that should have done something."""
    if name in w.funcs:
        w.run_function(name)
    else:
        out.count("absent_entry_functions")


def play(out, w, events, config, ref, on_event=None):
    """Events: ["main"], ["if", path], ["in", name, value], ["tick", n],
    ["restart"], ["save"], ["crash"].  Returns False when a discrepancy was
    recorded in `out`."""
    cfg = config
    init_done = False
    saved = None
    main = fn_path(cfg, cfg.get("main_file", "main"))
    init = fn_path(cfg, cfg.get("init_file", "init")) \
        if cfg.get("split_init") else None
    step = 0
    for ev in events:
        k = ev[0]
        n0, m0 = len(w.log), len(ref.log)
        w.rand_stream.next()
        ref.draws.next()
        if k == "main":
            if init and not init_done:
                w.run_function(init)
                init_done = True
            enter(out, w, main)
            ref.run_main()
            out.count("main_runs")
        elif k == "init":
            if init:
                w.run_function(init)
                init_done = True
                out.count("init_runs")
        elif k == "if":
            enter(out, w, fn_path(cfg, ev[1]))
            ref.run_iface(ev[1])
            out.count("interface_calls")
        elif k == "in":
            w.obj["obs"][ev[1]] = ev[2]
            ref.obs["obs"][ev[1]] = ev[2]
            out.fault("external_score_change")
        elif k == "tick":
            for _ in range(ev[1]):
                w.tick()
                ref.tick()
            out.count("ticks", ev[1])
        elif k in ("load", "unload"):
            for key in map(tuple, ev[1]):
                for x in (w, ref):
                    if k == "load":
                        x.chunks[key] = 1
                    else:
                        x.chunks.pop(key, None)
            out.count("areas_" + k + "ed")
        elif k == "ext":
            # something else in the world acts
            ref.external(ev, w)
            out.fault("external_" + ev[1])
        elif k == "trunc":
            # the game stops the function after so many commands
            name = init if ev[1] == "init" else main
            if init and not init_done and name != init:
                w.run_function(init)
                init_done = True
            if name in w.funcs:
                n = len(w.problems)
                w.run_function(name, budget=ev[2])
                w.problems[n:] = [p for p in w.problems[n:]
                                  if p[0] != "budget"]
                if ev[1] == "init":
                    init_done = False
            ref.forget()
            ref.obs.setdefault("obs", {}).clear()
            ref.obs["obs"].update(w.obj["obs"])
            m0, n0 = len(ref.log), len(w.log)
            out.fault("truncated_function")
        elif k == "save":
            saved = (w.snapshot(), ref.snapshot(), init_done)
        elif k == "restart":
            # orderly stop: everything durable is written, nothing else is
            w.restore(w.snapshot())
            ref.restarted()
            out.fault("restart")
        elif k == "crash":
            if saved is not None:
                w.restore(saved[0])
                ref.restore(saved[1])
                init_done = saved[2]
                out.fault("crash_rollback")
        step += 1
        if w.problems:
            out.fail("problem", "event %d %r: %r" % (step, ev,
                                                     w.problems[0]),
                     "%s" % (w.problems[0][0],))
            return False
        a, b = marks(w.log[n0:]), ref.log[m0:]
        if a != b:
            out.fail("marks", "event %d %r: observed %r, expected %r"
                     % (step, ev, diff_at(a, b)[0], diff_at(a, b)[1]))
            return False
        if w.obj.get("obs") != ref.obs.get("obs"):
            out.fail("scores", "after event %d %r: observed %r, expected %r"
                     % (step, ev, w.obj.get("obs"), ref.obs.get("obs")))
            return False
        bad = ref.compare(w)
        if bad:
            out.fail(bad[0], "after event %d %r: %s" % (step, ev, bad[1]))
            return False
        if on_event is not None:
            on_event(ev)
    return True


def diff_at(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "(nothing more)"
        y = b[i] if i < len(b) else "(nothing more)"
        if x != y:
            return x, y
    return None, None


def init_obs(case):
    t = {"o%d" % i: 0 for i in range(case.get("nout", 3))}
    t.update({"in%d" % i: v for i, v in enumerate(case.get("inputs", []))})
    return {"obs": t}


def make_ref(case, seed):
    cls = lang.INTERPS[case["prog"].get("lang", "")]
    return cls(case["prog"], init_obs(case), Draws(seed))


DEFAULT_CONFIG = {}


def random_config(rng):
    c = {}
    if rng.random() < .3:
        c["optimizer"] = False
    if rng.random() < .4:
        c["max_inline_file_size"] = rng.choice([0, 1, 2, 5, 1000])
    if rng.random() < .3:
        c["debug_comments"] = True
    if rng.random() < .3:
        c["root_folder"] = rng.choice(["pack", "a/b", "x_1"])
    if rng.random() < .2:
        c["internal_folder"] = rng.choice(["int", "_z"])
    if rng.random() < .2:
        c["main_file"] = rng.choice(["load", "start"])
    if rng.random() < .3:
        c["scoreboard"] = rng.choice(["acc", "Z9", "sb_"])
    if rng.random() < .2:
        c["entity_tag"] = rng.choice(["tg", "E_"])
    if rng.random() < .25:
        c["split_init"] = True
        if rng.random() < .5:
            c["init_file"] = "setup"
    if rng.random() < .2:
        c["mc_version"] = rng.choice([[1, 19, 50], [1, 19, 70], [1, 20, 0],
                                      [1, 20, 10], [1, 21, 0]])
    if rng.random() < .1:
        c["education_edition"] = True
    return c


def shrink_events(case, key="events"):
    ev = case[key]
    n = len(ev)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield dict(case, **{key: ev[:i] + ev[i + size:]})
        size //= 2


def shrink_config(case):
    for k in list(case.get("config", {})):
        c = dict(case["config"])
        del c[k]
        yield dict(case, config=c)


def copy_json(x):
    return copy.deepcopy(x)
