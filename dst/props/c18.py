"""C18: structs, lists and maps keep value semantics."""

import copy

from .. import conts, lang, simrun, vals
from ..engine import Outcome, digest

ID = "C18"
QUICK = 6000
THOROUGH = 150000
RULE = ("either a random program about structs (templates with several "
        "bases, nested structs, structs holding entities and entities "
        "holding structs; copies between a template and its base, "
        "constructors that read the variable they assign, swaps of "
        "overlapping paths, parameters, results, inline functions, "
        "references) run through a random history of main re-runs, "
        "interface calls, restarts and crash rollbacks in the simulated "
        "world and compared field by field with a model of plain nested "
        "dictionaries; or a random program of const functions and constants "
        "about lists and maps (every operation, aliases, nested containers, "
        "containers passed between functions), whose results the compiled "
        "pack says and a model of cells and containers predicts; distinct = "
        "different sequence of observed values; non-trivial = at least "
        "three observed values")
VALS = [0, 1, -1, 3, 9, 1000, 2147483647, -2147483648]


def gen_case(rng, index):
    if rng.random() < .35:
        return {"kind": "const", "prog": conts.Gen(rng).program(),
                "config": simrun.random_config(rng) if rng.random() < .2
                else {}, "seed": rng.randrange(1 << 30)}
    g = vals.Gen(rng)
    prog = g.program()
    events = [["main"], ["if", "dump/all"]]
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        if k < .5 and g.ifaces:
            events.append(["if", rng.choice(g.ifaces)])
        elif k < .6:
            events.append(["main"])
        elif k < .7:
            events.append(["restart"])
        elif k < .8:
            events.append(["save"])
        elif k < .9:
            events.append(["crash"])
        else:
            events.append(["in", rng.choice(VALS)])
    if len(events) > 2:
        events.append(["if", "dump/all"])
    return {"kind": "struct", "prog": prog, "events": events,
            "config": simrun.random_config(rng) if rng.random() < .3 else {},
            "seed": rng.randrange(1 << 30)}


def run_case(case):
    out = Outcome()
    if case["kind"] == "const":
        return conts.run(out, case)
    try:
        src = {"main.aca": vals.render(case["prog"])}
    except (KeyError, IndexError, TypeError):
        out.discard = "not a program"
        return out
    cfg = case["config"]
    # what the model says
    prog = case["prog"]
    obs = {"o0": 0}
    m = vals.Model(prog, obs)
    seen = []
    saved = None
    try:
        for ev in case["events"]:
            if ev[0] == "main":
                m.main()
            elif ev[0] == "if":
                if not m.ready or ev[1] not in m.ifaces:
                    out.discard = "not a program"
                    return out
                m.iface(ev[1])
            elif ev[0] == "in":
                obs["o0"] = ev[1]
            elif ev[0] == "save":
                saved = copy.deepcopy((m.vars, m.refs, obs, m.ready))
            elif ev[0] == "crash" and saved:
                m.vars, m.refs, o, m.ready = copy.deepcopy(saved)
                obs = m.obs = o
                # (references into the model's tables follow the copies)
                for s in m.refs.values():
                    pass
            seen.append(dict(obs))
    except lang.Discard as e:
        if not seen:
            out.discard = str(e)
            return out
        out.count("histories_cut")
    except (KeyError, IndexError, TypeError, AttributeError):
        if case.get("shrunk"):
            out.discard = "not a program"
            return out
        raise
    res = simrun.compile_or_fail(out, src, cfg)
    if res is None:
        return out
    w = simrun.new_world(case["seed"], res, {"obs": {"o0": 0}})
    w.spawn("player", name="Alex")
    shot = None
    init = simrun.fn_path(cfg, cfg.get("init_file", "init")) \
        if cfg.get("split_init") else None
    nobs = 0
    for ev, want in zip(case["events"], seen):
        if ev[0] == "main":
            if init:
                w.run_function(init)
            simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file",
                                                            "main")))
        elif ev[0] == "if":
            simrun.enter(out, w, simrun.fn_path(cfg, ev[1]))
            out.count("interface_calls")
        elif ev[0] == "in":
            w.obj["obs"]["o0"] = ev[1]
            out.fault("external_score_change")
        elif ev[0] == "restart":
            w.restore(w.snapshot())
            out.fault("restart")
        elif ev[0] == "save":
            shot = w.snapshot()
        elif ev[0] == "crash" and shot is not None:
            w.restore(shot)
            out.fault("crash_rollback")
        if w.problems:
            out.fail("problem", "%r: %r" % (ev, w.problems[0]),
                     "%s" % (w.problems[0][0],))
            break
        got = w.obj["obs"]
        bad = [(k, got.get(k), v) for k, v in want.items()
               if v not in ("?", None) and got.get(k) != v]
        nobs += len(want)
        if bad:
            k, g, v = bad[0]
            what = k
            if k.startswith("d"):
                d = [s for s in prog["body"] if s[0] == "iface"
                     and s[1] == "dump/all"][0][2][0][1]
                what = vals.Render(prog).e(d[int(k[1:])])
            out.fail("values", "after %r: %s is %r, expected %r"
                     % (ev, what, g, v))
            break
    out.count("commands", w.ncmds)
    out.count("values_compared", nobs)
    out.count("struct_programs")
    out.count("ticks_simulated", w.tickno)
    for s in src.values():
        out.count("source_lines", s.count("\n"))
    out.sigs = [digest(seen)]
    out.nontrivial = nobs >= 3
    out.trace = digest(w.log, w.obj)
    out.sample = {"main.aca": src["main.aca"][:1500],
                  "events": case["events"]}
    return out


def shrink_body(b):
    """Smaller versions of a block of statements."""
    n = len(b)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield b[:i] + b[i + size:]
        size //= 2
    for i, s in enumerate(b):
        for x in shrink_stmt(s):
            yield b[:i] + x + b[i + 1:]


def shrink_stmt(s):
    if s[0] == "if":
        yield s[2]
        yield s[3]
        for k in (2, 3):
            for y in shrink_body(s[k]):
                yield [s[:k] + [y] + s[k + 1:]]
    elif s[0] == "loop":
        yield s[3]
        for y in shrink_body(s[3]):
            yield [s[:3] + [y]]
    elif s[0] == "fn":
        for y in shrink_body(s[6]):
            yield [s[:6] + [y] + s[7:]]
    elif s[0] == "iface" and s[1] != "dump/all":
        for y in shrink_body(s[2]):
            yield [s[:2] + [y]]
    for i, x in enumerate(s):
        if isinstance(x, list) and x and isinstance(x[0], str):
            for y in shrink_expr(x):
                yield [s[:i] + [y] + s[i + 1:]]


def shrink_expr(x):
    if x[0] == "bin":
        yield x[2]
        yield x[3]
    elif x[0] == "new":
        for i in range(len(x[2])):
            yield ["new", x[1], x[2][:i] + x[2][i + 1:]]
        for i, (f, v) in enumerate(x[2]):
            for y in shrink_expr(v):
                yield ["new", x[1], x[2][:i] + [[f, y]] + x[2][i + 1:]]
    elif x[0] == "call":
        for i, a in enumerate(x[2]):
            for y in shrink_expr(a):
                yield ["call", x[1], x[2][:i] + [y] + x[2][i + 1:]]
    elif x[0] in ("not", "int"):
        for y in shrink_expr(x[1]):
            yield [x[0], y]


def shrinks(case):
    case = dict(case, shrunk=True)
    if case["kind"] == "const":
        for p in conts.shrink(case["prog"]):
            yield dict(case, prog=p)
        yield from simrun.shrink_config(case)
        return
    yield from simrun.shrink_events(case)
    yield from simrun.shrink_config(case)
    p = case["prog"]
    for b in shrink_body(p["body"]):
        yield dict(case, prog=dict(p, body=b))


def describe(case):
    if case["kind"] == "const":
        return {"sources": {"main.aca": conts.render(case["prog"])},
                "config": case["config"]}
    return {"sources": {"main.aca": vals.render(case["prog"])},
            "events": case["events"], "config": case["config"]}
