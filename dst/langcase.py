"""Cases made of a generated program, a history of events and a
configuration: shared by the properties decided with the reference
interpreter."""

from . import lang, simrun
from .engine import Outcome, digest

VALS = [0, 1, -1, 2, 3, 7, -8, 100, 2147483647, -2147483648]


def gen_events(rng, g, lo=0, hi=8, nin=None, ticks=True):
    nin = len(g.ins) if nin is None else nin
    events = [["main"]]
    for _ in range(rng.randint(lo, hi)):
        k = rng.random()
        if k < .5 and g.ifaces:
            events.append(["if", rng.choice(g.ifaces)])
        elif k < .65 and nin:
            events.append(["in", "in%d" % rng.randrange(nin),
                           rng.choice(VALS)])
        elif k < .75:
            events.append(["main"])
        elif k < .85:
            events.append(["restart"])
        elif k < .92:
            events.append(["save"])
        elif k < .97:
            events.append(["crash"])
        elif ticks:
            events.append(["tick", 1])
    events.append(["if", "dump/all"])
    return events


def gen_inputs(rng, g):
    return [rng.choice(VALS) for _ in range(len(g.ins))]


def dry_event(ref, ev, saved):
    ref.draws.next()
    if ev[0] == "main":
        ref.run_main()
    elif ev[0] == "if":
        ref.run_iface(ev[1])
    elif ev[0] == "restart":
        ref.restarted()
    elif ev[0] == "load":
        ref.chunks.update(dict.fromkeys(map(tuple, ev[1]), 1))
    elif ev[0] == "unload":
        for k in map(tuple, ev[1]):
            ref.chunks.pop(k, None)
    elif ev[0] == "tick":
        for _ in range(ev[1]):
            ref.tick()
    elif ev[0] == "in":
        ref.obs[ref.obs_name][ev[1]] = ev[2]
    elif ev[0] == "save":
        saved[:] = [ref.snapshot()]
    elif ev[0] == "crash" and saved:
        ref.restore(saved[0])
    elif ev[0] == "ext":
        ref.external(ev)
    elif ev[0] == "trunc":
        ref.forget()


def defined(out, case):
    """The part of the case the reference defines: an event with an
    unspecified effect (division by zero...) and what follows is cut off
    before anything is compared.  None when nothing is left."""
    ref = simrun.make_ref(case, case["seed"])
    done = 0
    try:
        saved = []
        for ev in case["events"]:
            dry_event(ref, ev, saved)
            done += 1
    except lang.Discard as e:
        if done == 0:
            out.discard = str(e)
            return None
        out.count("histories_cut")
        return dict(case, events=case["events"][:done])
    except (KeyError, AttributeError, TypeError, AssertionError,
            IndexError, RecursionError):
        if case.get("shrunk"):
            out.discard = "not a program"
            return None
        raise
    return case


def run_case(case, config=None, draws=False):
    out = Outcome()
    case = defined(out, case)
    if case is None:
        return out
    config = case["config"] if config is None else config
    src = lang.render(case["prog"])
    res = simrun.compile_or_fail(out, src, config)
    if res is None:
        return out
    ref = simrun.make_ref(case, case["seed"])
    w = simrun.new_world(case["seed"], res, simrun.init_obs(case),
                         case["prog"].get("pop", ()),
                         case["prog"].get("objs", ()))
    same_draws = None
    if draws:
        def same_draws(ev):
            # a draw nothing depends on may be left out by the compiler
            for k, n in w.rand_stream.n.items():
                if n > ref.draws.n.get(k, 0):
                    out.fail("draws", "after %r: %d draws from %r, the "
                             "program makes %d"
                             % (ev, n, k, ref.draws.n.get(k, 0)))
    simrun.play(out, w, case["events"], config, ref, on_event=same_draws)
    finish(out, case, w, ref, src)
    if draws:
        out.count("draws", w.rand_stream.total)
        out.nontrivial = len(ref.log) >= 3 and \
            (w.rand_stream.total > 0 or ref.maths > 0)
        out.count("math_calls", ref.maths)
    return out


def finish(out, case, w, ref, src):
    out.ref = ref
    out.count("commands", w.ncmds)
    out.count("source_lines", sum(s.count("\n") for s in src.values()))
    out.count("observations", len(ref.log))
    out.count("events", len(case["events"]))
    out.count("ticks_simulated", w.tickno)
    out.maxima["commands_in_one_invocation"] = w.maxinv
    for c in ref.cover:
        out.count("stmt_" + c)
    out.sigs = [digest(ref.log, ref.obs)]
    out.nontrivial = len(ref.log) >= 3 and len(case["events"]) >= 2
    out.trace = digest(w.log, w.obj)
    out.sample = {"main.aca": src.get("main.aca", "")[:1500],
                  "events": case["events"]}


def shrinks(case):
    case = dict(case, shrunk=True)
    yield from simrun.shrink_events(case)
    yield from simrun.shrink_config(case)
    for p in lang.shrink_prog(case["prog"]):
        yield dict(case, prog=p)


def describe(case):
    return {"sources": lang.render(case["prog"]), "events": case["events"],
            "config": case["config"], "inputs": case["inputs"]}
