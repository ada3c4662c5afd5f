"""C03: scheduled tasks run exactly once, at the requested time."""

from .. import langcase, sched, simrun

ID = "C03"
QUICK = 8000
THOROUGH = 250000
RULE = ("a random program with tasks over plain and inline functions and "
        "over methods of other tasks, with arguments; requests, repeated "
        "requests, cancellations and queries from main, functions, "
        "interfaces, targets, loops and (through a raw function command) "
        "the task's own target; a random history of ticks, interface calls, "
        "main re-runs, restarts and crash rollbacks; marks with their tick "
        "and all scores compared with the reference after every event; "
        "distinct = different sequence of marks and scores; non-trivial = "
        "a task fired and at least two requests were made")


def gen_case(rng, index):
    g = sched.Gen(rng, ("task",) if rng.random() < .7 else ("task", "loop"),
                  size=rng.choice([5, 8, 12]))
    prog = g.program()
    return {"prog": prog, "events": sched.gen_events(rng, g),
            "config": simrun.random_config(rng),
            "inputs": [rng.choice([0, 1, 2, 4]) for _ in g.ins],
            "seed": rng.randrange(1 << 30)}


def run_sched(case, config=None):
    cfg = case["config"] if config is None else config
    case = dict(case, prog=dict(case["prog"],
                                root=cfg.get("root_folder", "")))
    out = langcase.run_case(case, config=cfg)
    ref = out.ref
    if ref is not None:
        out.ref = None
        out.count("targets_run", ref.fired)
        out.count("requests", ref.requests)
        out.count("area_tasks_run", ref.area_runs)
    return out


def run_case(case, config=None):
    out = run_sched(case, config)
    out.nontrivial = out.stats.get("targets_run", 0) > 0 and \
        out.stats.get("requests", 0) > 1
    return out


shrinks = langcase.shrinks
describe = langcase.describe
