"""C04: registered loops run periodically for ever."""

from .. import sched, simrun
from . import c03

ID = "C04"
QUICK = 8000
THOROUGH = 250000
RULE = ("a random program registering loops over functions and over methods "
        "of tasks, with literal, variable and compound intervals (also zero "
        "and negative), next to tasks, with bodies that change the interval "
        "variables, other loops' variables and tasks; a random history of "
        "ticks, interface calls, main re-runs, restarts and crash "
        "rollbacks; marks with their tick and all scores compared with the "
        "reference after every event; distinct = different sequence of "
        "marks and scores; non-trivial = loops ran at least five times")


def gen_case(rng, index):
    g = sched.Gen(rng, ("loop",) if rng.random() < .6 else ("loop", "task"),
                  size=rng.choice([5, 8, 12]))
    prog = g.program()
    return {"prog": prog, "events": sched.gen_events(rng, g),
            "config": simrun.random_config(rng),
            "inputs": [rng.choice([0, 1, 2, 4]) for _ in g.ins],
            "seed": rng.randrange(1 << 30)}


def run_case(case, config=None):
    out = c03.run_sched(case, config)
    out.nontrivial = out.stats.get("targets_run", 0) >= 5
    return out


shrinks = c03.shrinks
describe = c03.describe
