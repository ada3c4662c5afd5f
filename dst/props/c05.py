"""C05: area-loaded schedules fire once, when the area is ready."""

from .. import sched, simrun
from . import c03

ID = "C05"
QUICK = 8000
THOROUGH = 250000
RULE = ("a random program scheduling tasks for boxes, circles and ticking "
        "areas described by random positions (offsets, absolute parts, "
        "alignment, dimensions), next to delays and loops; a random history "
        "of chunks being loaded in parts (all but one chunk, the same "
        "chunks of another dimension), unloaded, restarts and rollbacks, "
        "ticks, interface calls and main re-runs; marks with their tick and "
        "all scores compared with the reference after every event; distinct "
        "= different sequence of marks and scores; non-trivial = at least "
        "one area became ready and ran its task")


def gen_case(rng, index):
    want = {"area", "task"}
    if rng.random() < .2:
        want.add("loop")
    g = sched.Gen(rng, want, size=rng.choice([5, 8, 12]))
    prog = g.program()
    return {"prog": prog, "events": sched.gen_events(rng, g),
            "config": simrun.random_config(rng),
            "inputs": [rng.choice([0, 1, 2, 4]) for _ in g.ins],
            "seed": rng.randrange(1 << 30)}


def run_case(case, config=None):
    out = c03.run_sched(case, config)
    out.nontrivial = out.stats.get("area_tasks_run", 0) >= 1
    return out


shrinks = c03.shrinks
describe = c03.describe
