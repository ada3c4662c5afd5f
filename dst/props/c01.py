"""C01: compiled programs behave as their source says."""

from .. import langcase, langgen

ID = "C01"
QUICK = 14000
THOROUGH = 400000
RULE = ("a random well-typed Acacia program (swarm-chosen features: nested "
        "integer and boolean expressions, functions, inline and const "
        "functions, structs, references, loops, interfaces, math module) and "
        "a random history of events (main run and re-run, interface calls in "
        "any order, score changes from outside, restarts, crash rollbacks), "
        "compiled by the real compiler and executed in the simulated world, "
        "compared event by event with a reference interpreter; distinct = "
        "different sequence of observed marks and scores; non-trivial = at "
        "least three observations and two events")


def gen_case(rng, index):
    g = langgen.Gen(rng, size=rng.choice([4, 8, 14, 20]))
    prog = g.program()
    return {"prog": prog, "events": langcase.gen_events(rng, g),
            "config": {}, "inputs": langcase.gen_inputs(rng, g),
            "seed": rng.randrange(1 << 30)}


run_case = langcase.run_case
shrinks = langcase.shrinks
describe = langcase.describe
