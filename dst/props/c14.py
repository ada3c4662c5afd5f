"""C14: library arithmetic is exact and random draws happen once."""

from .. import langcase, langgen, simrun

ID = "C14"
QUICK = 11000
THOROUGH = 300000
RULE = ("a random program dense in math calls (constant, variable and "
        "extreme arguments, nested, in conditions, arguments, results and "
        "compound assignments) and in draws inside expressions, run over a "
        "random history; the simulator owns the random source (every "
        "range gives a seeded sequence), so the reference knows each drawn "
        "value, and the draws made by each event are compared; distinct = "
        "different sequence of marks and scores; non-trivial = at least one "
        "math call or draw executed and three observations")


def gen_case(rng, index):
    g = langgen.Gen(rng, size=rng.choice([4, 8, 12]))
    g.f |= {"mathf"}
    if rng.random() < .8:
        g.f |= {"rand", "randx"}
    if rng.random() < .8:
        g.f |= {"mathx"}
    g.f |= {"scbio"}
    prog = g.program()
    return {"prog": prog, "events": langcase.gen_events(rng, g, 1, 8),
            "config": simrun.random_config(rng) if rng.random() < .2 else {},
            "inputs": langcase.gen_inputs(rng, g),
            "seed": rng.randrange(1 << 30)}


def run_case(case):
    return langcase.run_case(case, draws=True)


shrinks = langcase.shrinks
describe = langcase.describe
