"""C06: entity references, fields and virtual methods stay consistent."""

from .. import entgen, ents, langcase, simrun  # noqa: F401

ID = "C06"
QUICK = 6000
THOROUGH = 200000
RULE = ("a random program of entity templates (multiple inheritance, "
        "virtual, override, plain, static and inline methods, constructors "
        "that chain to other constructors), entity variables, parameters, "
        "results, fields, structs and groups, over a random population of "
        "players and mobs, and a random history of events (main and "
        "interface runs, entities spawned, moved, tagged, killed from "
        "outside, restarts, crash rollbacks), compiled by the real compiler "
        "and executed in the simulated world, compared event by event with "
        "a reference that knows entities as objects: marks, scores, and "
        "every entity of the world with its position, name and tags; "
        "distinct = different sequence of observations; non-trivial = at "
        "least three observations and two events")


def gen(rng, want):
    cfg = simrun.random_config(rng)
    cfg.pop("split_init", None)
    if rng.random() < .5:
        cfg = {}
    g = entgen.EGen(rng, want, size=rng.choice([5, 8, 12, 18]))
    g.perms = tuple(cfg.get("mc_version", (1, 20))) >= (1, 19, 80)
    prog = g.program()
    return {"prog": prog, "events": entgen.gen_events(rng, g),
            "config": cfg,
            "inputs": [rng.choice(langcase.VALS) for _ in g.ins],
            "seed": rng.randrange(1 << 30)}


def gen_case(rng, index):
    return gen(rng, "ents")


run_case = langcase.run_case
shrinks = langcase.shrinks


def describe(case):
    d = langcase.describe(case)
    d["population"] = case["prog"].get("pop")
    return d
