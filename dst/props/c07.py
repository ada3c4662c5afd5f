"""C07: groups and filters behave as sets over the live entities."""

from .. import langcase
from . import c06

ID = "C07"
QUICK = 6000
THOROUGH = 200000
RULE = ("a random program of entity groups and filters (add, remove, clear, "
        "copy, select, drop, filter, set algebra, iteration, size, "
        "emptiness, membership, external groups, is_entity, every filter "
        "condition in every order, filters derived from shared constants) "
        "over a random population of players and mobs with positions, "
        "rotations, items, scores, levels and modes, and a random history "
        "of events in which entities are spawned, killed, moved and tagged "
        "from outside, compiled by the real compiler and executed in the "
        "simulated world, compared event by event with a reference that "
        "evaluates filters and groups as sets of objects; distinct = "
        "different sequence of observations; non-trivial = at least three "
        "observations and two events")


def gen_case(rng, index):
    return c06.gen(rng, "groups")


run_case = langcase.run_case
shrinks = langcase.shrinks
describe = c06.describe
