"""Whole projects for the properties about the compiler itself: the programs
of all the other properties' generators, and small module trees."""

from . import packs

POOL = ["C01", "C01", "C03", "C04", "C05", "C06", "C06", "C07", "C07", "C08",
        "C08", "C09", "C13", "C14", "pack", "pack"]
_mods = {}


def module(pid):
    if pid not in _mods:
        from . import engine
        _mods[pid] = engine.load(pid)
    return _mods[pid]


def available(extra=()):
    return POOL + list(extra)


def project(rng, pool=None):
    """{"files": {relative path: text}, "config": {...}, "kind": ...}"""
    kind = rng.choice(pool or POOL)
    if kind == "pack":
        files = packs.Pack(rng).build()
        cfg = {}
    else:
        m = module(kind)
        case = m.gen_case(rng, rng.randrange(1 << 20))
        if kind == "C13":
            case = case["packs"][rng.randrange(len(case["packs"]))]
            from . import lang
            files = lang.render(case["prog"])
        else:
            files = m.describe(case)["sources"]
        cfg = dict(case.get("config") or {})
    return {"files": dict(files), "config": cfg, "kind": kind}


def options(rng):
    """Random compiler settings."""
    c = {}
    if rng.random() < .25:
        c["optimizer"] = False
    if rng.random() < .3:
        c["debug_comments"] = True
    if rng.random() < .2:
        c["split_init"] = True
    if rng.random() < .2:
        c["root_folder"] = rng.choice(["lib", "a/b"])
    if rng.random() < .2:
        c["max_inline_file_size"] = rng.choice([0, 1, 3, 100])
    if rng.random() < .2:
        c["mc_version"] = rng.choice([[1, 19, 50], [1, 19, 80], [1, 20, 10],
                                      [1, 21, 0]])
    return c
