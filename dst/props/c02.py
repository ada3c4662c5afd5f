"""C02: options of the compiler never change behaviour."""

from .. import corpus, lang, langcase, langgen, simrun
from ..engine import Outcome, digest

ID = "C02"
QUICK = 4500
THOROUGH = 120000
RULE = ("a random program and history as in C01, compiled under a plain "
        "configuration (no optimizer) and three seeded configurations "
        "(optimizer, inlining limits, debug comments, folders, objective and "
        "tag prefixes, split init, game version); each pack runs the same "
        "history in its own world and is compared with the reference after "
        "every event; all configurations must agree; distinct = different "
        "pair of observed behaviour and generated text; non-trivial = at "
        "least three observations and two different generated packs; every "
        "second case is one of another property (schedules, entities, groups, "
        "modules, texts, structs, world actions, music), run with that "
        "property's own oracle under several configurations that must all "
        "agree")
OTHERS = ["C06"] * 4 + ["C07"] * 4 + ["C17"] * 3 + \
    ["C03", "C03", "C04", "C05", "C08", "C14", "C15", "C15", "C18", "C16"]
# what a program may rely on
GIVEN = ("mc_version", "education_edition")


def setup():
    corpus.module("C16").setup()


def gen_other(rng, index):
    pid = rng.choice(OTHERS)
    inner = corpus.module(pid).gen_case(rng, index)
    given = {k: v for k, v in inner["config"].items() if k in GIVEN}
    split = pid != "C06"
    cfgs = [dict(given, optimizer=False)]
    for i in range(2 if rng.random() < .2 else 1):
        c = simrun.random_config(rng)
        c.pop("education_edition", None)
        v = c.pop("mc_version", None)
        if v and v >= list(given.get("mc_version", [1, 20, 20])):
            given = dict(given, mc_version=v)
        if not split:
            c.pop("split_init", None)
            c.pop("init_file", None)
        if i == 0:
            if rng.random() < .8:
                c.pop("optimizer", None)
            if rng.random() < .5:
                c["max_inline_file_size"] = rng.choice([1, 3, 10000])
        cfgs.append(dict(c, **given))
    return {"kind": pid, "inner": inner, "configs": cfgs, "config": {}}


def run_other(case):
    out = Outcome()
    m = corpus.module(case["kind"])
    out.count("case_" + case["kind"])
    subs = []
    for cfg in case["configs"]:
        sub = m.run_case(dict(case["inner"], config=cfg))
        subs.append(sub)
        out.faults.update(sub.faults)
        for k in cfg:
            out.count("option_" + k)
        out.sigs += ["%s:%s" % (case["kind"], s) for s in sub.sigs[:1]]
        if sub.discard:
            out.discard = sub.discard
            return out
    out.nontrivial = all(sub.nontrivial for sub in subs)
    verdict(out, case["configs"], [sub.violation for sub in subs])
    out.sigs = out.sigs[:1]
    return out


def verdict(out, configs, results):
    bad = [i for i, v in enumerate(results) if v]
    if bad and len(bad) == len(results):
        out.discard = "not about options: " + results[0]["kind"]
    elif bad:
        v = results[bad[0]]
        good = [c for i, c in enumerate(configs) if i not in bad]
        out.fail("option-" + v["kind"],
                 "under %r: %s (correct under %r)"
                 % (configs[bad[0]], v["msg"], good[0]), v["key"])


def gen_case(rng, index):
    if index % 2 == 1:
        return gen_other(rng, index)
    g = langgen.Gen(rng, size=rng.choice([4, 8, 14]))
    g.f |= {"if"}
    if rng.random() < .5:
        g.f |= {"swap"}
        g.disturbing = .7
    prog = g.program()
    cfgs = [{"optimizer": False}]
    while len(cfgs) < 4:
        c = simrun.random_config(rng)
        if len(cfgs) == 1:
            c.pop("optimizer", None)
        if len(cfgs) == 2 and "max_inline_file_size" not in c:
            c["max_inline_file_size"] = rng.choice([0, 1, 2, 3, 50, 10000])
        cfgs.append(c)
    return {"prog": prog, "events": langcase.gen_events(rng, g, 1, 6),
            "configs": cfgs, "config": {},
            "inputs": langcase.gen_inputs(rng, g),
            "seed": rng.randrange(1 << 30)}


def run_case(case):
    if "inner" in case:
        return run_other(case)
    out = Outcome()
    case = langcase.defined(out, case)
    if case is None:
        return out
    src = lang.render(case["prog"])
    results, texts, logs = [], set(), []
    for cfg in case["configs"]:
        sub = Outcome()
        res = simrun.compile_or_fail(sub, src, cfg)
        if res is not None:
            texts.add(digest(res.files))
            ref = simrun.make_ref(case, case["seed"])
            w = simrun.new_world(case["seed"], res, simrun.init_obs(case))
            simrun.play(sub, w, case["events"], cfg, ref)
            langcase.finish(out, case, w, ref, src)
            logs.append(digest(ref.log, ref.obs))
            out.faults.update(sub.faults)
            for k, v in sub.stats.items():
                out.count(k, v)
        for k in cfg:
            out.count("option_" + k)
        results.append(sub.violation)
    verdict(out, case["configs"], results)
    if out.discard:
        return out
    out.sigs = [digest(logs[:1], sorted(texts))]
    out.nontrivial = out.nontrivial and len(texts) > 1
    return out


def shrinks(case):
    case = dict(case, shrunk=True)
    cf = case["configs"]
    for i in range(len(cf)):
        if len(cf) > 2:
            yield dict(case, configs=cf[:i] + cf[i + 1:])
    for i in range(len(cf)):
        for k in cf[i]:
            if "inner" in case and k in GIVEN:
                continue
            c = dict(cf[i])
            del c[k]
            yield dict(case, configs=cf[:i] + [c] + cf[i + 1:])
    if "inner" in case:
        for x in corpus.module(case["kind"]).shrinks(case["inner"]):
            yield dict(case, inner=x)
        return
    yield from langcase.shrinks(case)


def describe(case):
    if "inner" in case:
        d = corpus.module(case["kind"]).describe(case["inner"])
        return dict(d, configs=case["configs"], property=case["kind"])
    return {"sources": lang.render(case["prog"]), "events": case["events"],
            "configs": case["configs"], "inputs": case["inputs"]}
