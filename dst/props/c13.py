"""C13: packs with different prefixes do not interfere in one world."""

from .. import entgen, lang, langcase, langgen, sched, simrun
from ..engine import Outcome, digest
from ..mcworld import Draws
from . import c08

ID = "C13"
QUICK = 6000
THOROUGH = 160000
RULE = ("two random programs (as in C01, C03, C04, C06 or C08) compiled with "
        "different folders, objective prefixes and entity tags into one "
        "simulated world; a random interleaving of their initializations, "
        "calls, ticks (with either pack's part first), outside changes, "
        "restarts and crash rollbacks; each pack is "
        "compared with its own reference after every event, and the "
        "objectives of the other pack must not change; distinct = different "
        "joint sequence of marks and scores; non-trivial = both packs ran "
        "and the history changes pack at least twice")

PREFIX = [("acacia", "B_"), ("acacia", "ab"), ("x", "y"), ("pa.", "pb."),
          ("one_", "two_"), ("acacia", "Acacia"), ("s", "t_s")]
FOLDER = [("", "pack"), ("a", "b"), ("p/a", "p/b"), ("p", "p2"),
          ("lib/x", "lib/y"), ("pack", "")]
TAGS = [("acacia", "bb"), ("t_a", "t_b"), ("e", "f")]


def gen_one(rng, cfg, ents=None):
    k = rng.random()
    if ents is not None:
        # programs in one world see each other's entities, and may move, tag
        # or kill the ones they select
        g = entgen.EGen(rng, "ents", size=rng.choice([4, 6, 9]))
        g.kills, g.moves, g.tags = ents
        g.resolve = lambda env: []      # an entity has one template
        g.perms = tuple(cfg.get("mc_version", (1, 20))) >= (1, 19, 80)
        prog = g.program()
        inputs = [rng.choice(langcase.VALS) for _ in g.ins]
    elif k < .35:
        g = sched.Gen(rng, rng.choice([("task",), ("loop",),
                                       ("task", "loop")]),
                      size=rng.choice([4, 6, 9]))
        prog = g.program()
        inputs = [rng.choice([0, 1, 2, 4]) for _ in g.ins]
    elif k < .75:
        g = langgen.Gen(rng, size=rng.choice([3, 6, 10]))
        prog = g.program()
        inputs = langcase.gen_inputs(rng, g)
    else:
        g = c08.ModGen(rng)
        prog = g.program()
        inputs = [rng.choice([0, 1, 2, 5]) for _ in range(2)]
    return g, prog, inputs


def gen_case(rng, index):
    gens, packs = [], []
    folders, pres, tags = rng.choice(FOLDER), rng.choice(PREFIX), \
        rng.choice(TAGS)
    twin = rng.random() < .2
    ents = [rng.random() < .35, rng.random() < .5, rng.random() < .6] \
        if rng.random() < .35 else None
    for i in range(2):
        cfg = {"root_folder": folders[i], "scoreboard": pres[i],
               "entity_tag": tags[i]}
        other = simrun.random_config(rng)
        for k in ("optimizer", "max_inline_file_size", "debug_comments",
                  "internal_folder", "split_init", "mc_version"):
            if k in other:
                cfg[k] = other[k]
        if ents:
            cfg.pop("split_init", None)
        if i and twin:
            g, prog, inputs = gens[0], packs[0]["prog"], packs[0]["inputs"]
            if "mc_version" in packs[0]["config"]:
                cfg["mc_version"] = packs[0]["config"]["mc_version"]
            else:
                cfg.pop("mc_version", None)
        else:
            g, prog, inputs = gen_one(
                rng, cfg, None if i and rng.random() < .15 else ents)
        gens.append(g)
        packs.append({"prog": prog, "inputs": inputs, "config": cfg})
    timed = any(p["prog"].get("lang") == "sched" for p in packs)
    gex = next((g for g in gens if isinstance(g, entgen.EGen)), None)
    events = [[0, ["main"]], [1, ["main"]]]
    if rng.random() < .3:
        events.reverse()
    for _ in range(rng.randint(2, 12)):
        i = rng.randrange(2)
        g, nin = gens[i], len(packs[i]["inputs"])
        if timed and rng.random() < .35 or rng.random() < .03:
            events.append([None, ["tick", rng.choice([1, 1, 2, 3, 5, 9]),
                                  rng.randint(0, 1)]])
            continue
        if gex is not None and rng.random() < .15:
            events.append([None, entgen.gen_ext(rng, gex)])
            continue
        k = rng.random()
        if k < .55 and g.ifaces:
            e = ["if", rng.choice(g.ifaces)]
        elif k < .65 and nin:
            e = ["in", "in%d" % rng.randrange(nin),
                          rng.choice([0, 1, 2, 3, 9] if
                            packs[i]["prog"].get("lang") == "sched" else
                            langcase.VALS)]
        elif k < .78:
            e = ["main"]
        elif k < .84:
            e = ["init"]
        elif k < .9:
            i, e = None, ["restart"]
        elif k < .95:
            i, e = None, ["save"]
        else:
            i, e = None, ["crash"]
        events.append([i, e])
    if timed:
        events.append([None, ["tick", rng.choice([2, 5, 12]),
                              rng.randint(0, 1)]])
    for i in range(2):
        if gens[i].ifaces:
            events.append([i, ["if", "dump/all" if ents and
                               gens[i].__class__ is entgen.EGen else
                               gens[i].ifaces[-1]]])
    return {"packs": packs, "events": events, "seed": rng.randrange(1 << 30)}


def own_obs(prog, name):
    """The program observed through its own objective."""
    if isinstance(prog, list):
        if len(prog) == 4 and prog[0] == "scb":
            return prog[:3] + [name]
        return [own_obs(x, name) for x in prog]
    if isinstance(prog, dict):
        return {k: own_obs(v, name) for k, v in prog.items()}
    if name == "obs1" and prog in entgen.MOBS:
        # the templates of each program are the only ones over their mobs
        return "my:" + prog
    return prog


def program(case, i):
    p = case["packs"][i]
    return dict(own_obs(p["prog"], "obs%d" % i), pop=population(case),
                root=p["config"].get("root_folder", ""))


def population(case):
    return [d for p in case["packs"] for d in p["prog"].get("pop", ())]


def with_entities(refs):
    return [r for r in refs if hasattr(r, "ents")]


def share(refs, i=None):
    """One world has one set of entities."""
    rs = with_entities(refs)
    if rs:
        first = refs[i] if i is not None and refs[i] in rs else rs[0]
        for r in rs:
            r.ents, r.next_id = first.ents, first.next_id


def make_refs(case):
    refs = [make_ref(case, 0), make_ref(case, 1)]
    share(refs)
    return refs


def make_ref(case, i):
    p = case["packs"][i]
    t = {"o%d" % k: 0 for k in range(3)}
    t.update({"in%d" % k: v for k, v in enumerate(p["inputs"])})
    name = "obs%d" % i
    cls = lang.INTERPS[p["prog"].get("lang", "")]
    r = cls(program(case, i), {name: t}, Draws(case["seed"]))
    r.obs_name = name
    return r


def apply_ref(refs, i, e, saved, w=None):
    apply_one(refs, i, e, saved, w)
    share(refs, i)


def apply_one(refs, i, e, saved, w):
    for k, r in enumerate(refs):
        if k != i and e[0] not in ("tick", "restart"):
            r.draws.next()
    if e[0] == "save":
        saved[:] = [r.snapshot() for r in refs]
    elif e[0] == "crash":
        if saved:
            for r, s in zip(refs, saved):
                r.restore(s)
    elif e[0] == "ext":
        for r in with_entities(refs)[:1]:
            r.external(e, w)
    elif e[0] in ("tick", "restart"):
        for r in refs:
            langcase.dry_event(r, e, [])
    elif i is not None:
        langcase.dry_event(refs[i], e, [])


def defined(out, case):
    refs = make_refs(case)
    saved, done = [], 0
    try:
        for i, e in case["events"]:
            apply_ref(refs, i, e, saved)
            done += 1
    except lang.Discard as e:
        if done < 2:
            out.discard = str(e)
            return None
        return dict(case, events=case["events"][:done])
    except (KeyError, AttributeError, TypeError, AssertionError,
            IndexError, RecursionError):
        if case.get("shrunk"):
            out.discard = "not a program"
            return None
        raise
    return case


def draws_shared(case):
    # the random source is one per world: programs that draw from the same
    # range would see each other's draws
    return all("randint" in repr(p["prog"]) for p in case["packs"])


def run_case(case):
    out = Outcome()
    if draws_shared(case):
        out.discard = "both packs draw random numbers"
        return out
    case = defined(out, case)
    if case is None:
        return out
    w = None
    refs = make_refs(case)
    srcs, owner = [], {}
    for i, p in enumerate(case["packs"]):
        src = lang.render(program(case, i))
        srcs.append(src)
        sub = Outcome()
        res = simrun.compile_or_fail(sub, src, p["config"])
        if res is None:
            out.discard = "not compiled: " + sub.violation["key"]
            return out
        if w is None:
            w = simrun.new_world(
                case["seed"], res, {}, population(case),
                [o for q in case["packs"] for o in q["prog"].get("objs", ())])
        else:
            clash = set(w.funcs) & set(res.files)
            if clash:
                return out.fail("function-clash", "both packs define %s"
                                % sorted(clash))
            w.load_pack(res.files, res.tick)
        for name in res.files:
            owner[name] = i
        w.obj["obs%d" % i] = dict(refs[i].obs["obs%d" % i])
    inited = [False, False]
    saved, wsaved = [], None
    last, switches, ran = None, 0, set()

    def over(kind, text, *a):
        return done(out.fail(kind, text, *a), case, w, refs, srcs, switches,
                    ran)

    def alien(i, before):
        """An objective changed that is not of pack i."""
        own = case["packs"][i]["config"]["scoreboard"]
        for o in sorted(set(before) | set(w.obj)):
            mine = o == "obs%d" % i or o in entgen.OBJS or (
                o.startswith(own) and o[len(own):].isdigit())
            if not mine and before.get(o) != w.obj.get(o):
                return "objective %s: %r became %r" % (
                    o, before.get(o), w.obj.get(o))

    for step, (i, e) in enumerate(case["events"]):
        m0 = [len(r.log) for r in refs]
        seen = [[], []]
        w.rand_stream.next()
        apply_ref(refs, i, e, saved, w)
        bad = None
        if e[0] == "save":
            wsaved = (w.snapshot(), list(inited))
        elif e[0] == "restart":
            w.restore(w.snapshot())
            out.fault("restart")
        elif e[0] == "crash":
            if wsaved:
                w.restore(wsaved[0])
                inited = list(wsaved[1])
                out.fault("crash_rollback")
        elif e[0] == "ext":
            out.fault("external_" + e[1])
        elif e[0] == "tick":
            names = [n for n in w.ticks if n in w.funcs]
            if e[2]:
                names.sort(key=lambda n: -owner[n])
            for _ in range(e[1]):
                for n in names:
                    k, n0 = owner[n], len(w.log)
                    before = {o: dict(t) for o, t in w.obj.items()}
                    w.obs_obj = "obs%d" % k
                    w.run_function(n)
                    seen[k] += simrun.marks(w.log[n0:])
                    bad = bad or alien(k, before)
                w.tickno += 1
            out.count("ticks", e[1])
            if len({owner[n] for n in names}) == 2:
                switches += 2
                out.count("shared_ticks", e[1])
        else:
            cfg = case["packs"][i]["config"]
            n0 = len(w.log)
            before = {o: dict(t) for o, t in w.obj.items()}
            w.obs_obj = "obs%d" % i
            init = simrun.fn_path(cfg, cfg.get("init_file", "init")) \
                if cfg.get("split_init") else None
            if e[0] == "main":
                if init and not inited[i]:
                    w.run_function(init)
                inited[i] = True
                simrun.enter(out, w, simrun.fn_path(cfg, "main"))
            elif e[0] == "init":
                if init:
                    w.run_function(init)
                    inited[i] = True
            elif e[0] == "if":
                simrun.enter(out, w, simrun.fn_path(cfg, e[1]))
            elif e[0] == "in":
                w.obj["obs%d" % i][e[1]] = e[2]
                out.fault("external_score_change")
            if last is not None and last != i:
                switches += 1
            last = i
            ran.add(i)
            seen[i] += simrun.marks(w.log[n0:])
            # the other pack's objectives: untouched
            bad = alien(i, before)
        if bad:
            return over("interference", "event %d: %r of pack %r changed %s"
                        % (step + 1, e, i, bad))
        if w.problems:
            return over("problem", "event %d %r: %r" % (
                step + 1, e, w.problems[0]), w.problems[0][0])
        for k in range(2):
            a, b = seen[k], refs[k].log[m0[k]:]
            if a != b:
                x, y = simrun.diff_at(a, b)
                return over("marks", "event %d %r: pack %d gives %r, alone "
                            "it gives %r" % (step + 1, e, k, x, y))
        for k in range(2):
            n = "obs%d" % k
            if w.obj[n] != refs[k].obs[n]:
                return over("scores", "after event %d %r of pack %r: %s is "
                            "%r, alone it is %r" % (
                                step + 1, e, i, n, w.obj[n],
                                refs[k].obs[n]))
        for r in with_entities(refs):
            bad = r.compare(w)
            if bad:
                return over(bad[0], "after event %d %r of pack %r: %s"
                            % (step + 1, e, i, bad[1]))
    return done(out, case, w, refs, srcs, switches, ran)


def done(out, case, w, refs, srcs, switches, ran):
    out.count("commands", w.ncmds)
    out.count("events", len(case["events"]))
    out.count("pack_switches", switches)
    out.count("cases_%s" % "_".join(sorted(
        p["prog"].get("lang") or "lang" for p in case["packs"])))
    out.count("observations", sum(len(r.log) for r in refs))
    out.sigs = [digest([r.log for r in refs], [r.obs for r in refs])]
    out.nontrivial = len(ran) == 2 and switches >= 2
    out.trace = digest(w.log, w.obj)
    out.sample = {"a": srcs[0].get("main.aca", "")[:600],
                  "b": srcs[1].get("main.aca", "")[:600],
                  "events": case["events"]}
    if out.violation and alone_fails(case):
        # the pack also fails by itself: another property's business
        out.discard = "fails alone: " + out.violation["kind"]
        out.violation = None
    return out


def alone_fails(case):
    for i, p in enumerate(case["packs"]):
        c = {"prog": dict(p["prog"], pop=population(case),
                          root=p["config"].get("root_folder", "")),
             "inputs": p["inputs"],
             "config": p["config"], "seed": case["seed"],
             "shrunk": True,
             "events": [e for k, e in case["events"] if k in (i, None)]}
        o = langcase.run_case(c)
        if o.violation:
            return True
    return False


def shrinks(case):
    case = dict(case, shrunk=True)
    yield from simrun.shrink_events(case)
    for i in range(2):
        ps = case["packs"]
        for k in list(ps[i]["config"]):
            if k in ("root_folder", "scoreboard", "entity_tag"):
                continue
            c = dict(ps[i]["config"])
            del c[k]
            q = list(ps)
            q[i] = dict(ps[i], config=c)
            yield dict(case, packs=q)
        for p in lang.shrink_prog(ps[i]["prog"]):
            q = list(ps)
            q[i] = dict(ps[i], prog=p)
            yield dict(case, packs=q)


def describe(case):
    return {"packs": [{"sources": lang.render(p["prog"]),
                       "config": p["config"], "inputs": p["inputs"]}
                      for p in case["packs"]], "events": case["events"]}
