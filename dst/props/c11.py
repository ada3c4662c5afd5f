"""C11: compilation is reproducible."""

import os

from .. import acabuild, corpus, packs, repro
from ..engine import Outcome, digest

ID = "C11"
QUICK = 420
THOROUGH = 12000
CASE_CPU = 60.0
RULE = ("a random set of projects (from the program generators of all the "
        "other properties, and module trees, some of which do not compile) "
        "compiled by the real compiler in two fresh processes over simulated "
        "disks: once plainly, one after the other, and once with another "
        "hash seed and memory layout, in another order and repeatedly, "
        "between failing compilations and others with other settings, from "
        "other directories, through links, with directory listings shuffled "
        "and the clock moved; all outputs are compared byte for byte; "
        "distinct = different output; non-trivial = at least one pack was "
        "compared under both environments")
KINDS = ("stat", "open_r", "read", "list", "mkdir", "open_w", "write",
         "close")
PLACES = ["w", "home/me/p", "a b/\u00fc", "x" * 40, "0", "tmp/modules"]


def decoys(rng, files):
    """Files beside the modules that must not matter."""
    for rel in sorted(files):
        stem = rel[:-4]
        for name in (stem + ".py", stem + ".aca.bak", stem + ".ac", stem,
                     stem + ".txt", stem + "_.aca", stem.upper() + ".AC"):
            if rng.random() < .25 and name not in files:
                if name == stem:
                    name = stem + "/readme"
                files[name] = "not a module\n"


def gen_case(rng, index):
    projects = []
    for _ in range(rng.choice([3, 4, 5, 6])):
        p = corpus.project(rng)
        p["config"].update(corpus.options(rng))
        if rng.random() < .4:
            decoys(rng, p["files"])
        if p["kind"] == "pack" and rng.random() < .3:
            p["files"], _ = packs.damage(rng, p["files"])
            p["files"] = {k: v for k, v in p["files"].items()
                          if isinstance(v, str)}
        projects.append(p)
    n = len(projects)
    order = [i for i in range(n) for _ in range(rng.choice([1, 1, 2]))]
    rng.shuffle(order)
    steps = []
    for i in order:
        if rng.random() < .3:
            # history: another compilation, of which only the traces it
            # leaves in the process count
            s = {"project": rng.randrange(n), "place": rng.choice(PLACES),
                 "seed": rng.randrange(1 << 30), "drop": 1}
            if rng.random() < .6:
                s["fault"] = [rng.choice(KINDS), rng.choice(
                    [0, 1, 2, 5, 10, rng.randrange(60)])]
            else:
                s["config"] = corpus.options(rng)
            steps.append(s)
        s = {"project": i, "place": rng.choice(PLACES),
             "seed": rng.randrange(1 << 30),
             "shuffle": rng.random() < .7,
             "clock": rng.choice([0, 1_600_000_000, 1_999_999_999,
                                  rng.randrange(1 << 31)]),
             "cwd": rng.random() < .3, "linked": rng.random() < .2,
             "outputs": rng.choice([1, 1, 1, 2]),
             "junk": rng.choice([0, 0, 100])}
        if s["cwd"]:
            s["linked"] = False
        steps.append(s)
    return {"projects": projects, "steps": steps,
            "hash": rng.randrange(1, 1 << 32),
            "junk": rng.choice([0, 1000, 30000]),
            "env": rng.choice([{}, {"LANG": "de_DE.UTF-8"}, {"TZ": "Asia/"
                               "Tokyo"}, {"PYTHONUTF8": "1"}, {"HOME": "/"}])}


def diff(a, b):
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            return "%s is only written %s" % (
                f, "plainly" if f in a else "in the other environment")
        if a[f] != b[f]:
            for n, (x, y) in enumerate(zip(a[f].split("\n"),
                                           b[f].split("\n"))):
                if x != y:
                    return "%s line %d is %r plainly and %r in the other " \
                        "environment" % (f, n + 1, x[:300], y[:300])
            return "%s has a different length" % f
    return None


def run_case(case):
    out = Outcome()
    plain = repro.spawn({
        "projects": case["projects"],
        "steps": [{"project": i, "place": "w", "seed": 0}
                  for i in range(len(case["projects"]))]}, 0)
    other = repro.spawn({
        "projects": case["projects"], "steps": case["steps"],
        "junk": case["junk"], "env": case["env"]}, case["hash"])
    for r in (plain, other):
        if isinstance(r, dict):
            out.fail("died", "the process ended: " + r["died"])
            return out
    repo = os.path.realpath(acabuild.REPO)
    out.fault("another hash seed")
    for s in case["steps"]:
        for k, name in (("fault", "compilation cut short by an I/O error"),
                        ("shuffle", "directory listings shuffled"),
                        ("linked", "source directory behind a link"),
                        ("config", "other settings in between"),
                        ("junk", "memory layout disturbed")):
            if s.get(k):
                out.fault(name)
        if s.get("clock", 1_600_000_000) != 1_600_000_000:
            out.fault("clock moved")
    compared = 0
    seen = set()
    for s, r in zip(case["steps"], other):
        if s.get("drop"):
            out.count("other_compilations")
            continue
        p = plain[s["project"]]
        out.count("compilations_compared")
        what = "project %d (step %d)" % (s["project"],
                                         case["steps"].index(s))
        if p["ok"] != r["ok"]:
            out.fail("outcome", "%s compiles in one environment only: %s"
                     % (what, p.get("msg") or r.get("msg")))
            break
        if not p["ok"]:
            out.count("refused_in_both")
            if p["msg"] != r["msg"]:
                out.fail("message", "%s: %s / %s" % (what, p["msg"],
                                                     r["msg"]))
                break
            continue
        compared += 1
        d = diff(p["files"], r["files"])
        if d:
            out.fail("bytes", "%s: %s" % (what, d))
            break
        for f, t in p["files"].items():
            out.count("files_compared")
            if repo + "/" in t or "/vfs/" in t:
                out.fail("leak", "%s: %s contains a path of this machine"
                         % (what, f))
        seen.add(s["project"])
    out.nontrivial = compared > 0
    out.sigs = [digest(plain[i]) for i in sorted(seen)]
    out.trace = digest(plain, other)
    out.sample = {"kinds": [p["kind"] for p in case["projects"]],
                  "steps": case["steps"], "hash_seed": case["hash"]}
    return out


def shrinks(case):
    steps = case["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield dict(case, steps=steps[:i] + steps[i + 1:])
    for i, s in enumerate(steps):
        for k in ("shuffle", "clock", "cwd", "linked", "outputs", "junk",
                  "config"):
            if s.get(k):
                t = {a: b for a, b in s.items() if a != k}
                yield dict(case, steps=steps[:i] + [t] + steps[i + 1:])
    if case["junk"]:
        yield dict(case, junk=0)
    if case["env"]:
        yield dict(case, env={})
    if case["hash"]:
        yield dict(case, hash=0)
    used = sorted({s["project"] for s in steps})
    if len(used) < len(case["projects"]):
        yield dict(case, projects=[case["projects"][i] for i in used],
                   steps=[dict(s, project=used.index(s["project"]))
                          for s in steps])
    if len(used) == 1 == len(case["projects"]):
        p = case["projects"][0]

        def put(q):
            return dict(case, projects=[q])
        for k in p["config"]:
            yield put(dict(p, config={a: b for a, b in p["config"].items()
                                      if a != k}))
        for rel, t in p["files"].items():
            if rel != "main.aca":
                yield put(dict(p, files={a: b for a, b in p["files"].items()
                                         if a != rel}))
            lines = t.splitlines(True)
            size = len(lines)
            while size:
                for j in range(0, len(lines), size):
                    yield put(dict(p, files=dict(p["files"], **{
                        rel: "".join(lines[:j] + lines[j + size:])})))
                size //= 2


def describe(case):
    d = {"sources": {}, "steps": case["steps"], "hash": case["hash"],
         "junk": case["junk"], "env": case["env"],
         "configs": [p["config"] for p in case["projects"]]}
    for i, p in enumerate(case["projects"]):
        for rel, t in p["files"].items():
            d["sources"]["p%d/%s" % (i, rel)] = t
    return d


COMPONENTS = {
    "real": ["acaciamc.compiler and everything below it, in fresh Python "
             "processes"],
    "stub": ["the disk (dst/vfs.py) except the compiler's own modules; the "
             "clock; address randomization is off"]}
ASSUMPTIONS = ["the same Python version on every machine"]
