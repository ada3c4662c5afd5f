"""Seeded search over cases: workers, shrinking, replay files, evidence.

A property module provides
    ID, RULE, QUICK, THOROUGH (numbers of runs)
    gen_case(rng, index) -> JSON case
    run_case(case) -> Outcome
    shrinks(case) -> iterator of smaller cases         (optional)
    describe(case) -> JSON shown in the replay file    (optional)
    COMPONENTS, ASSUMPTIONS                            (evidence text)

The case decides everything: the program, the schedule of events and faults,
the configuration and the seeds of the simulated world.  Case number i of a
run with seed S is a function of (S, property, i) only, whatever the number of
workers, and running a case is a function of the case and of the code in /repo.
"""

import hashlib
import importlib
import json
import os
import random
import re
import select
import signal
import struct
import sys
import time
import traceback

from . import acabuild

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU = 20.0          # seconds of CPU time one case may use
CHUNK = 8


class Hang(BaseException):
    pass


class Outcome:
    def __init__(self):
        self.violation = None       # {"kind", "key", "msg"}
        self.discard = None
        self.stats = {}             # counters
        self.maxima = {}
        self.sigs = []              # distinct behaviours (short strings)
        self.nontrivial = False
        self.faults = {}
        self.sample = None
        self.trace = None           # event log digest, for determinism tests
        self.ref = None             # the reference at the end of the run

    def fail(self, kind, msg, key=""):
        if self.violation is None:
            self.violation = {"kind": kind, "key": key, "msg": msg}
        return self

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def dump(self):
        return {"v": self.violation, "d": self.discard, "s": self.stats,
                "m": self.maxima, "g": self.sigs, "n": self.nontrivial,
                "f": self.faults, "x": self.sample, "t": self.trace}


def norm(msg):
    """A compile error without the names, numbers and places in it."""
    msg = re.sub(r"/[^ :]*\.aca(:\d+)*:?", "FILE", msg)
    msg = re.sub(r"[\"'][^\"']*[\"']", "Q", msg)
    msg = re.sub(r"-?\d+", "N", msg)
    return msg.strip().splitlines()[0][:160] if msg.strip() else ""


def _strkeys(x):
    if isinstance(x, dict):
        return {repr(k): _strkeys(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_strkeys(v) for v in x]
    return x


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        try:
            t = json.dumps(p, sort_keys=True, default=str)
        except TypeError:       # keys of mixed types
            t = json.dumps(_strkeys(p), sort_keys=True, default=str)
        h.update(t.encode())
        h.update(b"\0")
    return h.hexdigest()


def load(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


def case_for(mod, seed, index):
    rng = random.Random("%s/%s/%d" % (seed, mod.ID, index))
    return mod.gen_case(rng, index)


def _alarm(signum, frame):
    raise Hang()


def guarded(mod, case):
    """Run one case; hangs are bounded by the CPU time the process uses."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF,
                     getattr(mod, "CASE_CPU", CASE_CPU))
    try:
        try:
            o = mod.run_case(case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        o = Outcome()
        o.fail("hang", "the case used more than %g s of CPU time"
               % getattr(mod, "CASE_CPU", CASE_CPU))
    return o.dump()


def _child(mod, seed, idxs, w, cases=None):
    os.nice(5)
    with os.fdopen(w, "wb") as f:
        for i in idxs:
            try:
                case = cases[i] if cases is not None \
                    else case_for(mod, seed, i)
                r = guarded(mod, case)
            except BaseException:
                r = {"err": traceback.format_exc()}
            data = json.dumps([i, r], default=str).encode()
            f.write(struct.pack("<I", len(data)) + data)
            f.flush()
    os._exit(0)


def run_many(mod, seed, indices, jobs, on_result, cases=None, chunk=CHUNK,
             stop=lambda: False, deadline=None):
    """Fork children, each running a chunk of cases."""
    todo = [indices[i:i + chunk] for i in range(0, len(indices), chunk)]
    todo.reverse()
    live = {}
    while todo or live:
        while todo and len(live) < jobs and not stop():
            idxs = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for other in live:
                    try:
                        os.close(other)
                    except OSError:
                        pass
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    _child(mod, seed, idxs, w, cases)
                finally:
                    os._exit(3)
            os.close(w)
            live[r] = [pid, bytearray(), set(idxs)]
        if not live:
            break
        if deadline is not None and time.monotonic() > deadline:
            for fd, (pid, _, _) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            raise TimeoutError("out of wall time")
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            ent = live[fd]
            if data:
                ent[1] += data
                buf = ent[1]
                while len(buf) >= 4:
                    n = struct.unpack("<I", buf[:4])[0]
                    if len(buf) < 4 + n:
                        break
                    i, res = json.loads(bytes(buf[4:4 + n]))
                    del buf[:4 + n]
                    ent[2].discard(i)
                    on_result(i, res)
            else:
                os.close(fd)
                os.waitpid(ent[0], 0)
                for i in sorted(ent[2]):
                    on_result(i, {"err": "worker died"})
                del live[fd]
        if stop():
            todo = []


def run_one(mod, case):
    """Run one case in a fresh child process."""
    got = []
    run_many(mod, 0, [0], 1, lambda i, r: got.append(r), cases={0: case})
    return got[0]


def same(v, w):
    return v is not None and w is not None and \
        v["kind"] == w["kind"] and v["key"] == w["key"]


def shrink(mod, case, viol, jobs, budget=1500, seconds=60):
    """Greedy minimisation; candidates of one step run side by side but the
    first one (in generation order) that still fails is taken."""
    if not hasattr(mod, "shrinks"):
        return case, 0
    used = 0
    t0 = time.monotonic()
    progress = True
    while progress and used < budget and time.monotonic() - t0 < seconds:
        progress = False
        it = iter(mod.shrinks(case))
        while used < budget and time.monotonic() - t0 < seconds:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) >= jobs * 4:
                    break
            if not batch:
                break
            res = {}
            run_many(mod, 0, list(range(len(batch))), jobs,
                     lambda i, r: res.__setitem__(i, r),
                     cases=dict(enumerate(batch)), chunk=4)
            used += len(batch)
            hit = [i for i in range(len(batch))
                   if same(res.get(i, {}).get("v"), viol)]
            if hit:
                case = batch[hit[0]]
                progress = True
                break
    return case, used


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    try:
        with open(p) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def is_known(v, known):
    for k in known:
        if k["kind"] == v["kind"] and k["key"] == v["key"]:
            return k
    return None


def check(pid, tier, seed, jobs=None):
    t0 = time.monotonic()
    mod = load(pid)
    acabuild.preload()
    if hasattr(mod, "setup"):
        mod.setup()
    jobs = jobs or int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    if os.environ.get("VERIF_RUNS"):
        n = int(os.environ["VERIF_RUNS"])
    import gc
    gc.collect()
    gc.freeze()
    results = {}
    bad = []
    known = known_findings(pid)

    def on_result(i, r):
        results[i] = r
        if r.get("v") and not is_known(r["v"], known):
            bad.append(i)

    limit = 780 if tier == "quick" else 6 * 3600
    try:
        run_many(mod, seed, list(range(n)), jobs, on_result,
                 stop=lambda: len(bad) >= 24, deadline=t0 + limit)
    except TimeoutError:
        if not bad:
            print("ERROR property=%s: out of wall time after %d of %d runs"
                  % (pid, len(results), n))
            return 2
    errs = [(i, r["err"]) for i, r in sorted(results.items()) if "err" in r]
    status = 0
    seen_known = {}
    for i, r in sorted(results.items()):
        if r.get("v"):
            k = is_known(r["v"], known)
            if k is not None:
                seen_known.setdefault(json.dumps(k), i)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s"
              % (pid, json.loads(k)["what"]))
    nviol = 0
    reported = set()
    for i in sorted(bad):
        v = results[i]["v"]
        sig = (v["kind"], v["key"])
        if sig in reported or nviol >= 3:
            continue
        case = case_for(mod, seed, i)
        again = run_one(mod, case)
        if not same(again.get("v"), v):
            # did not repeat in a fresh process: state leaked between runs
            # of one worker, which no user of the compiler can meet
            print("NOTE: run %d did not fail again alone (%s)"
                  % (i, v["kind"]))
            continue
        reported.add(sig)
        nviol += 1
        small, used = shrink(mod, case, v, jobs,
                             seconds=60 if nviol == 1 else 20)
        final = run_one(mod, small)
        if not same(final.get("v"), v):
            small, final = case, again
        path = write_replay(mod, pid, seed, i, small, final["v"], used)
        print("violation: %s: %s" % (final["v"]["kind"],
                                     str(final["v"]["msg"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    if errs and status == 0:
        print("ERROR property=%s: %d harness errors; first (run %d):\n%s"
              % (pid, len(errs), errs[0][0], errs[0][1]))
        status = 2
    wall = time.monotonic() - t0
    write_evidence(mod, pid, tier, seed, results, wall, nviol, jobs,
                   [json.loads(k) for k in seen_known])
    ok = [r for r in results.values() if "err" not in r]
    print("%s %s: %d runs, %d discarded, %d violations, %.1f s"
          % (pid, tier, len(ok), sum(1 for r in ok if r["d"]), nviol, wall))
    return status


def write_replay(mod, pid, seed, index, case, v, used):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, digest(case)[:12]))
    body = {"property": pid, "seed": seed, "run": index, "violation": v,
            "shrink_runs": used, "case": case}
    if hasattr(mod, "describe"):
        try:
            body["readable"] = mod.describe(case)
        except Exception:
            pass
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
        f.write("\n")
    return path


def replay(path):
    with open(path) as f:
        body = json.load(f)
    mod = load(body["property"])
    acabuild.preload()
    if hasattr(mod, "setup"):
        mod.setup()
    r = run_one(mod, body["case"])
    v = r.get("v")
    if "err" in r:
        print(r["err"])
        return 2
    if v is None:
        print("no violation")
        return 0
    print("violation: %s: %s" % (v["kind"], v["msg"]))
    print("same as recorded: %s" % (v == body["violation"]))
    print("VIOLATION property=%s replay=%s" % (body["property"], path))
    return 1


def write_evidence(mod, pid, tier, seed, results, wall, nviol, jobs, known):
    ok = {i: r for i, r in results.items() if "err" not in r}
    stats, faults, maxima = {}, {}, {}
    sigs, nontriv = set(), set()
    samples = []
    disc = {}
    for i in sorted(ok):
        r = ok[i]
        if r["d"]:
            disc[r["d"]] = disc.get(r["d"], 0) + 1
            continue
        for k, v in r["s"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["f"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["m"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        sigs.update(r["g"])
        if r["n"]:
            nontriv.update(r["g"])
        if r["n"] and r["x"] is not None and len(samples) < 2:
            samples.append({"run": i, "case": r["x"]})
    done = len(ok) - sum(disc.values())
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples,
        "discarded": disc,
        "distinct_behaviours": len(sigs),
        "runs_per_hour": int(done / wall * 3600) if wall > 0 else 0,
        "seeds_per_hour": int(done / wall * 3600) if wall > 0 else 0,
        "simulated_ticks": stats.get("ticks", 0),
        "simulated_seconds": stats.get("ticks", 0) / 20.0,
        "faults_injected": faults,
        "counters": stats,
        "maxima": maxima,
        "components": getattr(mod, "COMPONENTS", COMPONENTS),
        "workers": jobs,
        "known_findings_met": known,
    }
    ev = {"property": pid, "tier": tier, "seed": int(seed),
          "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


COMPONENTS = {
    "real": ["acaciamc tokenizer, parser, generator, objects, modules, "
             "optimizer and output manager from /repo"],
    "stub": ["the Minecraft Bedrock world (dst/mcworld.py): scoreboards, "
             "entities, blocks, ticks, areas, command execution"],
}

ASSUMPTIONS = [
    "the simulated world executes commands as Minecraft Bedrock documents "
    "them (see DESIGN.md, 'The simulated world')",
    "a clean batch is evidence over the sampled runs, not a proof",
]


def trace_digest(pid, seed, indices):
    """Digest of the traces of some runs, for the determinism self test."""
    mod = load(pid)
    acabuild.preload()
    if hasattr(mod, "setup"):
        mod.setup()
    res = {}
    run_many(mod, seed, list(indices),
             int(os.environ.get("VERIF_JOBS", 4)),
             lambda i, r: res.__setitem__(i, r))
    return {i: digest(res[i]) for i in sorted(res)}
