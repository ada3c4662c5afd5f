"""A fresh process that compiles a list of projects under a given environment:
its hash seed and memory layout come from the command line, everything else
(disk, place, directory order, clock, what was compiled before) from the job.

    python3 -B -m dst.repro < job.json > result.json
"""

import io
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_fixed = None


def fixed_layout():
    """The prefix of a command that runs it without address randomization."""
    global _fixed
    if _fixed is None:
        try:
            r = subprocess.run(["setarch", "-R", "true"],
                               capture_output=True, timeout=20)
            _fixed = ["setarch", "-R"] if r.returncode == 0 else []
        except OSError:
            _fixed = []
    return _fixed


def spawn(job, hash_seed):
    """Run a job in a fresh process."""
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "ACACIA_REPO")}
    env["PYTHONHASHSEED"] = str(hash_seed)
    env.update(job.get("env", {}))
    try:
        r = run(job, env)
    except subprocess.TimeoutExpired:
        return {"died": "no end after 120 s"}
    if r.returncode != 0:
        return {"died": r.stderr.decode("utf-8", "replace")[-2000:]}
    return json.loads(r.stdout)


def run(job, env):
    return subprocess.run(
        fixed_layout() + [sys.executable, "-B", "-W", "ignore", "-m",
                          "dst.repro"],
        input=json.dumps(job).encode(), cwd=HERE, env=env,
        capture_output=True, timeout=120)


def compile_step(job, step, junk):
    from . import acabuild, vfs
    from acaciamc.compiler import Compiler, Config
    from acaciamc.error import Error
    p = job["projects"][step["project"]]
    rng = random.Random(step["seed"])
    base = vfs.ROOT + "/" + step["place"]
    fs = vfs.FS(rng, cwd=base if step.get("cwd") else vfs.ROOT,
                watched=[os.path.join(os.path.realpath(acabuild.REPO),
                                      "acaciamc", "modules")],
                shuffle=step.get("shuffle", False))
    fs.clock = step.get("clock", 1_600_000_000)
    items = sorted(p["files"].items())
    if step.get("shuffle"):
        rng.shuffle(items)
    fs.mkdirs(base)
    src = base
    if step.get("linked"):
        src = vfs.ROOT + "/through"
        fs.symlink(src, base)
    for rel, t in items:
        fs.put(base + "/" + rel, t)
    fs.mkdirs(vfs.ROOT + "/out")
    if step.get("fault"):
        kind, n = step["fault"]
        fs.plan[kind, n] = ["EIO", None]
    cfg = dict(p["config"], **step.get("config", {}))
    if "mc_version" in cfg:
        cfg["mc_version"] = tuple(cfg["mc_version"])
    cfg["encoding"] = "utf-8"
    main = (src + "/main.aca") if not step.get("cwd") else "main.aca"
    random.seed(step["seed"])
    out = {"ok": False}
    try:
        with fs:
            c = Compiler(main, Config(**cfg))
            for _ in range(step.get("outputs", 1)):
                c.output(vfs.ROOT + "/out")
        out["ok"] = True
    except Error as e:
        out["msg"] = e.full_msg()
    except RecursionError:
        out["msg"] = "internal: RecursionError"
    except Exception as e:
        out["msg"] = "internal: %s: %s" % (type(e).__name__, e)
    if step.get("fault"):
        return None
    if not out["ok"]:
        for place in (vfs.ROOT + "/through", base):
            out["msg"] = out["msg"].replace(place + "/", "")
        return out
    n = len(vfs.ROOT + "/out/")
    out["files"] = {q[n:]: v[1].decode("utf-8", "replace")
                    for q, v in fs.snapshot().items()
                    if v[0] == "f" and q.startswith(vfs.ROOT + "/out/")}
    for _ in range(step.get("junk", 0)):
        junk.append(bytearray(rng.randrange(16, 700)))
        if rng.random() < .3:
            del junk[rng.randrange(len(junk))]
    return out


def main():
    job = json.load(sys.stdin)
    real = sys.stdout
    sys.stdout = sys.stderr = io.StringIO()
    from . import acabuild
    acabuild.preload()
    junk = [bytearray(i % 600 + 1) for i in range(job.get("junk", 0))]
    del junk[::2]
    res = [compile_step(job, s, junk) for s in job["steps"]]
    sys.stdout = real
    json.dump(res, real)


if __name__ == "__main__":
    main()
