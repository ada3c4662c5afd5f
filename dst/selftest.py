"""Self tests of the machinery: determinism and a smoke run."""

import json
import os
import subprocess
import sys

from . import engine

CHECK = os.path.join(engine.ROOT, "check.py")


def built():
    d = os.path.join(engine.ROOT, "dst", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith("c") and f.endswith(".py"))


def trace(pid, seed, n, hashseed, jobs):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
               VERIF_JOBS=str(jobs))
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", CHECK, "trace",
                        pid, str(seed), str(n)], env=env,
                       capture_output=True, text=True)
    return json.loads(r.stdout.splitlines()[-1])


def main(argv):
    smoke = "--smoke" in argv
    pids = [a for a in argv if not a.startswith("-")] or built()
    bad = 0
    for pid in pids:
        if smoke:
            # no more than proof that the pieces import and run here
            try:
                engine.trace_digest(pid, 0, range(2))
            except Exception as e:
                print("smoke %s: %r" % (pid, e))
                bad = 1
            continue
        n = 60
        base = trace(pid, 7, n, 0, 8)
        for hs, jobs in ((0, 1), (1, 8), (12345, 3), (99, 5)):
            other = trace(pid, 7, n, hs, jobs)
            diff = [i for i in base if base[i] != other.get(i)]
            if diff:
                print("%s: runs %s differ under PYTHONHASHSEED=%s jobs=%s"
                      % (pid, diff[:5], hs, jobs))
                bad = 1
        print("%s: %d runs x 5, deterministic" % (pid, n) if not bad
              else "%s: see above" % pid)
    print("self test", "failed" if bad else "ok")
    return bad
