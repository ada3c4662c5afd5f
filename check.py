#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | replay FILE | selftest"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("PYTHONHASHSEED") is None:
    # one fixed hash seed: string hashing is a source of nondeterminism
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-W", "ignore",
                              os.path.join(HERE, "check.py")] + sys.argv[1:])

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    from dst import engine
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "replay":
        return engine.replay(argv[1])
    if argv[0] == "trace":
        import json
        d = engine.trace_digest(argv[1], argv[2], range(int(argv[3])))
        print(json.dumps(d))
        return 0
    if argv[0] == "selftest":
        from dst import selftest
        return selftest.main(argv[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        return engine.check(argv[0], tier, seed)
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR property=%s: the harness failed" % argv[0])
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
