#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
    "C01": "deterministic simulation: seeded programs and event histories "
           "(re-runs, restarts, crash rollbacks) against a reference "
           "interpreter",
    "C02": "deterministic simulation: one program under several "
           "configurations replayed through the same seeded history",
    "C03": "deterministic simulation: seeded tick schedules with stalls, "
           "restarts and rollbacks against a timer model",
    "C04": "deterministic simulation: seeded tick schedules with restarts "
           "and rollbacks against a period model",
    "C05": "deterministic simulation: seeded area loading schedules against "
           "a pending-request model",
    "C06": "deterministic simulation: seeded object histories with external "
           "kills and moves against an object model",
    "C07": "deterministic simulation: seeded set histories over a changing "
           "population against a set model",
    "C08": "deterministic simulation: seeded module graphs and entry "
           "histories against an import model",
    "C09": "deterministic simulation: init/main re-runs, restarts and crash "
           "rollbacks at seeded points against a durable state model",
    "C10": "deterministic fault injection: seeded I/O faults at every file "
           "operation of the real compiler command",
    "C11": "deterministic simulation: seeded hash seeds, directory orders, "
           "locations and process histories, byte comparison",
    "C12": "deterministic fault injection: seeded torn, corrupted and "
           "spliced source files",
    "C13": "deterministic simulation: seeded interleavings of two packs in "
           "one world against each pack alone",
    "C14": "deterministic simulation: seeded random source and expression "
           "contexts against exact arithmetic",
    "C15": "deterministic simulation: rendered text at seeded moments "
           "against a formatting model",
    "C16": "deterministic simulation: seeded scores, speeds, restarts and "
           "ticks against a playback model",
    "C17": "deterministic simulation: seeded worlds and context chains "
           "against a context model, differential world comparison",
    "C18": "deterministic simulation: seeded container programs and "
           "histories against a value model",
}
NOT_APPLICABLE = {
    "C19": "parsing options and wording errors are pure functions of one "
           "input: there is no schedule, time, fault or history for a "
           "simulator to decide (fault behaviour of the command is C10)",
}
LEVEL_NOTE = (
    "Seeded search: every run is repeatable from its seed, and a violation "
    "comes with a minimised replay file. A clean run is evidence over the "
    "sampled runs only. Trusts the simulated Minecraft world and the "
    "reference model described in DESIGN.md.")


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(
        HERE, "dst", "props")) if f.startswith("c") and f.endswith(".py")}
    checks, na = [], []
    for pid, tech in sorted(CLAIMED.items()):
        if pid in built:
            checks.append({
                "property": pid,
                "quick_cmd": "python3 check.py %s --tier quick" % pid,
                "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                "technique": tech, "level": "exploration",
                "level_note": LEVEL_NOTE})
        else:
            na.append({"property": pid,
                       "reason": "check not built yet"})
    for pid, why in sorted(NOT_APPLICABLE.items()):
        na.append({"property": pid, "reason": why})
    m = {"version": 1,
         "setup_cmd": "python3 -B check.py selftest --smoke",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks were added to /repo: the compiler's inputs, "
                  "file access and random source are reached through "
                  "arguments and the standard library, and the game is "
                  "simulated. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
