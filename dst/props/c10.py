"""C10: the compiler command under I/O faults and crashes."""

import contextlib
import io
import json
import os
import posixpath
import random
import sys

from .. import acabuild, packs, vfs
from ..engine import Outcome, digest

ID = "C10"
QUICK = 3500
THOROUGH = 90000
RULE = ("a random history of a project on a simulated disk: versions of a "
        "source tree (several modules, interfaces, tick functions; some do "
        "not compile), foreign files and links in and beside the output "
        "directory, and runs of the real command line entry point with "
        "random options, each run with a random fault plan (errors, short "
        "and torn reads and writes, failing closes, a full disk, read-only "
        "directories, stalls, a crash at any operation with torn data); "
        "after every run the whole disk is compared with what the run may "
        "have done, after a claimed success the pack is compared byte for "
        "byte with that of an undisturbed run, and at the end, without "
        "faults, the command has to succeed; distinct = different sequence "
        "of outcomes, options and faults; non-trivial = at least one fault "
        "fired or one run removed old output")

SRC = vfs.ROOT + "/w/src"
WORK = vfs.ROOT + "/w"


# Option values that cannot be meant
MEANINGLESS = [("v", "1.19"), ("v", "1.18.30"), ("v", "1"), ("v", "newest"),
               ("v", "1.-20.1"), ("v", "1..20"), ("v", "1.20.x"), ("M", -1),
               ("s", "9s"), ("s", "a b"), ("s", "a-b"), ("f", "a/9"),
               ("f", "a b/c"), ("f", "../x"), ("f", "."), ("m", "a/b"),
               ("m", "../main"), ("m", "9"), ("m", "a.b"), ("i", "../init"),
               ("i", "a b"), ("i", "9"), ("internal", "a/b"),
               ("internal", ".."), ("internal", "1")]


def gen_options(rng):
    o = {}
    o["out"] = rng.choice([None, "out", "out", "/vfs/w/out", "./out/",
                           "pub/out", "link", "absent/deep/out"])
    if rng.random() < .5:
        o["u"] = 1
    if rng.random() < .55:
        o["f"] = rng.choice(["lib", "a/b", "/a//b/", "lib/"])
    if rng.random() < .2:
        o["d"] = 1
    if rng.random() < .2:
        o["O"] = 1
    if rng.random() < .2:
        o["m"] = "start"
    if rng.random() < .2:
        o["i"] = rng.choice(["", "boot"])
    if rng.random() < .15:
        o["internal"] = "lib_"
    if rng.random() < .15:
        o["encoding"] = rng.choice(["utf-8", "utf-16", "ascii", "gbk",
                                    "latin-1", "no-such-codec"])
    if rng.random() < .15:
        o["verbose"] = 1
    if rng.random() < .1:
        o["s"] = "board"
    if rng.random() < .2:
        o["v"] = rng.choice(["1.19.50", "1.19.80", "1.20.0.5", "1.20.10",
                             "1.21", "2.0.0"])
    if rng.random() < .15:
        o["t"] = rng.choice(["tg", "Z_9"])
    if rng.random() < .15:
        o["M"] = rng.choice([0, 1, 7, 100])
    if rng.random() < .1:
        o["e"] = 1
    if rng.random() < .06:
        k, v = rng.choice(MEANINGLESS)
        o[k] = v
        o["bad"] = 1
    o["abs"] = rng.random() < .5
    return o


def gen_faults(rng):
    k = rng.random()
    out = {}
    if k < .3:
        return out
    if k < .4:
        out["room"] = rng.choice([0, 1, 10, 100, 300, 1000])
        return out
    if k < .47:
        out["readonly"] = rng.choice([[WORK], [WORK + "/out"],
                                      [WORK + "/out/a", WORK + "/out/lib"],
                                      [vfs.ROOT + "/pub"]])
        return out
    plan = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(vfs.KINDS[:-1])
        if rng.random() < .35:
            kind = rng.choice(["write", "open_w", "close", "unlink",
                               "open_r", "read"])
        what = rng.random()
        if what < .12:
            f = ["short", rng.choice([1, 2, 7, 100])]
        elif what < .17:
            f = ["slow", 0]
        elif what < .4:
            f = ["crash", rng.randrange(400)]
        else:
            f = [rng.choice(["EIO", "EACCES", "ENOSPC", "EMFILE", "EROFS",
                             "ENOMEM", "ESTALE", "EBUSY"]),
                 rng.choice([None, rng.randrange(400)])]
        # which operation of that kind, as a part of all there are (of
        # those in the output directory)
        plan.append([kind, rng.random() if rng.random() < .8 else 0.0, f,
                     rng.random() < .5])
    out["plan"] = plan
    return out


FOREIGN = ["out/mine.txt", "out/other/x.mcfunction", "out/lib/old.mcfunction",
           "out/a/b/old/deep.mcfunction", "out/a/keep.mcfunction",
           "out/main.mcfunction", "out/tick.json", "src/main.acaout/old.txt",
           "pub/out/lib/z.mcfunction", "pub/note", "keep/data", "out/lib2/q",
           "out/a/b2/q"]


def gen_case(rng, index):
    vers = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        f = packs.Pack(rng).build()
        bad = None
        if rng.random() < .25:
            f, bad = packs.damage(rng, f)
        vers.append({"files": f, "bad": bad})
    steps = []
    opt = gen_options(rng)
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if k < .3:
            steps.append(["foreign", rng.choice(FOREIGN)])
        elif k < .36:
            steps.append(["link", rng.choice(["out/lib/ln", "out/a/b/ln",
                                              "out/ln", "out/lib"]),
                          rng.choice(["/vfs/w/keep", "/vfs/w/keep/data",
                                      "/vfs/w/src"])])
        elif k < .42:
            steps.append(["isdir", rng.choice(
                ["out/lib/main.mcfunction", "out/tick.json",
                 "out/main.mcfunction"])])
        elif k < .48:
            steps.append(["isfile", rng.choice(["out", "out/lib", "out/a",
                                                "out/_acacia"])])
        if rng.random() < .25:
            opt = gen_options(rng)
        steps.append(["run", rng.randrange(len(vers)), dict(opt),
                      gen_faults(rng)])
    good = [i for i, v in enumerate(vers) if v["bad"] is None]
    if good:
        steps.append(["run", rng.choice(good), dict(opt), {}])
    return {"versions": vers, "steps": steps, "seed": rng.randrange(1 << 30)}


def argv(o):
    a = [SRC + "/main.aca" if o.get("abs") else "src/main.aca"]
    if o.get("out") is not None:
        a += ["-o", o["out"]]
    if o.get("u"):
        a.append("-u")
    if o.get("f") is not None:
        a += ["-f", o["f"]]
    for k in "dO":
        if o.get(k):
            a.append("-" + k)
    if o.get("m"):
        a += ["-m", o["m"]]
    if o.get("s"):
        a += ["-s", o["s"]]
    if o.get("i") is not None:
        a += ["-i"] + ([o["i"]] if o["i"] else [])
    if o.get("internal"):
        a += ["--internal-folder", o["internal"]]
    if o.get("encoding"):
        a += ["--encoding", o["encoding"]]
    if o.get("verbose"):
        a.append("--verbose")
    if o.get("v"):
        a += ["-v" if o["abs"] else "--mc-version", o["v"]]
    if o.get("t"):
        a += ["-t" if o["abs"] else "--entity-tag", o["t"]]
    if o.get("M") is not None:
        a += ["--max-inline-file-size", str(o["M"])]
    if o.get("e"):
        a.append("-e")
    return a


def config(o):
    c = {"encoding": o.get("encoding") or "utf-8"}
    if o.get("f") is not None:
        c["root_folder"] = "/".join(p for p in o["f"].split("/") if p)
    if o.get("d"):
        c["debug_comments"] = True
    if o.get("O"):
        c["optimizer"] = False
    if o.get("m"):
        c["main_file"] = o["m"]
    if o.get("s"):
        c["scoreboard"] = o["s"]
    if o.get("i") is not None:
        c["split_init"] = True
        if o["i"]:
            c["init_file"] = o["i"]
    if o.get("internal"):
        c["internal_folder"] = o["internal"]
    if o.get("v") and not o.get("bad"):
        c["mc_version"] = tuple(int(x) for x in o["v"].split("."))
    if o.get("t"):
        c["entity_tag"] = o["t"]
    if o.get("M") is not None:
        c["max_inline_file_size"] = o["M"]
    if o.get("e"):
        c["education_edition"] = True
    return c


def watched():
    return [os.path.realpath(os.path.join(acabuild.REPO, "acaciamc",
                                          "modules"))]


def load_tree(fs, files, enc):
    """Replaces the sources, written in the encoding the user works with."""
    fs.drop(SRC + "/main.aca")
    d = fs.root.ch["w"].ch["src"].ch
    for n in [n for n in d if n != "main.acaout"]:
        del d[n]
    for rel, t in files.items():
        if isinstance(t, dict):
            data = bytes.fromhex(t["hex"])
        else:
            try:
                data = t.encode(enc)
            except (LookupError, UnicodeError):
                data = t.encode("utf-8")
        fs.put(SRC + "/" + rel, data)


def reference(fs, o):
    """What an undisturbed run of the compiler on these sources gives:
    {path: bytes}, or None if they are refused."""
    from acaciamc.compiler import Compiler, Config
    from acaciamc.error import Error
    clean = vfs.FS(random.Random(0), cwd=WORK, watched=watched(),
                   shuffle=False)
    clean.restore(fs.snapshot())
    clean.mkdirs(vfs.ROOT + "/ref")
    if o.get("bad"):
        return None, "was asked for with an option that has no meaning"
    cfg = config(o)
    enc = cfg["encoding"]
    try:
        for p, v in clean.snapshot().items():
            if p.endswith(".aca") and v[0] == "f":
                clean.put(p, v[1].decode(enc).encode("utf-8"))
        cfg["encoding"] = "utf-8"
    except (LookupError, UnicodeError):
        pass
    with clean:
        try:
            c = Compiler(argv(o)[0], Config(**cfg))
        except Error as e:
            return None, "refused: " + e.full_msg().splitlines()[0]
        except Exception as e:
            return None, "failed: " + type(e).__name__
        try:
            c.output(vfs.ROOT + "/ref")
        except Error:
            return None, "cannot be written"
    n = len(vfs.ROOT + "/ref/")
    try:
        return {p[n:]: v[1].decode("utf-8").encode(enc)
                for p, v in clean.snapshot().items()
                if v[0] == "f" and p.startswith(vfs.ROOT + "/ref/")}, None
    except (LookupError, UnicodeError):
        return None, "cannot be written"


def lacking(fs, ref, o):
    """What is missing in a pack that is said to be complete."""
    if o.get("bad"):
        return None, "was asked for with an option that has no meaning"
    cfg = config(o)
    enc = cfg["encoding"]
    pre = cfg.get("root_folder", "")
    pre += "/" if pre else ""
    need = {pre + cfg.get("main_file", "main")}
    if cfg.get("split_init"):
        need.add(pre + cfg.get("init_file", "init"))
    main = fs.snapshot()[SRC + "/main.aca"][1].decode(enc)
    lines = main.splitlines()
    for line, body in zip(lines, lines[1:]):
        if line.startswith("interface ") and body.strip() != "pass":
            need.add(pre + line[10:].rstrip(": "))
    for name, data in ref.items():
        text = data.decode(enc)
        if name == "tick.json":
            need |= set(json.loads(text)["values"])
            continue
        for line in text.splitlines():
            w = line.split()
            if w and w[0] in ("function", "execute", "schedule") and \
                    "function" in w[:-1]:
                need.add(w[len(w) - w[::-1].index("function")])
    for n in sorted(need):
        if n + ".mcfunction" not in ref:
            return n
    return None


def command(fs, args):
    """Run the real entry point; (status, stderr)."""
    from acaciamc import cli
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["acacia"] + args
    try:
        with fs, contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                cli.main()
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else e.code
            except vfs.SimCrash:
                status = "crash"
            except Exception as e:
                status = "raised %s" % type(e).__name__
    finally:
        sys.argv = old
    return status, err.getvalue()


def counts(fs, o):
    """The operations an undisturbed run does: {kind: [path]}."""
    c = vfs.FS(random.Random(0), cwd=WORK, watched=watched(), shuffle=False)
    c.restore(fs.snapshot())
    command(c, argv(o))
    ops = {}
    for kind, p in c.trace:
        ops.setdefault(kind, []).append(p)
    return ops


def outdir(fs, o):
    """The real place of the output directory."""
    p = o["out"] if o.get("out") is not None else \
        posixpath.splitext(argv(o)[0])[0] + ".acaout"
    return real(fs, posixpath.join(WORK, p))


def real(fs, p):
    """The place a path means, all links followed."""
    parts = posixpath.normpath(p).split("/")[1:]
    done, hops = "", 0
    while parts:
        nxt = done + "/" + parts.pop(0)
        try:
            n = fs.walk(nxt, follow=False)
        except OSError:
            n = None
        if isinstance(n, vfs.Link) and hops < 9:
            hops += 1
            nxt = posixpath.normpath(posixpath.join(done or "/", n.to))
            parts = nxt.split("/")[1:] + parts
            done = ""
            continue
        done = nxt
    return done


def changes(a, b):
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            yield p, a.get(p), b.get(p)


def places(fs, o, ref):
    """Where the output, the folder that -u empties and the files belong."""
    base = outdir(fs, o)
    folder = base
    if config(o).get("root_folder"):
        folder += "/" + config(o)["root_folder"]
        if not o.get("u"):
            folder = real(fs, folder)
    return base, folder, {
        base + "/" + k if o.get("u") else real(fs, base + "/" + k): v
        for k, v in (ref or {}).items()}


def judge(out, fs, o, before, where, status, err, ref, why):
    """Compare the disk with what the run may have done to it."""
    after = fs.snapshot()
    base, folder, own = where
    dirs = {base}
    for p in own:
        while p.count("/") > 1:
            p = posixpath.dirname(p)
            dirs.add(p)
    what = " ".join(argv(o))
    fired = "; ".join("%s %s" % f for f in fs.log) or "no fault"

    def fail(kind, msg):
        out.fail(kind, "acacia %s (%s): %s" % (what, fired, msg))
    if fs.escapes:
        return fail("escape", "%s of %s" % fs.escapes[0])
    # 1. clean end
    if status != "crash":
        if isinstance(status, str):
            return fail("unclean", "%s left the command" % status[7:])
        if status != 0 and not err.strip():
            return fail("silent", "status %r without a message" % status)
        if status != 0 and "Traceback" in err and not o.get("verbose"):
            return fail("unclean", "traceback shown")
    # 2. honest success
    if status == 0:
        if ref is None:
            return fail("claims-success", "success, but the program %s" % why)
        gone = lacking(fs, ref, o)
        if gone:
            return fail("incomplete", "success, but the pack has no "
                        "function %s" % gone)
        for p, v in sorted(own.items()):
            if after.get(p) != ("f", v):
                return fail("incomplete", "success, but %s is %s" % (
                    p, "missing" if p not in after else "not as compiled"))
        if o.get("u"):
            for p, v in after.items():
                if p.startswith(folder + "/") and v[0] != "d" and \
                        p not in own:
                    return fail("left", "-u succeeded, but %s is still there"
                                % p)
    elif ref is not None and not fs.log and status != "crash" and \
            legal(before, own, base, folder, o):
        return fail("refused", "status %r without any fault: %s"
                    % (status, err.strip()[:200]))
    # 3. nothing else changed
    for p, x, y in changes(before, after):
        inside = p == folder or p.startswith(folder + "/")
        if y is not None and y[0] == "d" and (
                x is None or o.get("u") and inside):
            if p in dirs:
                continue
            return fail("created", "directory %s was created" % p)
        if p in own:
            if x is None or y is not None and x[0] == y[0] == "f" or (
                    o.get("u") and inside):
                continue
        if y is None and inside and o.get("u"):
            if ref is None:
                return fail("removed", "%s was removed, but the program %s"
                            % (p, why))
            if status not in (0, "crash") and plan_reads_only(fs):
                return fail("removed", "%s was removed, but reading the "
                            "program failed" % p)
            continue
        if y is None:
            return fail("removed", "%s was removed" % p)
        if x is None:
            if status != 0 and posixpath.dirname(p) in dirs and any(
                    posixpath.basename(q) in posixpath.basename(p)
                    for q in own if posixpath.dirname(q)
                    == posixpath.dirname(p)):
                continue    # a temporary file of an unfinished run
            return fail("created", "%s was created" % p)
        return fail("overwritten", "%s was overwritten" % p)


def plan_reads_only(fs):
    """Only reading sources went wrong."""
    return bool(fs.log) and all(
        w.split()[-1] in ("open_r", "read") and not w.startswith("short")
        and p.endswith(".aca") for w, p in fs.log)


def legal(before, own, base, folder, o):
    """Nothing on the disk is in the way of the output."""
    up = posixpath.dirname(base)
    if up not in before and up != vfs.ROOT:
        return False
    if before.get(up, ("d",))[0] != "d" or \
            before.get(base, ("d",))[0] != "d":
        return False
    if not (folder + "/").startswith(base + "/"):
        return False
    p = folder
    while p != base:
        if before.get(p, ("d",))[0] == "l":
            return False
        if before.get(p, ("d",))[0] == "f":
            return False
        p = posixpath.dirname(p)
    for q in own:
        if not q.startswith(base + "/"):
            return False
        if o.get("u") and q.startswith(folder + "/"):
            continue
        if before.get(q, ("f",))[0] != "f":
            return False
        while q != base:
            q = posixpath.dirname(q)
            if before.get(q, ("d",))[0] != "d":
                return False
    return True


def run_case(case):
    out = Outcome()
    rng = random.Random(case["seed"])
    fs = vfs.FS(rng, cwd=WORK, watched=watched())
    for d in (SRC, vfs.ROOT + "/pub", WORK + "/keep"):
        fs.mkdirs(d)
    fs.put(WORK + "/keep/data", "keep")
    fs.symlink(WORK + "/pub", vfs.ROOT + "/pub")
    fs.symlink(WORK + "/link", vfs.ROOT + "/pub/linked")
    fs.mkdirs(vfs.ROOT + "/pub/linked")
    fs.put(vfs.ROOT + "/pub/linked/lib/x.mcfunction", "say x\n")
    sig = []
    runs = 0
    for st in case["steps"]:
        if st[0] == "foreign":
            fs.put(WORK + "/" + st[1], "foreign " + st[1])
        elif st[0] == "link":
            fs.drop(WORK + "/" + st[1])
            fs.symlink(WORK + "/" + st[1], st[2])
        elif st[0] == "isdir":
            fs.drop(WORK + "/" + st[1])
            fs.mkdirs(WORK + "/" + st[1] + "/in")
        elif st[0] == "isfile":
            fs.drop(WORK + "/" + st[1])
            fs.put(WORK + "/" + st[1], "in the way")
        if st[0] != "run":
            continue
        _, vi, o, faults = st
        ver = case["versions"][vi % len(case["versions"])]
        load_tree(fs, ver["files"], config(o)["encoding"])
        ref, why = reference(fs, o)
        before = fs.snapshot()
        where = places(fs, o, ref)
        have = counts(fs, o) if faults.get("plan") else {}
        fs.reset()
        for kind, part, f, near in faults.get("plan", ()):
            at = [n for n, p in enumerate(have.get(kind, ()))
                  if not near or (p + "/").startswith(where[0] + "/")]
            if at:
                fs.plan[kind, at[min(len(at) - 1, int(part * len(at)))]] = f
        fs.room = faults.get("room")
        fs.readonly = tuple(faults.get("readonly", ()))
        status, err = command(fs, argv(o))
        runs += 1
        for w, _ in fs.log:
            out.fault(w)
        ops = sum(fs.count.values())
        out.count("io_operations", ops)
        out.count("runs_of_the_command")
        out.count("ended_" + str(status).split()[0])
        out.maxima["io_operations_in_one_run"] = max(
            ops, out.maxima.get("io_operations_in_one_run", 0))
        if why:
            out.count("sources_" + why.split(":")[0].replace(" ", "_"))
        removed = fs.count["unlink"] + fs.count["rmdir"]
        out.count("removals", removed)
        fs.plan, fs.room, fs.readonly = {}, None, ()
        fs.frozen = False
        judge(out, fs, o, before, where, status, err, ref, why)
        sig.append([argv(o)[1:], str(status), [w for w, _ in fs.log],
                    ref is not None])
        if fs.log or removed:
            out.nontrivial = True
        if out.violation:
            break
    out.sigs = [digest(sig)]
    out.trace = digest(sig, {p: (v[1].hex() if v[0] == "f" else v)
                             for p, v in fs.snapshot().items()})
    out.sample = {"steps": case["steps"], "outcomes": sig,
                  "main.aca": case["versions"][0]["files"].get("main.aca")}
    return out


def shrinks(case):
    steps = case["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield dict(case, steps=steps[:i] + steps[i + 1:])
    for i, st in enumerate(steps):
        if st[0] != "run":
            continue

        def put(new):
            return dict(case, steps=steps[:i] + [new] + steps[i + 1:])
        plan = st[3].get("plan", [])
        for j in range(len(plan)):
            yield put(st[:3] + [dict(st[3], plan=plan[:j] + plan[j + 1:])])
        if st[3].get("plan") == []:
            yield put(st[:3] + [{}])
        for k in st[2]:
            if k not in ("abs", "out") and st[2][k]:
                yield put(st[:2] + [{a: b for a, b in st[2].items()
                                     if a != k}] + st[3:])
    for i, v in enumerate(case["versions"]):
        for rel, t in v["files"].items():
            if isinstance(t, dict):
                continue
            lines = t.splitlines(True)
            for j in range(len(lines)):
                f = dict(v["files"])
                f[rel] = "".join(lines[:j] + lines[j + 1:])
                yield dict(case, versions=case["versions"][:i]
                           + [dict(v, files=f)] + case["versions"][i + 1:])


def describe(case):
    d = {"sources": {}, "steps": []}
    for i, v in enumerate(case["versions"]):
        for rel, t in v["files"].items():
            d["sources"]["v%d/%s" % (i, rel)] = t
    for st in case["steps"]:
        d["steps"].append(st if st[0] != "run" else
                          ["version %d" % st[1], "acacia " + " ".join(
                              argv(st[2])), st[3]])
    return d


COMPONENTS = {
    "real": ["acaciamc.cli.main with argparse, acaciamc.compiler and "
             "everything below it, os.path, os.makedirs, shutil.rmtree, "
             "Python's text and buffered files"],
    "stub": ["the system calls below them (dst/vfs.py): stat, listdir, "
             "scandir, mkdir, rmdir, unlink, rename, readlink, open and the "
             "raw reads, writes and closes of files; sys.argv, stderr; the "
             "clock"]}
ASSUMPTIONS = [
    "the process that compiles is the only one that changes the disk",
    "a crash loses or tears only data of files written by that run",
]
