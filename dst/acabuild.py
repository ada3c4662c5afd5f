"""Runs the real compiler of /repo on generated sources.

The compiler is imported from /repo's working tree (ACACIA_REPO overrides the
place, for scratch copies) and runs unmodified; only its inputs are generated
and its outputs are read back from a scratch directory.
"""

import json
import os
import shutil
import sys
import tempfile
import traceback
import types

REPO = os.environ.get("ACACIA_REPO", "/repo")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def _prepare():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_prepare()


def install_mido(stub):
    m = types.ModuleType("mido")
    for k, v in stub.items():
        setattr(m, k, v)
    sys.modules["mido"] = m


def preload():
    """Import the compiler (not running it) before workers are forked."""
    import acaciamc.compiler  # noqa
    import acaciamc.cli  # noqa


class CompileResult:
    __slots__ = ("ok", "kind", "msg", "files", "tick", "raw", "warn")

    def __init__(self):
        self.ok = False
        self.kind = None     # "reject" | "crash"
        self.msg = ""
        self.files = {}      # function name -> text
        self.tick = None
        self.raw = {}        # relative path -> bytes


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix="acadst", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def read_tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def split_tree(raw, encoding="utf-8"):
    files, tick = {}, None
    for rel, data in raw.items():
        if rel.endswith(".mcfunction"):
            files[rel[:-len(".mcfunction")].replace(os.sep, "/")] = \
                data.decode(encoding)
        elif rel == "tick.json":
            tick = data.decode(encoding)
    return files, tick


def compile_sources(sources, config=None, main="main.aca", scratch=None):
    """sources: {relative path: text}; config: dict for Config."""
    _prepare()
    from acaciamc.compiler import Compiler, Config
    from acaciamc.error import Error
    r = CompileResult()
    cfg = dict(config or {})
    if "mc_version" in cfg:
        cfg["mc_version"] = tuple(cfg["mc_version"])
    cfg.setdefault("encoding", "utf-8")
    with Scratch() as d:
        src, out = os.path.join(d, "src"), os.path.join(d, "out")
        os.mkdir(src)
        os.mkdir(out)
        for rel, text in sources.items():
            p = os.path.join(src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
        try:
            c = Compiler(os.path.join(src, main), Config(**cfg))
            c.output(out)
        except Error as e:
            r.kind = "reject"
            r.msg = str(e).replace(d, "")
            return r
        except RecursionError:
            r.kind = "crash"
            r.msg = "RecursionError"
            return r
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if "acaciamc" in f.filename]
            where = "%s:%s" % (os.path.basename(fr[-1].filename),
                               fr[-1].name) if fr else "?"
            r.kind = "crash"
            r.msg = "%s: %s at %s" % (type(e).__name__,
                                      str(e).replace(d, ""), where)
            return r
        r.raw = read_tree(out)
        r.files, r.tick = split_tree(r.raw)
        r.ok = True
    return r


def dump(r):
    return json.dumps({"files": r.files, "tick": r.tick}, indent=1)
