"""C12: damaged sources never crash the compiler."""

import os
import re
import resource
import signal
import sys
import time
import traceback

from .. import acabuild, corpus, mcworld, vfs, wild
from ..engine import Hang, Outcome, digest, norm

ID = "C12"
QUICK = 2600
THOROUGH = 60000
CASE_CPU = 60.0
RULE = ("a project (from the program generators of the other properties, "
        "hand written samples covering the language and the library, and "
        "module trees) put on a simulated disk and damaged there: torn at "
        "any byte, blocks lost, zeroed, repeated, stale or taken from "
        "another file, flipped bits, other encodings, lines and tokens "
        "lost, repeated, swapped or replaced, broken indentation, numbers "
        "out of range, modules missing; the real compiler runs on it; the "
        "run has to end in time with a located error or a pack whose every "
        "command parses; distinct = different kind of damage and result; "
        "non-trivial = the damage changed the text")

SRC = vfs.ROOT + "/src"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT_CPU = 12.0
_samples = None


def setup():
    acabuild.preload()
    samples()


def samples():
    global _samples
    if _samples is None:
        _samples = {}
        d = os.path.join(HERE, "samples")
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                _samples[n] = f.read()
    return _samples


TOKEN = re.compile(r"[^\W\d]\w*|\d\w*|[ \t]+|\n|->|:=|[-+*/%=!<>]=|[^\w\s]|.",
                   re.S)
KEYWORDS = ["def", "if", "elif", "else", "while", "for", "in", "pass",
            "interface", "inline", "const", "entity", "struct", "extends",
            "virtual", "override", "static", "new", "self", "result",
            "return", "import", "from", "as", "and", "or", "not", "True",
            "False", "None", "&", ":=", "=", "->", "(", ")", "[", "]", "{",
            "}", ",", ":", ".", "@", "#", "#*", "*#", "/", "/*", "*/", "\\",
            "\"", "${", "%", "+", "-", "*", "==", "<", "!=", "int", "bool",
            "Pos", "Engroup", "list", "map", "0", "1", "-1", "\n", "\t",
            "    ", ";", "!", "$", "'", "\u00e9", "\uff11", "\x0c", "\x00",
            "if", "0x1F", "0b102", "1e5", "1.5", "09", "7_0", "0xZ"]
NUMBERS = ["2147483647", "2147483648", "-2147483648", "-2147483649",
           "99999999999999999999", "0", "-1", "1.5", "0.0", "1e999",
           "0x7fffffff", "0b1111", "3", "\"3\"", "True", "None", "{}", "()",
           "1" * 5000, "1" * 400 + ".0", "0.00000001"]
ESCAPES = ["\\x4", "\\u12", "\\U00110000", "\\ud800", "\\#(", "\\#(red",
           "\\#(nope)", "\\q", "\\", "\\\"", "${", "${}", "${1", "${\"}",
           "%", "%{", "%9", "%%", "\\n", "\\u0000", "\n", "\\x00"]


def _pos(rng, s):
    if not s:
        return 0
    return rng.randrange(len(s) + 1)


def d_torn(rng, s, others):
    return s[:_pos(rng, s)]


def d_torn_in(rng, s, others):
    """Torn inside something that is more than one character."""
    at = [m.end() for m in re.finditer(
        rb"\\.|\$\{|\"|/\*|#\*|[\[({,:=.@&]|0[xb]|->|\*/", s)]
    if not at:
        return d_torn(rng, s, others)
    s = s[:rng.choice(at) + rng.choice([-1, 0, 0, 0, 1, 2])]
    if rng.random() < .4:
        s += rng.choice([b"\\x4", b"\\u12", b"\\U0001f6", b"\\#(", b"\\#(red",
                         b"\\", b"${", b"${1", b"\"", b"#*", b"/*", b"@", b"0x"])
    return s


def d_tail(rng, s, others):
    return s[_pos(rng, s):]


def d_hole(rng, s, others):
    a = _pos(rng, s)
    n = rng.choice([1, 4, 16, 64, 512])
    return s[:a] + b"\0" * min(n, len(s) - a) + s[a + n:]


def d_lost(rng, s, others):
    a = _pos(rng, s)
    return s[:a] + s[a + rng.choice([1, 2, 3, 8, 32, 128, 512]):]


def d_again(rng, s, others):
    a = _pos(rng, s)
    n = rng.choice([1, 2, 8, 32, 128, 512])
    return s[:a] + s[a:a + n] + s[a:]


def d_flip(rng, s, others):
    if not s:
        return s
    b = bytearray(s)
    for _ in range(rng.choice([1, 1, 2, 5])):
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


def d_splice(rng, s, others):
    o = rng.choice(others)
    a, b = _pos(rng, s), _pos(rng, o)
    k = rng.random()
    if k < .5:
        return s[:a] + o[b:]
    n = rng.choice([8, 64, 512])
    return s[:a] + o[b:b + n] + s[a + (n if k < .75 else 0):]


def d_bytes(rng, s, others):
    a = _pos(rng, s)
    junk = rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xef\xbb\xbf",
                       b"\r", b"\r\n", b"\x0b", b"\x0c", b"\x1a", b"\x85",
                       b"\xe2\x80\xa8", b"\xc2\xa0", b"\xf0\x9f\x98\x80",
                       b"\xef\xbc\x91", b"\xc2\xb2", b"\xd9\xa1", b"\xcc\x81",
                       b"\x7f", b"\xef\xbc\x88"])
    return s[:a] + junk + s[a:]


def d_encoding(rng, s, others):
    t = s.decode("utf-8", "replace")
    k = rng.choice(["utf-16", "utf-8-sig", "crlf", "cr", "latin", "upper"])
    if k == "crlf":
        return s.replace(b"\n", b"\r\n")
    if k == "cr":
        return s.replace(b"\n", b"\r")
    if k == "latin":
        return t.replace("e", "\u00e9").encode("latin-1", "replace")
    if k == "upper":
        return t.upper().encode()
    return t.encode(k)


def _lines(f):
    def g(rng, s, others):
        L = s.split(b"\n")
        f(rng, L, others)
        return b"\n".join(L)
    return g


@_lines
def d_line_lost(rng, L, others):
    a = rng.randrange(len(L))
    del L[a:a + rng.choice([1, 1, 1, 2, 4])]


@_lines
def d_line_again(rng, L, others):
    a, b = rng.randrange(len(L)), rng.randrange(len(L))
    L[b:b] = L[a:a + rng.choice([1, 1, 2, 5])]


@_lines
def d_line_swap(rng, L, others):
    a, b = rng.randrange(len(L)), rng.randrange(len(L))
    L[a], L[b] = L[b], L[a]


@_lines
def d_line_other(rng, L, others):
    o = rng.choice(others).split(b"\n")
    a, b = rng.randrange(len(L)), rng.randrange(len(o))
    n = rng.choice([1, 1, 2, 6])
    ind = L[a][:len(L[a]) - len(L[a].lstrip())]
    L[a:a] = [ind + x.lstrip() if rng.random() < .8 else x
              for x in o[b:b + n]]


@_lines
def d_indent(rng, L, others):
    a = rng.randrange(len(L))
    n = rng.choice([1, 1, 2, 4, len(L)])
    k = rng.random()
    for i in range(a, min(a + n, len(L))):
        if k < .35:
            L[i] = b" " * rng.choice([1, 4, 8]) + L[i]
        elif k < .7:
            L[i] = L[i][rng.choice([1, 4, 100]) if L[i][:1] == b" "
                        else 0:] if L[i].strip() else L[i]
            if k > .6:
                L[i] = L[i].lstrip()
        else:
            L[i] = L[i].replace(b"    ", b"\t")


@_lines
def d_join(rng, L, others):
    if len(L) < 2:
        return
    a = rng.randrange(len(L) - 1)
    L[a:a + 2] = [L[a] + rng.choice([b" ", b"", b"\\\n", b" \\ ", b";"])
                  + L[a + 1].lstrip()]


def _tokens(f):
    def g(rng, s, others):
        T = TOKEN.findall(s.decode("utf-8", "surrogateescape"))
        if not T:
            return s
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f(rng, T, others)
        return "".join(T).encode("utf-8", "surrogateescape")
    return g


def _solid(rng, T, pat=None):
    for _ in range(200):
        i = rng.randrange(len(T))
        if T[i].strip() and (pat is None or re.match(pat, T[i])):
            return i
    return rng.randrange(len(T))


@_tokens
def d_tok_lost(rng, T, others):
    T[_solid(rng, T)] = ""


@_tokens
def d_tok_again(rng, T, others):
    i = _solid(rng, T)
    T[i] = T[i] + rng.choice(["", " "]) + T[i]


@_tokens
def d_tok_swap(rng, T, others):
    i, j = _solid(rng, T), _solid(rng, T)
    T[i], T[j] = T[j], T[i]


@_tokens
def d_tok_new(rng, T, others):
    i = _solid(rng, T)
    t = rng.choice(KEYWORDS)
    if rng.random() < .5:
        T[i] = t
    else:
        T[i] = rng.choice([t + " " + T[i], T[i] + " " + t])


@_tokens
def d_name(rng, T, others):
    """A name becomes another name: programs with wrong types."""
    i, j = _solid(rng, T, r"[^\W\d]"), _solid(rng, T, r"[^\W\d]")
    T[i] = T[j]


@_tokens
def d_value(rng, T, others):
    """A name or number becomes another value."""
    i = _solid(rng, T, r"\d" if rng.random() < .5 else r"\w")
    k = rng.random()
    if k < .6:
        T[i] = rng.choice(NUMBERS)
    elif k < .8:
        T[i] = T[_solid(rng, T, r"\d|\"")]
    else:
        T[i] = rng.choice(["(%s)", "-%s", "{%s}", "not %s", "%s.x", "%s()",
                           "%s[0]", "%s[int]", "\"%s\"", "@%s", "&%s",
                           "%s + \"\"", "{%s: 1}", "%s(%s)"]) \
            .replace("%s", T[i])


@_tokens
def d_string(rng, T, others):
    q = [i for i, t in enumerate(T) if t == "\""]
    i = rng.choice(q) if q else _solid(rng, T)
    T[i] = rng.choice([T[i] + rng.choice(ESCAPES),
                       rng.choice(ESCAPES) + T[i]])


@_tokens
def d_span(rng, T, others):
    """A stretch of tokens moves somewhere else."""
    i, j = _solid(rng, T), _solid(rng, T)
    n = rng.choice([1, 2, 3, 5, 10])
    part = T[i:i + n]
    if rng.random() < .5:
        T[i:i + n] = [""]
    T[min(j, len(T)):min(j, len(T))] = part


DAMAGE = {
    "torn": (d_torn, 8), "torn inside": (d_torn_in, 6), "tail": (d_tail, 2), "zeroed": (d_hole, 2),
    "lost": (d_lost, 4), "again": (d_again, 4), "flip": (d_flip, 4),
    "splice": (d_splice, 5), "bytes": (d_bytes, 4),
    "encoding": (d_encoding, 1), "line lost": (d_line_lost, 6),
    "line again": (d_line_again, 4), "line swap": (d_line_swap, 4),
    "line other": (d_line_other, 8), "indent": (d_indent, 5),
    "join": (d_join, 3), "token lost": (d_tok_lost, 6),
    "token again": (d_tok_again, 3), "token swap": (d_tok_swap, 5),
    "token new": (d_tok_new, 8), "name": (d_name, 12),
    "value": (d_value, 10), "string": (d_string, 4), "span": (d_span, 5),
}
_names = [n for n, (f, w) in DAMAGE.items() for _ in range(w)]


def dec(b):
    return b.decode("utf-8", "surrogateescape")


def enc(s):
    return s.encode("utf-8", "surrogateescape")


def gen_case(rng, index):
    if rng.random() < .13:
        return {"files": {"main.aca": wild.PRELUDE}, "kind": "wild",
                "config": dict(corpus.options(rng),
                               education_edition=rng.random() < .5),
                "stmts": wild.statements(rng, 14), "damage": ["wild"],
                "head": [rng.choice(HEADS)], "tail": rng.choice(TAILS)}
    if rng.random() < .5:
        p = corpus.project(rng)
        files, cfg = p["files"], p["config"]
        kind = p["kind"]
    else:
        n = rng.choice(sorted(samples()))
        files, cfg, kind = {"main.aca": samples()[n]}, {}, n
        if "education" not in cfg and rng.random() < .5:
            cfg["education_edition"] = True
        cfg["mc_version"] = rng.choice([[1, 20, 10], [1, 21, 0],
                                        [1, 20, 10], [1, 19, 50]])
    cfg.update(corpus.options(rng))
    files = {k: enc(v) for k, v in files.items() if isinstance(v, str)}
    others = [enc(v) for v in samples().values()] + list(files.values()) * 3
    done = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        names = sorted(files)
        k = rng.choice(names)
        if len(names) > 1 and rng.random() < .04:
            if k != "main.aca":
                del files[k]
                done.append("file lost")
                continue
        d = rng.choice(_names)
        new = DAMAGE[d][0](rng, files[k], others)
        if new != files[k]:
            done.append(d)
        files[k] = new
    if "main.aca" in files and rng.random() < .1:
        t = dec(files["main.aca"]).split("\n")
        i = rng.randrange(len(t))
        t[i:i] = [deep(rng)]
        files["main.aca"] = enc("\n".join(t))
        done.append("deep")
    return {"files": {k: dec(v) for k, v in files.items()}, "config": cfg,
            "kind": kind, "damage": done,
            "head": [rng.choice(HEADS)
                     for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "tail": rng.choice(TAILS)}


# Lines that mean nothing, before everything else: what follows is reported
# that much further down and otherwise compiles to the same
HEADS = ["", "# a comment", "#* long *#", "#* two\nlines *#", "pass",
         "#*\n\n\n*#", "    # indented comment", "   ", "#",
         "pass # and a comment", "#* a *# #* b\n *#", "pass #* x\ny *#",
         "# \u4f60\u597d \U0001f600", "#* \u4f60\n\u597d *#",
         "pass \\\n", "pass \\\n  # c", "#* # *#", "#*\n    x\n  *#",
         "# ends with a backslash \\"]
# A torn end: never a program
TAILS = ["(", "[1,", "{1: 2", "x9 := \"abc", "#* x", "/* say hi", "if True:",
         "while True:", "def f9():", "def f9(", "x9 :=", "import", "x9 =",
         "from a9 import", "interface q9:", "entity E9:", "struct S9:",
         "pass \\", "x9 := 1 +", "not", "f(", "print.", "/say ${1",
         "x9 := \"${1", "x9 := \"${1\"", "for i9 in", "const", "&", "inline",
         "x9 := (1 +\n\n  2", "def f9():\n    # c\n", "if True:\n    pass\nelse:",
         "x9 := {1: 2,\n", "/say \\\"${\"", "x9 := \"\\#(red\"",
         "x9 := \"\\x4", "x9 := \"\\u00", "x9 := \"\\U0001f60", "x9 := \"\\#(",
         "x9 := \"\\#(red", "x9 := \"\\#(red,", "x9 := \"\\", "x9 := \"\\\"",
         "/say \\x4", "/say \\u00", "/say \\U0010ffff\\U1", "/say \\#(",
         "/say \\#(red", "/say \\#(red,", "/* \\u1", "/* \\#(bold", "/* \\x",
         "/say ${x9[", "/say ${\"", "/say ${\"\\u1", "x9 := \"${\"\\#(",
         "#* x *", "/* x *", "x9 := 0x", "x9 := 0b", "x9 := 1 +", "x9 := @",
         "x9 := f9.", "def f9() -> ", "def f9(a9: int =", "x9 := {", "x9 := {1",
         "x9 := {1:", "from a9 import (", "new", "x9: int =", "x9:"]


def deep(rng):
    n = rng.choice([10, 30, 100, 200, 400, 1000, 3000])
    return rng.choice([
        lambda: "x9 := " + "(" * n + "1" + ")" * n,
        lambda: "x9 := " + "(" * n,
        lambda: "x9 := " + "-" * n + "1",
        lambda: "b9 := " + "not " * n + "True",
        lambda: "x9 := 1" + " + 1" * n,
        lambda: "const x9 = " + "{" * n + "}" * n,
        lambda: "x9 := 1\n" + "x9 = x9" + "*x9" * n,
        lambda: "".join(" " * i + "if True:\n" for i in range(n))
        + " " * n + "pass",
        lambda: "if True:\n    pass\n" + "elif False:\n    pass\n" * n,
        lambda: "inline def r9():\n    r9()\nr9()",
        lambda: "const def r9(x):\n    result r9(x)\nr9(1)",
        lambda: "x9 := f" + "()" * n,
        lambda: "x9 := f" + ".a" * n,
        lambda: "x9 := " + "\"${" * n + "1" + "}\"" * n,
        lambda: "\n" * n,
        lambda: "x9 := \"" + "\\\\" * n + "\"",
        lambda: "# " + "#* " * n,
    ])()


BIG = re.compile(r"[0-9]{4,}|0x[0-9a-fA-F]{3,}|0b[01]{10,}|[0-9][eE][0-9]{2}")


def recursive(text):
    """May something written here be expanded while it is compiled?"""
    return bool(re.search(r"\binline\b|\bconst\s+def\b|\bstatic\s+const\b",
                          text))


def _alarm(signum, frame):
    raise Hang()


def compile_damaged(case, seed=1):
    """-> (what, detail); what: ok, error, crash, hang, memory"""
    from acaciamc.compiler import Compiler, Config
    from acaciamc.error import Error
    import random
    cfg = dict(case["config"])
    if "mc_version" in cfg:
        cfg["mc_version"] = tuple(cfg["mc_version"])
    cfg.setdefault("encoding", "utf-8")
    fs = vfs.FS(random.Random(seed), cwd=SRC)
    for rel, text in case["files"].items():
        fs.put(SRC + "/" + rel, enc(text))
    fs.mkdirs(vfs.ROOT + "/out")
    frames = 0
    fr = sys._getframe()
    while fr is not None:
        frames += 1
        fr = fr.f_back
    depth = sys.getrecursionlimit()
    sys.setrecursionlimit(frames + 1000)
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, old[1]))
    prev = signal.signal(signal.SIGPROF, _alarm)
    left = signal.setitimer(signal.ITIMER_PROF, LIMIT_CPU)
    start = time.process_time()
    try:
        with fs:
            try:
                c = Compiler(SRC + "/main.aca", Config(**cfg))
                c.output(vfs.ROOT + "/out")
            except Error as e:
                return "error", (e.type.name, e.full_msg())
            except Hang as e:
                return "hang", where(e)
            except MemoryError as e:
                return "memory", where(e)
            except Exception as e:
                return "crash", (type(e).__name__, where(e), str(e))
        return "ok", fs.snapshot()
    finally:
        sys.setrecursionlimit(depth)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, prev)
        used = time.process_time() - start
        if left[0]:
            signal.setitimer(signal.ITIMER_PROF, max(.05, left[0] - used))
        resource.setrlimit(resource.RLIMIT_AS, old)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "acaciamc" in f.filename]
    if not fr:
        return "?"
    f = fr[-1]
    name = f.name
    if name.startswith("<"):        # a comprehension
        for g in reversed(fr):
            if not g.name.startswith("<"):
                name = g.name
                break
    return "%s:%s" % (os.path.basename(f.filename), name)


LOC = re.compile(r"^(?:compiler error: ?)?(.*?):(\d+):(\d+): ")
INT = re.compile(r"^-?\d+$")


def check_error(o, case, detail):
    kind, msg = detail
    last = msg.split("\n")
    # the located line: messages may contain newlines of their own
    cand = [x for x in last if LOC.match(x)]
    if kind == "IO":
        if "<unknown>" in msg and "/main.aca" not in msg \
                and "main.aca" not in msg:
            o.fail("error names no file", msg, key="io")
        return
    if not cand or any(x.startswith(("<unknown>",
                                     "compiler error: <unknown>"))
                       for x in last):
        o.fail("error without a place", msg, key=norm(last[-1]))
        return
    # frames come first, indented; the error itself is the first line that
    # is not
    head = [x for x in cand if not x.startswith("  ")] or cand[-1:]
    m = LOC.match(head[0])
    path, line, col = m.group(1), int(m.group(2)), int(m.group(3))
    path = os.path.normpath(path)
    rel = path
    if rel.startswith(SRC + "/"):
        rel = rel[len(SRC) + 1:]
    text = case["files"].get(rel)
    if text is None:
        if not os.path.exists(path):
            o.fail("error in a file that is not there", msg,
                   key=norm(msg))
        return
    n = len(re.split(r"\r\n|\r|\n", text))
    if not 1 <= line <= n + 1 or col < 0:
        o.fail("error at a place that is not there",
               "%s (the file has %d lines)" % (msg, n), key=kind)


STRICT = ("scoreboard", "execute", "function", "tellraw", "titleraw", "tag",
          "schedule", "tp", "summon", "setblock", "fill", "clone", "kill",
          "playsound", "effect", "event", "ride", "damage")


def final(line):
    """The last command of an execute chain."""
    while line.startswith("execute "):
        i = line.find(" run ")
        if i < 0:
            return line
        line = line[i + 5:]
    return line


def check_pack(o, case, snap):
    files = {}
    base = vfs.ROOT + "/out/"
    for p, v in snap.items():
        if p.startswith(base) and v[0] == "f":
            if p.endswith(".mcfunction"):
                try:
                    files[p[len(base):-11]] = v[1].decode("utf-8")
                except UnicodeDecodeError:
                    o.fail("output is not text", p)
                    return
    text = "\n".join(case["files"].values())
    raws = raw_commands(text)
    for name in sorted(files):
        for line in files[name].split("\n"):
            if not line.strip() or line.startswith("#"):
                continue
            o.count("commands")
            cmd = final(line)
            line = " ".join(line.split())
            if cmd in text or any(written(r, line) for r in raws):
                o.count("raw commands")
                continue
            try:
                c = mcworld.parse_command(line)
            except mcworld.Malformed as e:
                if from_text(text, line, str(e)) or \
                        "negative radius" in str(e):
                    o.count("commands with odd text")
                    continue
                word = cmd.split(" ", 1)[0]
                o.count("malformed")
                o.fail("malformed command",
                       "%s: %r: %s" % (name, line, e),
                       key="%s: %s" % (word, norm(str(e))))
                return
            refs = []
            collect(c, refs)
            for f in refs:
                if f not in files and ("function " + f) not in text:
                    o.fail("call of a missing function", "%s: %r" % (
                        name, line), key="ref")
                    return


def with_main(case, text):
    c = dict(case)
    c["files"] = dict(case["files"])
    c["files"]["main.aca"] = text
    return c


def plain_start(text):
    """Can lines be put before this text without changing what it is?"""
    return text is not None and not text.startswith("\ufeff")


def check_head_ok(o, case, snap):
    if not case["head"] or case["config"].get("debug_comments"):
        return
    text = case["files"]["main.aca"]
    if not plain_start(text):
        return
    c = with_main(case, "\n".join(case["head"]) + "\n" + text)
    what, detail = compile_damaged(c)
    base = vfs.ROOT + "/out/"
    o.count("compared with empty lines before it")
    if what != "ok":
        o.fail("lines without meaning change the result",
               "with %r before it: %s %s" % (case["head"], what, detail),
               key="ok " + what)
        return
    a = {p: v for p, v in snap.items() if p.startswith(base)}
    b = {p: v for p, v in detail.items() if p.startswith(base)}
    if a != b:
        p = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))[0]
        o.fail("lines without meaning change the result",
               "with %r before it %s differs" % (case["head"], p),
               key="output")


def check_head_error(o, case, detail):
    if not case["head"] or detail[0] == "IO":
        return
    text = case["files"].get("main.aca")
    if not plain_start(text):
        return
    head = "\n".join(case["head"]) + "\n"
    c = with_main(case, head + text)
    what, d2 = compile_damaged(c)
    k = head.count("\n")
    main = SRC + "/main.aca:"
    o.count("errors compared with empty lines before them")

    want = re.sub(r"%s(\d+):" % re.escape(main),
                  lambda m: "%s%d:" % (main, int(m.group(1)) + k),
                  detail[1])
    if detail[0] == "TOO_COMPLEX" and what == "error":
        return
    if what != "error" or d2 != (detail[0], want):
        o.fail("lines without meaning change the error",
               "with %r before it %s is %s %s" % (
                   case["head"], detail, what, d2),
               key="%s -> %s" % (detail[0], d2[0] if what == "error"
                                 else what))


def check_tail(o, case):
    text = case["files"]["main.aca"]
    c = with_main(case, text + "\n" + case["tail"])
    what, detail = compile_damaged(c)
    o.count("torn ends")
    if what == "crash":
        o.fail("internal error", "%s: %s at %s" % (
            detail[0], detail[2], detail[1]),
            key="%s at %s" % (detail[0], detail[1]))
    elif what != "error":
        o.fail("torn source accepted", "a source that ends with %r compiles"
               % case["tail"], key=case["tail"])
    else:
        check_error(o, c, detail)


def check_place(o, case):
    """A name nobody defines, on a line of its own at the end, is reported
    right there."""
    text = case["files"]["main.aca"] + "\nq9_nobody"
    what, detail = compile_damaged(with_main(case, text))
    o.count("undefined names at the end")
    if what == "crash":
        o.fail("internal error", "%s: %s at %s" % (
            detail[0], detail[2], detail[1]),
            key="%s at %s" % (detail[0], detail[1]))
        return
    n = len(re.split(r"\r\n|\r|\n", text))
    if what != "error" or "q9_nobody" not in detail[1]:
        if what != "error" or detail[0] != "TOO_COMPLEX":
            o.fail("undefined name accepted", "%s %s" % (what, detail),
                   key=what)
        return
    if "%s/main.aca:%d:" % (SRC, n) not in detail[1]:
        o.fail("error at the wrong line", "line %d has the undefined name: %s"
               % (n, detail[1]), key="place")


LITERAL = re.compile(r"\"((?:[^\"\\\n]|\\.)*)\"")
PLAIN = re.compile(r"^[\w:.]+$", re.A)


def from_text(text, line, msg):
    """May what is wrong with the line be text the source asked for?"""
    for t in LITERAL.findall(text):
        if not PLAIN.match(t):
            for piece in re.split(r"\$\{[^}]*\}|%\{?\w*\}?|\\.|\s+", t):
                if piece and not PLAIN.match(piece) and piece in line:
                    return True
            if not t.strip() or t in line or t.replace("\\\"", "\"") in line:
                return True
        elif t in msg:
            return True
    return False


def raw_commands(text):
    """Commands written in the source: lists of their literal pieces."""
    out = []
    for t in re.findall(r"^[ \t]*/\*(.*?)\*/", text, re.M | re.S) \
            + re.findall(r"^[ \t]*/([^\n]*)", text, re.M):
        t = " ".join(t.split())
        out.append([x.strip() for x in re.split(r"\$\{[^}]*\}?", t)
                    if x.strip()])
    return out


def written(pieces, line):
    i = 0
    for p in pieces:
        i = line.find(p, i)
        if i < 0:
            return False
        i += len(p)
    return True


def collect(c, refs):
    if isinstance(c, tuple):
        if c and c[0] == "function":
            refs.append(c[1])
            return
        for x in c:
            if isinstance(x, tuple):
                collect(x, refs)


def run_case(case):
    if "stmts" not in case:
        return run_one(case)
    o = Outcome()
    o.nontrivial = True
    o.fault("wild", len(case["stmts"]))
    traces = []
    for st in case["stmts"]:
        c = dict(case)
        del c["stmts"]
        c["files"] = {"main.aca": wild.PRELUDE + st + "\n"}
        c["damage"] = []
        r = run_one(c)
        for k, n in r.stats.items():
            o.count(k, n)
        if r.violation:
            r.violation["msg"] += "\nin the statement\n" + st
            o.violation = r.violation
            break
        o.sigs += r.sigs
        traces.append(r.trace)
    o.trace = digest(traces)
    return o


def run_one(case):
    o = Outcome()
    what, detail = compile_damaged(case)
    text = "\n".join(case["files"].values())
    for d in case["damage"]:
        o.fault(d)
    o.nontrivial = bool(case["damage"])
    o.count(what)
    res = what
    if what == "error":
        res = detail[0]
        check_error(o, case, detail)
        if o.violation is None:
            check_head_error(o, case, detail)
    elif what == "ok":
        check_pack(o, case, detail)
        if o.violation is None:
            check_tail(o, case)
        if o.violation is None:
            check_place(o, case)
        if o.violation is None:
            check_head_ok(o, case, detail)
    elif what == "crash":
        exc, at, msg = detail
        o.fail("internal error", "%s: %s at %s" % (exc, msg, at),
               key="%s at %s" % (exc, at))
    elif what in ("hang", "memory"):
        syntax = detail.split(":")[0] in ("tokenizer.py", "parser.py")
        if not syntax and (BIG.search(text) or recursive(text)
                           or "while" in text):
            o.discard = "a program that asks for it"
            return o
        o.fail(what, "at %s" % detail, key="%s at %s" % (what, detail))
    o.count("result " + res)
    o.sigs.append(digest(sorted(set(case["damage"])), res,
                         case["kind"])[:12])
    o.trace = digest(what, detail)
    return o


def shrinks(case):
    files = case["files"]
    if "stmts" in case:
        if len(case["stmts"]) > 1:
            for st in case["stmts"]:
                yield dict(case, stmts=[st])
            return
        st = case["stmts"][0]
        if case["head"]:
            yield dict(case, head=[])
        if case["config"]:
            yield dict(case, config={})
        L = st.split("\n")
        for i in range(len(L)):
            yield dict(case, stmts=["\n".join(L[:i] + L[i + 1:])])
        T = TOKEN.findall(st)
        n = len(T) // 2
        while n >= 1:
            for i in range(0, len(T), n):
                yield dict(case, stmts=["".join(T[:i] + T[i + n:])])
            n //= 2
        return

    def alt(f, **kw):
        c = dict(case)
        c["files"] = f
        c.update(kw)
        return c
    if case["head"]:
        yield alt(files, head=[])
        for i in range(len(case["head"])):
            yield alt(files, head=case["head"][:i] + case["head"][i + 1:])
    if case["config"]:
        yield alt(files, config={})
        for k in case["config"]:
            yield alt(files, config={a: b for a, b in case["config"].items()
                                     if a != k})
    for k in sorted(files):
        if k != "main.aca":
            yield alt({a: b for a, b in files.items() if a != k})
    for k in sorted(files):
        L = files[k].split("\n")
        n = len(L) // 2
        while n >= 1:
            for i in range(0, len(L), n):
                yield alt({**files, k: "\n".join(L[:i] + L[i + n:])})
            n //= 2
    for k in sorted(files):
        if len(files[k]) > 3000:
            continue
        T = TOKEN.findall(files[k])
        n = min(len(T) // 2, 16)
        while n >= 1:
            for i in range(0, len(T), n):
                yield alt({**files, k: "".join(T[:i] + T[i + n:])})
            n //= 2


def describe(case):
    if "stmts" in case:
        return {"sources": {"main.aca": wild.PRELUDE},
                "statements": case["stmts"], "config": case["config"],
                "head": case["head"], "tail": case["tail"]}
    return {"sources": case["files"], "config": case["config"],
            "kind": case["kind"], "damage": case["damage"],
            "head": case["head"], "tail": case["tail"]}


COMPONENTS = {
    "real": ["the whole compiler (tokenizer, parser, generator, library "
             "modules, optimizer, output) of /repo"],
    "stub": ["the disk the sources are on"]}
ASSUMPTIONS = ["a program that asks for unbounded compile-time work (const "
               "loops, recursion of inline functions, huge ranges) may use "
               "unbounded time and memory"]
