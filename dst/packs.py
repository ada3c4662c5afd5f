"""Small source trees (several modules, interfaces, tick functions) for the
properties about the compiler command itself."""

LIBS = ["print", "math", "schedule", "world"]
TEXTS = ["hi", "two words", "\u4f60\u597d", "caf\u00e9", "a,b", "1"]


class Pack:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.files = {}
        self.paths = set()

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def stmts(self, vars_, libs, mods, n, ind=""):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if k < .25 or not vars_:
                v = self.uid("v")
                out.append("%s := %d" % (v, r.randint(-9, 99)))
                if not ind:
                    vars_.append(v)
            elif k < .45:
                out.append("%s = %s %s %d" % (r.choice(vars_),
                                              r.choice(vars_),
                                              r.choice(["+", "*", "/", "%", "-"]),
                                              r.randint(1, 9)))
            elif k < .6:
                out.append("/say %s" % r.choice(TEXTS))
            elif k < .7 and "print" in libs:
                out.append('print.tell("%s")' % r.choice(TEXTS))
            elif k < .75 and "math" in libs:
                out.append("%s = math.randint(1, %d)" % (r.choice(vars_),
                                                         r.randint(1, 50)))
            elif k < .8 and "world" in libs:
                out.append('world.setblock(Pos(%d, 2, 3), %s)' % (
                    r.randint(-9, 9), r.choice(
                        ['"stone"', 'world.Block("lever", {"open_bit": True})',
                         'world.Block("stone", {"a": 1, "b": "c"})'])))
            elif k < .9 and mods:
                m, f = r.choice(mods)
                out.append("%s.%s()" % (m, f))
            else:
                out += ["if %s > %d:" % (r.choice(vars_), r.randint(0, 9)),
                        "    /say %s" % r.choice(TEXTS),
                        "    %s += 1" % r.choice(vars_)]
        return [ind + s for s in out]

    def module(self, rel, imports, main=False):
        """imports: [(relative path, module name, function)]"""
        r = self.r
        libs = [x for x in LIBS if r.random() < .4]
        out = ["import %s" % x for x in libs]
        mods = []
        for path, name, fn in imports:
            a = self.uid("m")
            out.append("import %s as %s" % (path, a))
            mods.append((a, fn))
        vars_ = []
        out += self.stmts(vars_, libs, [], r.randint(1, 3))
        fn = self.uid("f")
        out.append("def %s():" % fn)
        out += self.stmts(list(vars_), libs, mods, r.randint(1, 5), "    ")
        if r.random() < .5:
            out.append("%s()" % fn)
        for _ in range(r.choice([0, 1, 1, 2] if main else [0, 0, 1])):
            p = "/".join([r.choice(["ui", "api", "x"])]
                         * r.choice([0, 1, 1, 2]) + [self.uid("i")])
            out.append("interface %s:" % p)
            out += self.stmts(list(vars_), libs, mods, r.randint(1, 3),
                              "    ")
        if "schedule" in libs and r.random() < .6:
            out.append("schedule.register_loop(%s)" % fn)
        out += self.stmts(vars_, libs, mods, r.randint(0, 4))
        if main and r.random() < .3:
            e = self.uid("E")
            out += ["entity %s:" % e, "    n: int", "    new():",
                    '        new(type="pig", pos=Pos(1, 2, 3))',
                    "        self.n = %d" % r.randint(0, 9),
                    "%s := %s()" % (e.lower(), e),
                    "%s.n += 1" % e.lower()]
        self.files[rel] = "\n".join(out) + "\n"
        return fn

    def build(self, depth=None):
        r = self.r
        done = []
        for _ in range(r.choice([0, 1, 2, 3]) if depth is None else depth):
            d = r.choice([[], ["pk"], ["pk", "sub"]])
            name = self.uid("mod")
            rel = "/".join(d + [name + ".aca"])
            imps = [x for x in done if r.random() < .5]
            fn = self.module(rel, imps)
            done.append((".".join(d + [name]), name, fn))
        self.module("main.aca", done, True)
        return self.files


BREAKS = ["syntax", "name", "nomodule", "circular", "dupinterface",
          "reserved", "badbytes", "type", "endless", "noarg"]


def damage(rng, files):
    """Make a tree that does not compile; returns what was done."""
    files = dict(files)
    rel = rng.choice(sorted(files))
    k = rng.choice(BREAKS)
    t = files[rel]
    if k == "syntax":
        t += "if:\n"
    elif k == "name":
        t += "nothing_like_this()\n"
    elif k == "nomodule":
        t += "import pk.absent\n"
    elif k == "circular":
        t += "import main\n"
        if rel == "main.aca":
            t += "import self_\n"
            files["self_.aca"] = "import main\n"
    elif k == "dupinterface":
        t += "interface zz/a:\n    pass\ninterface zz/A:\n    pass\n"
    elif k == "reserved":
        t += "interface main:\n    pass\n"
    elif k == "badbytes":
        files[rel] = {"hex": (t + "#").encode().hex() + "fffe80"}
        return files, k
    elif k == "type":
        t += "tt := 1\ntt = True\n"
    elif k == "endless":
        t += '#*\nnever closed\n'
    elif k == "noarg":
        t += "import print\nprint.tell()\n"
    files[rel] = t
    return files, k
