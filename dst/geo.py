"""Positions, offsets and rotations: generator, source text and meaning.

The meaning is computed from the documentation of the Pos, Offset and Rot
types with vectors, not from the commands.

  pos   = [base, op...]
  base  = ["abs", x, y, z] | ["abspos", x, y, z] | ["ent", ref, anchor|None]
  op    = ["offset", x, y, z] | ["abs", x, y, z] | ["apply", off]
        | ["align", axes|None] | ["dim", id] | ["local", rot, l, u, f]
  off   = ["new", {kw}] + ops | ["local", l, u, f] | ["abspos", x, y, z]
          with ops ["offset", x, y, z] | ["abs", x, y, z]
  rot   = [["abs", v, h] | ["ent", ref] | ["face", ref, anchor|None], op...]
  op    = ["offset", v, h] | ["abs", v, h]
A component may be None (left alone).
"""

import math

DIMS = ["overworld", "nether", "the_end"]


def num(v):
    if isinstance(v, float):
        s = ("%.6f" % v).rstrip("0")
        return s + "0" if s.endswith(".") else s
    return str(v)


def call(name, vals, names="xyz"):
    """A call leaving out what is None: as None, or by naming the others
    (which of the two depends on the values alone)."""
    vals = list(vals)
    while vals and vals[-1] is None:
        vals.pop()
    return "%s(%s)" % (name, ", ".join(args(vals, names)))


def args(vals, names):
    by_name = int(sum(v or 0 for v in vals) * 8) % 3
    if by_name == 0 and len(vals) <= len(names):
        return ["%s=%s" % (n, num(v)) for n, v in zip(names, vals)
                if v is not None]
    return list(map(num, vals))


ANGLES = ("vertical", "horizontal")
LOCAL = ("left", "up", "front")


def local(first, vals):
    """The arguments of .local(): zero is what is meant by leaving one
    out."""
    vals = list(vals)
    while vals and vals[-1] == 0:
        vals.pop()
    if 0 in vals:
        out = ["%s=%s" % (n, num(v)) for n, v in zip(LOCAL, vals) if v]
    else:
        out = args(vals, LOCAL)
    return ", ".join(first + out)


# -------------------------------------------------------------- rendering

class Text:
    """ref: how an entity reference is written.  With a `share` generator,
    a value may be built through named constants, next to constants derived
    from it that are used nowhere: values are immutable, so neither changes
    what is meant."""

    def __init__(self, ref=None, share=None, name=None):
        self.ref, self.rng, self.name = ref, share, name
        self.lines = []
        self.gen = GeoGen(share, far=False) if share else None

    def cut(self, s, derive):
        r = self.rng
        if r is None or r.random() < .55:
            return s
        n = self.name()
        self.lines.append("const %s = %s" % (n, s))
        while r.random() < .5:
            d = derive(n)
            if d is None:
                break
            self.lines.append("const %s = %s" % (self.name(), d))
        return n

    def pos(self, p):
        b = p[0]
        if b[0] == "abs":
            s = call("Pos", b[1:], ())
        elif b[0] == "abspos":
            return self.off(p)
        else:
            s = "Pos(%s%s)" % (self.ref(b[1]),
                               ', "%s"' % b[2] if b[2] else "")
        s = self.cut(s, self.pos_derived)
        for op in p[1:]:
            s = self.cut(s + self.pos_op(op), self.pos_derived)
        return s

    def pos_op(self, op):
        k = op[0]
        if k in ("offset", "abs"):
            return call("." + k, op[1:])
        elif k == "apply":
            return ".apply(%s)" % self.off(op[1])
        elif k == "align":
            return ".align(%s)" % ('"%s"' % op[1] if op[1] else "")
        elif k == "dim":
            return '.dim("%s")' % op[1]
        return ".local(%s)" % local([self.rot(op[1])], op[2:])

    def pos_derived(self, n):
        r = self.rng
        return n + r.choice([
            call(".offset", self.gen.triple()),
            call(".abs", self.gen.triple()), ".align()", '.dim("nether")',
            ".local(Rot(10, 20), 1, 2, 3)"])

    def off(self, o):
        b = o[0]
        if b[0] == "new":
            s = "Offset(%s)" % ", ".join(
                "%s=%s" % (k, num(v)) for k, v in sorted(b[1].items()))
        elif b[0] == "pos3":
            s = call("Offset", b[1:])
        elif b[0] == "local":
            return self.cut("Offset.local(%s)" % local([], b[1:]),
                            lambda n: None)
        else:
            s = call("AbsPos", b[1:])

        def derived(n):
            return n + call(self.rng.choice([".offset", ".abs"]),
                            self.gen.triple())
        s = self.cut(s, derived)
        for op in o[1:]:
            s = self.cut(s + call("." + op[0], op[1:]), derived)
        return s

    def rot(self, r):
        b = r[0]
        if b[0] == "abs":
            s = call("Rot", b[1:], ())
        elif b[0] == "ent":
            s = "Rot(%s)" % self.ref(b[1])
        else:
            s = "Rot.face_entity(%s%s)" % (
                self.ref(b[1]), ', "%s"' % b[2] if b[2] else "")

        def derived(n):
            return n + call(self.rng.choice([".offset", ".abs"]),
                            [self.rng.choice([5, 90, None]), 30], ANGLES)
        s = self.cut(s, derived)
        for op in r[1:]:
            s = self.cut(s + call("." + op[0], op[1:], ANGLES), derived)
        return s


def pos_text(p, ref):
    return Text(ref).pos(p)


def off_text(o, ref=None):
    return Text(ref).off(o)


def rot_text(r, ref):
    return Text(ref).rot(r)


# ---------------------------------------------------------------- meaning

class At:
    """A place: position, rotation (vertical, horizontal), dimension."""

    def __init__(self, pos=(0.0, 0.0, 0.0), rot=(0.0, 0.0),
                 dim="overworld", eyes=False):
        self.pos, self.rot, self.dim, self.eyes = pos, rot, dim, eyes

    def but(self, **kw):
        d = {k: getattr(self, k) for k in ("pos", "rot", "dim", "eyes")}
        d.update(kw)
        return At(**d)

    def anchor(self):
        return (self.pos[0], self.pos[1] + (1.62 if self.eyes else 0),
                self.pos[2])


def block_centre(x):
    return x + 0.5 if isinstance(x, int) else x


def to_local(at, left, up, front):
    v, h = math.radians(at.rot[0]), math.radians(at.rot[1])
    # unit vectors seen by something looking down (v) and turned (h)
    fx, fy, fz = -math.sin(h) * math.cos(v), -math.sin(v), \
        math.cos(h) * math.cos(v)
    ux, uy, uz = -math.sin(h) * math.sin(v), math.cos(v), \
        math.cos(h) * math.sin(v)
    lx, ly, lz = math.cos(h), 0.0, math.sin(h)
    b = at.anchor()
    return (b[0] + left * lx + up * ux + front * fx,
            b[1] + left * ly + up * uy + front * fy,
            b[2] + left * lz + up * uz + front * fz)


def off_apply(o, at):
    """Where the offset leads to from `at`."""
    b = o[0]
    if b[0] == "local":
        v = list(b[1:]) + [0.0] * (3 - len(b[1:]))
        return to_local(at, *v)
    comp = [("~", 0.0)] * 3
    if b[0] == "new":
        for i, ax in enumerate("xyz"):
            if b[1].get(ax) is not None:
                comp[i] = ("~", b[1][ax])
            if b[1].get(ax + "_abs") is not None:
                comp[i] = ("", b[1][ax + "_abs"])
    elif b[0] == "pos3":
        for i, v in enumerate(b[1:]):
            if v is not None:
                comp[i] = ("~", v)
    else:
        comp = [("", v if i == 1 else block_centre(v))
                for i, v in enumerate(b[1:])]
    for op in o[1:]:
        for i, v in enumerate(op[1:]):
            if v is None:
                continue
            if op[0] == "abs":
                comp[i] = ("", v if i == 1 else block_centre(v))
            elif b[0] == "abspos":
                comp[i] = ("", comp[i][1] + v)
            else:
                comp[i] = ("~", v)
    return tuple(float(v) if k == "" else at.pos[i] + v
                 for i, (k, v) in enumerate(comp))


def rot_apply(r, at, look):
    """look(ref) -> At of the entity, or None"""
    b = r[0]
    if b[0] == "abs":
        at = at.but(rot=(float(b[1]), float(b[2])))
    else:
        e = look(b[1])
        if e is None:
            return None
        if b[0] == "ent":
            at = at.but(rot=e.rot)
        else:
            t = e.but(eyes=b[2] == "eyes").anchor()
            a = at.anchor()
            dx, dy, dz = (q - p for p, q in zip(a, t))
            at = at.but(rot=(
                -math.degrees(math.atan2(dy, math.hypot(dx, dz))),
                -math.degrees(math.atan2(dx, dz))))
    for op in r[1:]:
        n = list(at.rot)
        for i, v in enumerate(op[1:]):
            if v is not None:
                n[i] = v if op[0] == "abs" else n[i] + v
        at = at.but(rot=tuple(n))
    return at


def place(p, at, look):
    """The place a Pos denotes when used in context `at`; None when it is
    based on an entity that does not exist."""
    b = p[0]
    ops = p[1:]
    if b[0] == "ent":
        e = look(b[1])
        if e is None:
            return None
        at = e.but(eyes=b[2] == "eyes")
    else:
        at = at.but(pos=tuple(
            float(v) if i == 1 else float(block_centre(v))
            for i, v in enumerate(b[1:])))
    for i, op in enumerate(ops):
        k = op[0]
        if k == "offset":
            at = at.but(pos=tuple(q + (v or 0) for q, v in zip(
                at.pos, list(op[1:]) + [0] * 3)))
        elif k == "abs":
            at = at.but(pos=tuple(
                q if v is None else float(v if j == 1 else block_centre(v))
                for j, (q, v) in enumerate(zip(
                    at.pos, list(op[1:]) + [None] * 3))))
        elif k == "apply":
            at = at.but(pos=off_apply(op[1], at))
        elif k == "align":
            at = at.but(pos=tuple(
                float(math.floor(q + 1e-9)) if ax in (op[1] or "xyz") else q
                for ax, q in zip("xyz", at.pos)))
        elif k == "dim":
            at = at.but(dim=op[1])
        else:
            at = rot_apply(op[1], at, look)
            if at is None:
                return None
            v = list(op[2:]) + [0.0] * (3 - len(op[2:]))
            at = at.but(pos=to_local(at, *v))
    return at


# -------------------------------------------------------------- generator

class GeoGen:
    """refs: entity references that may be used."""

    def __init__(self, rng, refs=(), dims=True, wide=40, far=True):
        self.rng, self.refs, self.dims, self.wide = rng, list(refs), dims, \
            wide
        self.odd = [0.00005, -0.00001, 0.1, -0.3] + [1000000.5] * far

    def n(self):
        r = self.rng
        k = r.random()
        if k < .6:
            return r.randint(-self.wide, self.wide)
        if k < .97:
            return r.randint(-self.wide * 8, self.wide * 8) / 8
        return r.choice(self.odd)

    def opt(self):
        return self.n() if self.rng.random() < .6 else None

    def triple(self):
        return [self.opt() for _ in range(3)]

    def zeros(self):
        return [0 if self.rng.random() < .25 else self.n()
                for _ in range(3)]

    def off(self, local=True, absolute=True):
        r = self.rng
        k = r.random()
        if k < .15 and local:
            return [["local"] + self.zeros()]
        if k < .3 and absolute:
            b = ["abspos", self.n(), self.n(), self.n()]
        elif k < .5:
            kw = {}
            for ax in "xyz":
                c = r.random()
                if c < .4:
                    kw[ax] = self.n()
                elif c < .7 and absolute:
                    kw[ax + "_abs"] = self.n()
            b = ["new", kw]
        else:
            b = ["pos3"] + self.triple()
        o = [b]
        while r.random() < .25:
            o.append([r.choice(["offset", "abs"] if absolute
                               else ["offset"])] + self.triple())
        return o

    def rot(self, absolute=False):
        r = self.rng
        k = r.random()
        ang = [0, 45, 90, -90, 180, -45, 30, 12.5, -60]
        if k < .5 or not self.refs or absolute:
            b = ["abs", r.choice([0, 30, -30, 45, -90, 90, 10.5]),
                 r.choice(ang)]
        elif k < .8:
            b = ["ent", r.choice(self.refs)]
        else:
            b = ["face", r.choice(self.refs),
                 r.choice([None, "feet", "eyes"])]
        o = [b]
        while r.random() < .25:
            o.append([r.choice(["offset", "abs"])] +
                     [r.choice(ang) if r.random() < .7 else None
                      for _ in range(2)])
        return o

    def pos(self, maxops=3, ent=True, local=True):
        r = self.rng
        k = r.random()
        if self.refs and ent and k < .4:
            b = ["ent", r.choice(self.refs),
                 r.choice([None, None, "feet", "eyes"])]
        elif k < .85:
            b = ["abs", self.n(), self.n(), self.n()]
        else:
            b = ["abspos", self.n(), self.n(), self.n()]
        p = [b]
        while len(p) <= maxops and r.random() < .5:
            k = r.random() * (.45 if b[0] == "abspos" else 1)
            if k < .3:
                p.append(["offset"] + self.triple())
            elif k < .45:
                p.append(["abs"] + self.triple())
            elif k < .6:
                p.append(["align", r.choice([None, "x", "yz", "zx", "y"])])
            elif k < .75 and self.dims:
                p.append(["dim", r.choice(DIMS)])
            elif k < .85:
                p.append(["apply", self.off()])
            elif local:
                p.append(["local", self.rot()] + self.zeros())
        return p
