"""C16: music plays every note at its time, from any state."""

import copy
from fractions import Fraction as F

from .. import acabuild, simrun
from ..engine import Outcome, digest
from ..mcworld import fmt_pos

ID = "C16"
QUICK = 1500
THOROUGH = 40000
RULE = ("random MIDI data (types 0 and 1, several tracks, chords, rests, "
        "tempo changes in any track, volume and program changes, released "
        "and silent notes, other messages) compiled with random settings "
        "(speed, volumes, instruments, listeners, looping, small chunks) and "
        "played in the simulated world tick by tick through a random history "
        "of play requests (from the beginning, from a position, with a "
        "delay), stops, restarts, crash rollbacks, joining players and "
        "re-runs of main, several pieces at once; every sound heard is "
        "compared with a schedule computed exactly (rational time) from the "
        "data and with a model of the playback position; distinct = "
        "different heard sequence; non-trivial = at least three sounds")
COMPONENTS = {
    "real": ["acaciamc.modules.music", "acaciamc compiler", "generated tick "
             "functions"],
    "stub": ["mido (the MIDI file reader: an in-memory file object)",
             "the game (dst/mcworld.py)"]}

FILES = {}


class Msg:
    is_meta = False
    is_realtime = False

    def __init__(self, type_, time, **kw):
        self.type = type_
        self.time = time
        for k, v in kw.items():
            setattr(self, k, v)

    def is_cc(self, control=None):
        return self.type == "control_change" and \
            control in (None, self.control)

    def copy(self, **kw):
        m = copy.copy(self)
        m.__dict__.update(kw)
        return m


class Meta(Msg):
    is_meta = True


class MidiTrack(list):
    @property
    def name(self):
        return ""

    def copy(self):
        return self.__class__(self)


class MidiFile:
    def __init__(self, filename=None, **kw):
        d = FILES.get(filename)
        if d is None:
            raise FileNotFoundError(2, "No such file or directory", filename)
        self.filename = filename
        self.type = d["type"]
        self.ticks_per_beat = d["tpb"]
        self.tracks = [MidiTrack([message(m) for m in t])
                       for t in d["tracks"]]


def message(m):
    t, k = m[0], m[1]
    if k in ("note_on", "note_off"):
        return Msg(k, t, channel=m[2], note=m[3], velocity=m[4])
    if k == "set_tempo":
        return Meta(k, t, tempo=m[2])
    if k == "control_change":
        return Msg(k, t, channel=m[2], control=m[3], value=m[4])
    if k == "program_change":
        return Msg(k, t, channel=m[2], program=m[3])
    if k == "pitchwheel":
        return Msg(k, t, channel=m[2], pitch=m[3])
    if k == "sysex":
        return Msg(k, t, data=(1, 2))
    return Meta(k, t)


def setup():
    acabuild.install_mido({"MidiFile": MidiFile, "MidiTrack": MidiTrack,
                           "Message": Msg, "MetaMessage": Meta})


# ---------------------------------------------------------- generation

SPEEDS = ["1.0", "1.0", "2.0", "0.5", "1.5", "0.75", "3.7", "0.9"]
VOLUMES = ["1.0", "1.0", "0.5", "2.0", "0.3"]
SOUNDS = ["note.hat", "note.bass", "random.orb", "note.bit"]


def gen_midi(rng, speed):
    tpb = rng.choice([1, 2, 4, 24, 48, 96, 120, 192, 480, 960])
    tempo = rng.choice([500000, 500000, 300000, 1000000, 428571, 250000,
                        600000])
    r = F(tempo) / (50000 * tpb * F(speed))
    # (a few pieces are long)
    gts = rng.choice([40, 120, 250]) if rng.random() < .95 else 1600
    maxmt = int(min(10 * gts, F(gts) / r)) + 1
    ty = rng.choice([0, 1, 1])
    n = 1 if ty == 0 else rng.choice([1, 2, 2, 3, 4])
    tracks = []
    for ti in range(n):
        t, out = 0, []
        chans = [rng.randrange(16) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .2:
            chans.append(9)
        if ti == 0 and tempo != 500000:
            out.append([0, "set_tempo", tempo])
        beats = [1, tpb, tpb // 2, tpb // 4, tpb * 2, tpb // 3,
                 rng.randint(1, 2 * tpb + 1)]
        m = rng.choice([3, 10, 30, 60])
        if gts == 1600:
            beats = [x * 8 for x in beats]
        dense = rng.random()
        # (the tempo only varies a little: the length stays bounded)
        while len(out) < m:
            d = 0 if rng.random() < dense else rng.choice(beats)
            if t + d > maxmt:
                break
            t += d
            k = rng.random()
            c = rng.choice(chans)
            if k < .62:
                out.append([d, "note_on", c, rng.choice(
                    [rng.randint(30, 90), rng.randint(0, 127)]),
                    rng.choice([0, 1, 64, 100, 127, rng.randint(1, 127)])])
            elif k < .75:
                out.append([d, "note_off", c, rng.randint(30, 90), 64])
            elif k < .8:
                out.append([d, "set_tempo", rng.choice(
                    [tempo, tempo // 2, tempo * 3 // 4, tempo * 5 // 4])])
            elif k < .87:
                out.append([d, "control_change", c, 7,
                            rng.choice([0, 10, 64, 100, 127])])
            elif k < .9:
                out.append([d, "control_change", c,
                            rng.choice([1, 10, 64, 91]), rng.randrange(128)])
            elif k < .96:
                out.append([d, "program_change", c, rng.randrange(128)])
            elif k < .98:
                out.append([d, "pitchwheel", c, 100])
            else:
                out.append([d, rng.choice(["sysex", "text", "lyrics"])])
        if rng.random() < .8:
            out.append([rng.choice([0, 0, 1, min(tpb, 100)]),
                        "end_of_track"])
        tracks.append(out)
    return {"type": ty, "tpb": tpb, "tracks": tracks}


def gen_opts(rng, speed):
    o = {"speed": speed}
    if rng.random() < .5:
        o["volume"] = rng.choice(VOLUMES)
    if rng.random() < .4:
        o["looping"] = True
        if rng.random() < .8:
            o["loop_interval"] = rng.choice([0, 1, 2, 10, 33])
    if rng.random() < .4:
        o["note_offset"] = rng.choice([-24, -1, 3, 12])
    if rng.random() < .7:
        o["chunk_size"] = rng.choice([1, 1, 2, 3, 5, 9])
    if rng.random() < .4:
        o["channel_volume"] = {c: rng.choice(["0.5", "2.0", "0.0", "0.25"])
                               for c in rng.sample(range(16), 3)}
    if rng.random() < .4:
        o["instrument"] = {c: rng.choice(SOUNDS) for c in
                           [0, rng.randrange(128), 127][:rng.randint(1, 3)]}
    if rng.random() < .5:
        o["listener"] = True
    return o


def gen_case(rng, index):
    n = rng.choice([1, 1, 2])
    songs = []
    for _ in range(n):
        sp = rng.choice(SPEEDS)
        songs.append({"midi": gen_midi(rng, sp), "opts": gen_opts(rng, sp)})
    events = [["tick", rng.randint(0, 3)]]
    left = rng.choice([60, 200, 400])
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        s = rng.randrange(n)
        if k < .3:
            events.append(["play", s])
        elif k < .42:
            events.append(["at", s, rng.choice(
                [0, 1, 2, 5, -1, -7, -30, 17, 40, 90, rng.randint(0, 200),
                 10000, -40])])
        elif k < .5:
            events.append(["stop", s])
        elif k < .56:
            events.append(["restart"])
        elif k < .62:
            events.append(["save"])
        elif k < .68:
            events.append(["crash"])
        elif k < .72:
            events.append(["join", rng.randint(-9, 9)])
        elif k < .76:
            events.append(["move", rng.randint(-9, 9)])
        elif k < .79:
            events.append(["main"])
        d = min(left, rng.choice([1, 1, 2, 5, 20, 60, 150]))
        left -= d
        if d:
            events.append(["tick", d])
    return {"songs": songs, "events": events, "players": rng.randint(1, 3),
            "config": simrun.random_config(rng) if rng.random() < .3 else {},
            "seed": rng.randrange(1 << 30)}


def render(case):
    out = ["import music"]
    if any(s["opts"].get("listener") for s in case["songs"]):
        out += ["&band = ExternEngroup()",
                'band.select(Enfilter().has_tag("band"))']
    for i, s in enumerate(case["songs"]):
        a = ['"song%d.mid"' % i]
        for k, v in s["opts"].items():
            if k == "listener":
                v = "band"
            elif isinstance(v, dict):
                v = "{%s}" % ", ".join(
                    "%s: %s" % (x, y if k == "channel_volume"
                                else '"%s"' % y) for x, y in v.items())
            a.append("%s=%s" % (k, v))
        out.append("const m%d = music.Music(%s)" % (i, ", ".join(a)))
        out.append("/scoreboard players set len%d obs ${m%d.LENGTH}" % (i, i))
        out += ["interface play/m%d:" % i, "    m%d.play()" % i,
                "interface stop/m%d:" % i, "    m%d.stop()" % i,
                "interface at/m%d:" % i,
                '    m%d.play(scb("o%d", "obs"))' % (i, i)]
    return "\n".join(out) + "\n"


# --------------------------------------------------------------- oracle

def schedule(midi, opts, table):
    """-> ([(time in game ticks, sound, volume, pitch)], end time, longest
    time of one MIDI tick)"""
    ev = []
    for ti, t in enumerate(midi["tracks"]):
        at = 0
        for j, m in enumerate(t):
            at += m[0]
            ev.append((at, ti, j, m))
    ev.sort(key=lambda x: x[:3])
    tempo = 500000
    speed = F(opts.get("speed", "1.0"))
    gt, mt = F(0), 0
    vol = {c: 100 for c in range(16)}
    prog = {c: 0 for c in range(16)}
    prog[9] = 127
    uvol = F(opts.get("volume", "1.0"))
    chv = {int(c): F(v) for c, v in opts.get("channel_volume",
                                             {}).items()}
    over = {int(c): v for c, v in opts.get("instrument", {}).items()}
    notes = []
    long = F(0)
    for at, _, _, m in ev:
        step = F(tempo) / (50000 * midi["tpb"] * speed)
        gt += (at - mt) * step
        mt = at
        k = m[1]
        if k == "set_tempo":
            tempo = m[2]
        elif k == "control_change" and m[3] == 7:
            vol[m[2]] = m[4]
        elif k == "program_change":
            prog[m[2]] = m[3]
        elif k == "note_on" and m[4]:
            v = F(m[4] * vol[m[2]], 127 * 127) * chv.get(m[2], 1) * uvol
            if v:
                p = 2.0 ** ((m[3] + opts.get("note_offset", 0) - 54) / 12
                            - 1)
                notes.append((gt, over.get(prog[m[2]], table[prog[m[2]]]),
                              float(v), p))
        long = max(long, F(tempo) / (50000 * midi["tpb"] * speed))
    return notes, gt, long


EPS = 1e-6


def matches(note, heard):
    """heard: (tick, sound, volume text, pitch text)"""
    gt, sound, v, p = note
    t, s, vs, ps = heard
    return abs(t - gt) <= .5 + EPS and s == sound \
        and abs(float(vs) - v) <= .005 + EPS \
        and abs(float(ps) - p) <= .0005 + EPS


def heard_in(log, songs=None):
    """{listener: [(tick, sound, volume, pitch)]} and problems."""
    out = {}
    for x in log:
        if x[0] != "cmd" or not x[1].startswith("playsound "):
            continue
        w = x[1].split(" ")
        out.setdefault(w[2], []).append((x[3], w[1], w[4], w[5], w[3], x[2]))
    return out


class Song:
    def __init__(self, length, loop):
        self.len, self.loop = length, loop
        self.timer = None
        self.at = {}

    def tick(self):
        r = []
        if self.timer is None:
            return r
        r = self.at.get(self.timer, [])
        if self.timer <= self.len:
            self.timer += 1
        if self.timer == self.len + 1 and self.loop is not None:
            self.timer = -self.loop
        return r


def calibrate(out, case, res, i, notes, end, long, cfg):
    """One undisturbed performance -> Song"""
    w = fresh(case, res, 1)
    start(w, out, cfg)
    lim = w.obj["obs"].get("len%d" % i)
    if lim is None or not -1 <= lim - end <= long + 1:
        out.fail("length", "the piece is %r ticks long, expected about %.3f"
                 % (lim, end))
        return None
    simrun.enter(out, w, simrun.fn_path(cfg, "play/m%d" % i))
    n0, t0 = len(w.log), w.tickno
    for _ in range(lim + 1):
        w.tick()
    out.count("ticks_simulated", lim + 1)
    if w.problems:
        out.fail("problem", "%r" % (w.problems[0],), w.problems[0][0])
        return None
    h = heard_in(w.log[n0:])
    if len(h) > 1 or (not h and notes):
        out.fail("listeners", "the only player heard %r" % sorted(h))
        return None
    got = [(t - t0,) + tuple(x) for t, *x in list(h.values())[0]] if h else []
    out.count("notes_scheduled", len(notes))
    for j in range(max(len(got), len(notes))):
        if j >= len(got) or j >= len(notes) or \
                not matches(notes[j], got[j][:4]):
            want = notes[j] if j < len(notes) else None
            out.fail("note", "note %d: heard %r, expected %r" % (
                j, got[j][:4] if j < len(got) else None,
                want and ("%.4f" % want[0],) + want[1:]),
                "late" if want and j < len(got) and
                got[j][0] > want[0] + .5 and got[j][1] == want[1] else "note")
            return None
    o = case["songs"][i]["opts"]
    s = Song(lim, o.get("loop_interval", 50) if o.get("looping") else None)
    for g in got:
        s.at.setdefault(g[0], []).append(g[1:4])
    return s


def fresh(case, res, players):
    w = simrun.new_world(case["seed"], res, {"obs": {}})
    for j in range(players):
        p = w.spawn("player", name="P%d" % j, pos=(j, 60 + j, -j))
        p.tags["band"] = 1
        if j == 1:
            p.tags.pop("band")
    a = w.spawn("armor_stand", pos=(7, 7, 7))
    a.tags["band"] = 1
    return w


def start(w, out, cfg):
    if cfg.get("split_init"):
        w.run_function(simrun.fn_path(cfg, cfg.get("init_file", "init")))
    simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file", "main")))


def run_case(case):
    out = Outcome()
    from acaciamc.modules.music import ID2INSTRUMENT as table
    FILES.clear()
    for i, s in enumerate(case["songs"]):
        FILES["song%d.mid" % i] = s["midi"]
    src = render(case)
    cfg = case["config"]
    res = simrun.compile_or_fail(out, {"main.aca": src}, cfg)
    if res is None:
        return out
    songs = []
    for i, s in enumerate(case["songs"]):
        notes, end, long = schedule(s["midi"], s["opts"], table)
        if end > 4000:
            out.discard = "long"
            return out
        song = calibrate(out, case, res, i, notes, end, long, cfg)
        if song is None:
            return out
        songs.append(song)
    w = fresh(case, res, case["players"])
    start(w, out, cfg)
    band = [e.id for e in w.ents.values() if e.is_player and "band" in e.tags]
    saved = None
    total = 0
    sig = []
    for ev in case["events"]:
        k = ev[0]
        if k in ("play", "at", "stop") and ev[1] >= len(songs):
            continue
        if k == "play":
            simrun.enter(out, w, simrun.fn_path(cfg, "play/m%d" % ev[1]))
            songs[ev[1]].timer = 0
            out.count("play_requests")
        elif k == "at":
            if ev[2] == songs[ev[1]].len + 1:
                # (whether this is still the piece is not specified)
                continue
            w.obj["obs"]["o%d" % ev[1]] = ev[2]
            simrun.enter(out, w, simrun.fn_path(cfg, "at/m%d" % ev[1]))
            songs[ev[1]].timer = ev[2]
            if ev[2] > songs[ev[1]].len:
                # past the end: the same as stopped
                songs[ev[1]].timer = songs[ev[1]].len + 2
            out.count("play_requests")
        elif k == "stop":
            simrun.enter(out, w, simrun.fn_path(cfg, "stop/m%d" % ev[1]))
            songs[ev[1]].timer = songs[ev[1]].len + 2
        elif k == "restart":
            w.restore(w.snapshot())
            out.fault("restart")
        elif k == "save":
            saved = (w.snapshot(), [s.timer for s in songs])
        elif k == "crash" and saved:
            w.restore(saved[0])
            for s, t in zip(songs, saved[1]):
                s.timer = t
            out.fault("crash_rollback")
        elif k == "join":
            w.spawn("player", name="J%d" % len(w.ents), pos=(ev[1], 70, 0))
            out.fault("player_joins")
        elif k == "move":
            for e in w.ents.values():
                if e.is_player:
                    e.pos = (e.pos[0] + ev[1], e.pos[1], e.pos[2])
                    break
            out.fault("player_moves")
        elif k == "main":
            # the tracks go on
            simrun.enter(out, w, simrun.fn_path(cfg, cfg.get("main_file",
                                                             "main")))
        elif k == "tick":
            for _ in range(ev[1]):
                n0 = len(w.log)
                w.tick()
                want = {}
                for s, d in zip(songs, case["songs"]):
                    for g in s.tick():
                        who = band if d["opts"].get("listener") else [
                            e.id for e in w.ents.values() if e.is_player]
                        for p in who:
                            want.setdefault("@{%d}" % p, []).append(g)
                got = {p: [x[1:4] for x in v] for p, v in
                       heard_in(w.log[n0:]).items()}
                total += sum(map(len, got.values()))
                if len(songs) > 1:
                    # (which of two pieces comes first does not matter)
                    for d in (want, got):
                        for p in d:
                            d[p] = sorted(d[p])
                sig.append(got)
                if got != want:
                    out.fail("heard", "in tick %d (%r): heard %r, expected "
                             "%r" % (w.tickno - 1, ev, got, want))
                    break
                for p, v in heard_in(w.log[n0:]).items():
                    for x in v:
                        e = w.ents.get(x[5])
                        if "@{%d}" % x[5] != p or \
                                x[4] != fmt_pos(e.pos):
                            out.fail("place", "a sound for %s is played at "
                                     "%s by %s" % (p, x[4], x[5]))
            out.count("ticks_simulated", ev[1])
        if w.problems:
            out.fail("problem", "%r: %r" % (ev, w.problems[0]),
                     w.problems[0][0])
        if out.violation:
            break
    out.count("sounds_heard", total)
    out.count("commands", w.ncmds)
    out.nontrivial = total >= 3
    out.sigs = [digest(sig)]
    out.trace = digest(w.log)
    out.sample = {"main.aca": src, "midi": case["songs"][0]["midi"],
                  "events": case["events"]}
    return out


def lists(b):
    n = len(b)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield b[:i] + b[i + size:]
        size //= 2


def shrinks(case):
    for x in lists(case["events"]):
        yield dict(case, events=x)
    if len(case["songs"]) > 1:
        yield dict(case, songs=case["songs"][:1])
        yield dict(case, songs=case["songs"][1:])
    for i, s in enumerate(case["songs"]):
        def put(t):
            return dict(case, songs=case["songs"][:i] + [t]
                        + case["songs"][i + 1:])
        m = s["midi"]
        if len(m["tracks"]) > 1:
            for x in lists(m["tracks"]):
                if x:
                    yield put(dict(s, midi=dict(m, tracks=x)))
        for j, t in enumerate(m["tracks"]):
            for x in lists(t):
                yield put(dict(s, midi=dict(
                    m, tracks=m["tracks"][:j] + [x] + m["tracks"][j + 1:])))
        for k in s["opts"]:
            yield put(dict(s, opts={a: b for a, b in s["opts"].items()
                                    if a != k}))
    if case["players"] > 1:
        yield dict(case, players=1)
    yield from simrun.shrink_config(case)


def describe(case):
    return "%s\nmidi: %r\nevents: %r\nconfig: %r" % (
        render(case), [s["midi"] for s in case["songs"]], case["events"],
        case["config"])
