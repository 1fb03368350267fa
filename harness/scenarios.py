"""What the recorded runs do."""
import copy
import json
import struct

from gen import Gen, PPQS, FORMATS, ODD, ODDWIDE
from impl import *            # noqa: F401,F403

# ---------------------------------------------------------------- values to assign
RANGE = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767),
         "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1)}


def pick_int(r, lo, hi):
    k = r.random()
    if k < 0.3:
        return r.choice([lo, hi, max(lo, -1), 0, 1, hi // 2, hi // 2 + 1])
    if k < 0.6:
        return r.randrange(max(lo, -200), min(hi, 300) + 1)
    return r.randrange(lo, hi + 1)


def text(r, uni=True):
    if r.random() < 0.2:
        chars = "abcXYZ 0189._-\\/%{}'\"\t" + ("\u00e9\u0416\u65e5\U0001f600\ufeff\u00a0\u2028" if uni else "")
        return ("".join(r.choice(chars) for _ in range(r.choice([1, 2, 5, 31, 63, 64, 65, 127, 130])))
                + r.choice(["", "", " ", "  ", "\t", "\n", "\r\n", "."]))
    if uni and r.random() < 0.3:
        return r.choice(["\u00fcber", "\u65e5\u672c", "\U0001f600", "a\u0301"] + ODDWIDE)
    if r.random() < 0.25:
        return r.choice(ODD)
    return r.choice(["", "x", "Kick", "A longer name than before", "y" * r.randrange(0, 140), "new %d" % r.randrange(99)])


def pick_value(r, run, kind, row, obj, uni, width=None):
    """a storable value for the attribute, tagged"""
    c = row["c"][width if width is not None else 0] if row["c"] else ""
    a = row["a"]
    if row["sp"]:
        return pick_special(r, run, kind, row, obj)
    if c in RANGE:
        return iv(pick_int(r, *RANGE[c]))
    if c in ("bool8", "bool32", "bit8", "bit16", "bit32", "nbit32"):
        return iv(r.randrange(2))
    if c == "f32":
        return tagf(struct.unpack("<f", Gen(r).f32())[0])
    if c == "f64":
        return tagf(r.choice([0.0, 1.0, 0.1, r.random(), -3.5]))
    if c in ("text", "utf8"):
        return tagt(text(r, uni or c == "utf8"))
    if c == "licensee":
        # only what the jumbled encoding can represent at its position
        n = r.randrange(0, 10)
        return tagt("".join(r.choice("abcdefXYZ0123456789") for _ in range(n)))
    if c == "path":
        return [12] + cps(r.choice([".", "a/b.wav", "x", "/tmp/some dir/file.flp"]))
    if c == "bytes":
        return [6] + [r.randrange(256) for _ in range(r.choice([0, 1, 5, 20, 200]))]
    if c == "color":
        return [8] + [r.randrange(256) for _ in range(4)]
    if c == "pair16":
        return tup([iv(pick_int(r, 0, 65535)), iv(pick_int(r, 0, 65535))])
    if c == "pair32":
        return tup([iv(pick_int(r, 0, 2**32 - 1)), iv(pick_int(r, 0, 2**32 - 1))])
    if c == "loop32":
        return tup([iv(pick_int(r, 0, 65535)), iv(pick_int(r, 0, 65535))])
    if c == "pairf32":
        g = Gen(r)
        return tup([tagf(struct.unpack("<f", g.f32())[0]) for _ in range(2)])
    if c == "mtime":
        return tup([iv(r.randrange(0, 9000)), iv(r.randrange(0, 16)), iv(5 * r.randrange(0, 48))])
    if c == "enum":
        names = {1: "AB", 2: ["pre", "post"], 3: ["none", "left", "right"], 4: "ABCD"}[row["x"][0]]
        return tagt(r.choice(list(names)))
    if c == "height":
        return tagt("%d%%" % r.randrange(0, 401))
    if c == "log2":
        return [15] + iv(r.randrange(-60000, 60001))[1:]
    if c == "lognorm":
        return [15] + iv(r.choice([0, 61440, r.randrange(1, 61441)]))[1:]
    if c == "notekey":
        n = r.randrange(0, 132)
        if r.random() < 0.5:
            return iv(n)
        return tagt(("C C# D D# E F F# G G# A A# B".split())[n % 12] + str(n // 12))
    if c == "revmix":
        return iv(r.choice([0, 256, 65535, r.randrange(0, 65536)]))
    if c == "revtype":
        return iv(r.choice([0, 65536]))
    return iv(0)


def pick_special(r, run, kind, row, obj):
    a = row["a"]
    if a == "tempo":
        if r.random() < 0.5:
            return [15] + iv(1000 * r.choice([10, 999, 522, r.randrange(5, 1100), r.randrange(10, 523), 523, 9, 1000, 0]))[1:] + [0]
        return [15] + iv(r.choice([9999, 10000, 10001, 522000, 522001, 522500, 998999, 139999, 999001, r.randrange(10000, 522001)]))[1:] + [1]
    if a == "channel_count":
        return iv(r.choice([0, 1, 5, 65535, 300, -1, -70000]))
    if a == "ppq":
        return iv(r.choice(list(PPQS) * 2 + [0, 1, 95, 97, 961, 4096, -96, 65536 + 96]))
    if a == "format":
        return iv(r.choice(FORMATS))
    if a == "version":
        # stays on the same side of 11.5, where the encoding of text changes
        cur = run.project.version
        new = (cur.major, cur.minor) >= (11, 5)
        return tagt(r.choice(["20.1.2", "21.0.3.3517", "21.0.3.0", "12.9.0", "12.9.1", "11.5.0.1", "20.1", "20.1.2.3.4", "12"] if new
                             else ["1.4.1", "1.4.2", "3.3.9", "3.4.0", "10.0.9", "11.4.0.77", "10.0.9.0", "11.0.0", "9.0", "4.1.2.3.4"]))
    if a == "pages":
        return tup([tup([iv(i), tagt(text(r))]) for i in r.sample(range(0, 300), r.randrange(0, 4))])
    if a == "editable":
        return iv(r.randrange(2))
    if a == "channel":
        iids = [c.iid for c in run.project.channels]      # of those with one number the last one is referred to
        return iv(r.choice([n for n, i in enumerate(iids, 1) if i not in iids[n:]]))
    if a == "pattern":
        n = sum(1 for _ in run.project.patterns)
        return iv(r.randrange(1, n + 1))
    return iv(1)


def poison(r, c):
    """a value of the right type which the attribute's storage cannot hold"""
    lo, hi = RANGE[c]
    return iv(r.choice([lo - 1, hi + 1, hi + r.randrange(2, 1000), lo - r.randrange(2, 1000)]))


# attributes which other models refer to or which decide the structure
STRUCTURAL = {("Pattern", "iid"), ("Channel", "iid"), ("Sampler", "iid"), ("Instrument", "iid"),
              ("Layer", "iid"), ("Automation", "iid"), ("Channel", "internal_name"), ("Sampler", "internal_name"),
              ("Instrument", "internal_name"), ("Layer", "internal_name"), ("Automation", "internal_name"),
              ("Slot", "internal_name")}


class Session:
    """Performs operations on a run and records them."""

    def __init__(self, run, rng, ops, families=ALL):
        self.run, self.r, self.ops, self.fam = run, rng, ops, list(families)
        self.views = []                # several generations of model objects
        self.uni = True
        self.raw = False               # only the events are looked at
        self.repointed = False         # items at hand may not know

    def open(self, data):
        op = self.run.open_op(data)
        if self.raw:
            op["raw"] = 1
        self.ops.append(op)
        self.views, self.repointed = [], False
        if op["e"] == 0 and not self.raw:
            v = self.run.project.version
            self.uni = (v.major, v.minor) >= (11, 5)
        return op["e"] == 0

    def dump(self, families=None, tops=()):
        self.ops.append(self.run.dump_op(families or self.fam, tops))

    def dump_at_hand(self, families=None):
        """iterates over collections obtained earlier"""
        views = self.r.choice(self.views) if self.views else []
        self.dump(families, [(key[0], obj) for key, _, obj in views if key[0] in TOPS])

    def shown(self, families=None):
        self.ops.append(self.run.shown_op(families or self.fam))

    def events(self):
        self.ops.append(self.run.events_op())

    def save(self):
        self.ops.append(self.run.save_op())
        return self.ops[-1]["r"] == 0

    def reopen(self):
        self.ops.append(self.run.reopen_op())
        if self.raw:
            self.ops[-1]["raw"] = 1
        self.views, self.repointed = [], False
        return self.ops[-1]["e"] == 0

    def fresh(self):
        """remember a new generation of model objects"""
        try:
            self.views.append(self.run.walk(self.fam))
        except Timeout:
            raise
        except Exception:
            self.dump()                # records the exception
            return False
        # a plugin that was replaced by one of another kind is no part of the project anymore
        now = {tuple(k): kd for k, kd, _ in self.views[-1]}
        self.views = [[x for x in view if x[0][0] not in (FCHPLUGIN, FSLOTPLUGIN) or now.get(tuple(x[0])) == x[1]]
                      for view in self.views[-3:]]
        return True

    def targets(self, gen=None):
        if not self.views:
            self.fresh()
        return self.views[-1 if gen is None else gen] if self.views else []

    def get(self, key, kind, obj, ai):
        v = self.run.get(key, kind, obj, ai)
        self.ops.append({"o": "get", "k": key, "a": ai + 1, "v": v})

    def set(self, key, kind, obj, ai, v):
        rc = self.run.set(key, kind, obj, ai, v)
        self.repointed |= self.run.table[kind][ai]["a"] in ("channel", "pattern")
        self.ops.append({"o": "set", "k": key, "a": ai + 1, "v": v, "r": rc})
        if kind == "Project" and self.run.table[kind][ai]["a"] == "version":
            # the number of tracks, and with it the keys of the items held, may be others now
            self.views = [[x for x in view if x[0][0] != 15] for view in self.views]
        return rc

    def alt_of(self, kind, obj, row):
        """which storage alternative of pan / volume is in use, by its event id"""
        if len(row["c"]) < 2:
            return 0
        ids = [int(i) for i in obj.events.ids]
        if len(row["c"]) == 3 and row["id"][0] not in ids and row["id"][2] in ids:
            return 2                                      # the byte is written along with the word
        for i, id_ in enumerate(row["id"]):
            if id_ in ids:
                return i
        return 0

    def choose(self, writable=True, kinds=None, attrs=None, gen=None):
        c = [(k, kd, o) for k, kd, o in self.targets(gen) if (not kinds or kd in kinds) and self.run.table[kd]]
        if not c:
            return None
        key, kind, obj = self.r.choice(c)
        rows = self.run.table[kind]
        ix = [i for i, row in enumerate(rows)
              if (row["w"] or not writable) and (kind, row["a"]) not in STRUCTURAL
              and row["a"] not in ("len", "children")        # not attributes in Python
              and (not attrs or row["a"] in attrs)]
        if not ix:
            return None
        return key, kind, obj, self.r.choice(ix)

    def random_set(self, bad=0.0, gen=None, kinds=None, readonly=0.0):
        ch = self.choose(writable=self.r.random() >= readonly, gen=gen, kinds=kinds)
        if ch is None:
            return None
        return self.assign(ch, bad)

    def assign(self, ch, bad=0.0):
        key, kind, obj, ai = ch
        row = self.run.table[kind][ai]
        if row["a"] in ("channel", "pattern"):
            fresh = {tuple(k): (kd, o) for k, kd, o in self.run.walk([key[0]])}
            if tuple(key) not in fresh or fresh[tuple(key)][0] != kind:
                return None
            obj = fresh[tuple(key)][1]
        alt = self.alt_of(kind, obj, row)
        c = row["c"][alt] if row["c"] else ""
        if bad and self.r.random() < bad:
            if c in RANGE and not row["sp"] and row["w"]:
                v = poison(self.r, c)
            elif c == "text" and not self.uni:
                v = tagt("\u00e9\u65e5")
            elif c == "notekey":
                v = self.r.choice([iv(132), iv(-1), tagt("H5"), tagt("C"), tagt("Cb4"), tagt("5"), tagt("")])
            else:
                v = pick_value(self.r, self.run, kind, row, obj, self.uni, alt)
        else:
            v = pick_value(self.r, self.run, kind, row, obj, self.uni, alt)
        self.set(key, kind, obj, ai, v)
        if row["a"] in ("channel", "pattern"):
            self.get(key, kind, obj, ai)
        return key, kind, obj, ai


def profile(r, **kw):
    kw.setdefault("sparse", r.choice([0.0, 0.1, 0.3, 0.6]))
    return kw


# ---------------------------------------------------------------- scenarios
def sc_session(run, r, ops, t, families=ALL, parts=None, kinds=None, nsets=10, bad=0.0, readonly=0.0,
               target=None, tail=True, messy=False, sparse=None, trunc=0.15):
    """open, read everything, edit through views of different age, save, open again"""
    kw = {} if sparse is None else {"sparse": sparse}
    g = Gen(r, parts=set(parts) if parts else None, kinds=kinds, messy=messy, trunc=trunc, **profile(r, **kw))
    s = Session(run, r, ops, families)
    if not s.open(g.file()):
        return
    s.dump()
    if r.random() < 0.5:
        s.shown()
    s.fresh()
    done = []
    for i in range(nsets):
        k = r.random()
        if k < 0.15:
            s.fresh()
        gen = r.randrange(len(s.views)) if s.views else None
        ch = s.random_set(bad=bad, gen=gen, kinds=target, readonly=readonly)
        if ch is None:
            continue
        done.append(ch)
        if r.random() < 0.5:
            s.get(*ch)
            # the same model through another view
            for gen2 in range(len(s.views)):
                for key, kind, obj in s.views[gen2]:
                    if key == ch[0] and kind == ch[1] and obj is not ch[2]:
                        row = run.table[kind][ch[3]]
                        if row["a"] not in ("channel", "pattern"):
                            s.get(key, kind, obj, ch[3])
        if r.random() < 0.1:
            s.save()
    if r.random() < 0.3 and all(run.table[c[1]][c[3]]["a"] != "version" for c in done):
        s.dump_at_hand()
    s.dump(ALL if families != ALL and r.random() < 0.3 else None)
    s.shown()
    if not tail:
        return
    if s.save():
        if s.reopen():
            s.dump()
            s.save()


# dimensions beyond what one byte or a few bits count
MANY = {
    "mixer": [{"inserts": 70, "slots": 0}, {"inserts": 127, "slots": 0}, {"inserts": 66, "slots": 1},
              {"inserts": 3, "slots": 10}],
    "channels": [{"channels": 20}, {"channels": 66}, {"channels": 270}],
    "patterns": [{"patterns": 270, "notes": 0, "controllers": 0}, {"patterns": 3, "notes": 90, "controllers": 70},
                 {"patterns": 1, "notes": 300, "controllers": 1}],
    "arrangements": [{"arrangements": 2, "tracks": 199, "items": 3}, {"arrangements": 1, "tracks": 500, "items": 4},
                     {"arrangements": 1, "tracks": 20, "items": 100}, {"arrangements": 12, "tracks": 2}],
}


def sc_many(run, r, ops, t, part="mixer", nsets=6):
    """large projects: few of the models are looked at, the last ones among them"""
    many = MANY[part][t % len(MANY[part])]
    fam = {"mixer": [17, 18, 19, 20], "channels": [2, 3, 4, 5, 6], "patterns": [7, 8, 9, 10, 11],
           "arrangements": [12, 13, 14, 15, 16]}[part]
    parts = {"mixer": ["mixer"], "channels": ["channels"], "patterns": ["patterns"],
             "arrangements": ["channels", "patterns", "arrangements"]}[part]
    new = many.get("inserts", 0) > 100 or many.get("tracks", 0) > 199
    g = Gen(r, parts=set(parts), many=many, version="20.8.4.2576" if new else None,
            old=0 if "inserts" in many else 0.3, sparse=r.choice([0.3, 0.7, 0.9]))
    s = Session(run, r, ops, fam)
    if not s.open(g.file()):
        return
    s.dump()
    if r.random() < 0.5:
        s.shown()
    s.fresh()
    done = []
    for _ in range(nsets):
        views = s.targets()
        ch = s.random_set()
        if ch:
            done.append(ch)
            s.get(*ch)
    if s.save() and s.reopen():
        s.fresh()
        at = {tuple(k): (kd, o) for k, kd, o in s.targets()}
        for key, kind, _, ai in done:
            if tuple(key) in at:
                s.get(key, at[tuple(key)][0], at[tuple(key)][1], ai)


# ---------------------------------------------------------------- files as they are
def digest(b):
    import hashlib
    return hashlib.sha256(bytes(b)).hexdigest()


SIZES = [0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256, 257]
TEXTS = list(range(192, 208)) + [231, 239, 241]


def stream(r, n, messy=True, lengths=None):
    """a random list of events of every identifier whose payload has no structure"""
    from gen import STRUCTS, CHANNEL_PLUGINS, SLOT_PLUGINS, VST
    g = Gen(r, messy=messy)
    plug = None
    evs = [(199, g.version.encode() + b"\0")]
    structs = {209, 212, 213, 215, 217, 218, 219, 221, 223, 224, 225, 226, 227, 228, 229, 233, 234, 235,
               236, 237, 238}
    for _ in range(n):
        id_ = r.randrange(256) if r.random() < 0.9 else r.choice([199, 201, 201, 213, 213])
        if id_ < 192:
            k = 1 if id_ < 64 else 2 if id_ < 128 else 4
            b = g.f32() if id_ == 140 else g.bytes(k)
        elif id_ == 199:
            # from here on text is read as this version stores it
            v = r.choice([g.version, "9.0.3", "11.4.9", "11.5.0", "20.8.4.2576"])
            g.uni = [int(x) for x in v.split(".")[:2]] >= [11, 5]
            b = v.encode() + b"\0"
        elif id_ == 201 or id_ == 213:
            if id_ == 201:
                plug = r.choice(CHANNEL_PLUGINS + SLOT_PLUGINS + ["", "Sytrus", "fruity send"])
                b = g.text(plug)
            elif plug == VST:
                b = g.vst()
            elif plug in CHANNEL_PLUGINS + SLOT_PLUGINS:
                b = g.native(plug)
            else:
                b = g.bytes(r.choice(lengths or SIZES))
        elif id_ in TEXTS:
            b = g.text()
            if r.random() < 0.2:
                b = g.text_of("".join(r.choice("abc 019") for _ in range(r.choice(lengths or SIZES))))
        elif id_ in STRUCTS:
            b = g.struct(id_)
        elif id_ in structs:
            continue
        else:
            b = g.bytes(r.choice(lengths or SIZES))
        evs.append((id_, b))
    return evs


def sc_stream(run, r, ops, t, n=40, events=True, reads=False):
    """arbitrary event sequences: decoded exactly, written back exactly"""
    from gen import file_bytes
    s = Session(run, r, ops, [])
    s.raw = True
    evs = stream(r, r.choice([0, 1, 3, n, n]))
    if not s.open(file_bytes(evs, r.choice(FORMATS), r.choice([0, 1, 255, 256, 65535]), r.choice(PPQS))):
        return
    if events:
        s.events()
    s.save()
    if r.random() < 0.3 and s.reopen():
        s.events()
        s.save()


def sc_roundtrip(run, r, ops, t, messy=True, reads=0.4, sparse=None, trunc=0.2):
    """whole projects, never edited: saving writes the bytes that were read"""
    kw = {} if sparse is None else {"sparse": sparse}
    g = Gen(r, messy=messy, trunc=trunc, **profile(r, **kw))
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    if r.random() < 0.4:
        s.events()
    if r.random() < reads:
        try:
            run.walk(r.sample(ALL, r.randrange(1, len(ALL))))
        except Timeout:
            raise
        except Exception:
            pass
    s.save()
    if r.random() < 0.3 and s.reopen():
        s.save()


def sc_large(run, r, ops, t):
    """events whose length needs three or four bytes; the container is compared by digest"""
    from gen import file_bytes
    n = [16382, 16383, 16384, 16385, 32767, 65535, 65536, 2097151, 2097152][t % 9]
    g = Gen(r)
    evs = [(199, g.version.encode() + b"\0"), (208, g.bytes(3)),
           (r.choice([208, 210, 216, 255]), r.randbytes(n) if hasattr(r, "randbytes") else bytes(n)),
           (194, g.text()), (66, g.num(2))]
    if n < 70000:
        evs.append((206, g.text_of("t" * (n // 2))))
    data = file_bytes(evs, 0, 1, 96)
    s = Session(run, r, ops, [])
    e = run.open(data)
    ops.append({"o": "same", "n": "a valid file opens", "x": 0, "y": e})
    if e:
        return
    got = [(int(x.id), len(bytes(x)), int(x.size)) for x in run.project.events]
    want = [(i, 1 + len(d) + (len(__import__("gen").varint(len(d))) if i >= 192 else 0)) for i, d in evs]
    ops.append({"o": "same", "n": "events of a large file", "x": [[a, b, b] for a, b in want],
                "y": [list(x) for x in got]})
    sv = run.save_op()
    ops.append({"o": "same", "n": "large file written back", "x": [0, digest(data)], "y": [sv["r"], digest(sv["b"])]})
    # a text which grows to and shrinks from sizes whose prefix needs more bytes
    for size in (r.choice([62, 63, 64, 126, 127, 128]), r.choice([8190, 8191, 8192, 16382, 16383, 16384, 1048575, 1048576]), 3):
        title = r.choice("qz") * size
        run.project.title = title
        evs = [(i, g.text_of(title)) if i == 194 else (i, d) for i, d in evs]
        sv = run.save_op()
        ops.append({"o": "same", "n": "a text of another size", "x": [0, digest(file_bytes(evs, 0, 1, 96))],
                    "y": [sv["r"], digest(sv["b"])]})


def asset_files(corrupted=False):
    """real files written by FL Studio: projects, presets, scores"""
    import glob
    import os
    out = []
    for ext in ("flp", "fst", "fsc"):
        out += glob.glob(os.path.join(REPO, "tests", "assets", "**", "*." + ext), recursive=True)
    return sorted(p for p in out if ("corrupted" in p) == corrupted)


def sc_asset(run, r, ops, t):
    """real files: small ones are compared with the specification event by event"""
    files = asset_files()
    if not files:
        return
    with open(files[t % len(files)], "rb") as fp:
        data = fp.read()
    if len(data) < 12000:
        s = Session(run, r, ops, [])
        s.raw = True
        if s.open(data):
            s.events()
            s.save()
        return
    e = run.open(data)
    ops.append({"o": "same", "n": "asset opens", "x": 0, "y": e})
    if e:
        return
    if t >= len(files):
        run.walk(ALL)
    sv = run.save_op()
    ops.append({"o": "same", "n": "asset written back", "x": [0, digest(data)], "y": [sv["r"], digest(sv["b"])]})


# ---------------------------------------------------------------- damaged files
def sc_malformed(run, r, ops, t):
    from gen import file_bytes, event_bytes, varint
    s = Session(run, r, ops, [])
    g = Gen(r, sparse=0.85, big=0, parts=set(r.sample(["project", "channels", "patterns", "mixer"], r.randrange(1, 3))))
    k = t % 8
    if k in (0, 1, 2):
        # every header byte, every kind of value, on several files
        base = bytearray(g.file())
        at = (t // 8) % 22
        old = base[at]
        for v in sorted({0, 1, 5, 6, 7, 255, 128, 127, old ^ 1, old ^ 128, old ^ 32, (old + 1) % 256, (old - 1) % 256,
                         r.randrange(256), r.randrange(256)}):
            b = bytearray(base)
            b[at] = v
            s.open(bytes(b))
    elif k == 3:
        # cut off anywhere, or followed by something
        base = g.file()
        for n in sorted(set(list(range(0, 26)) + [r.randrange(len(base) + 1) for _ in range(12)] + [len(base) - 1])):
            if n < len(base):
                s.open(base[:n])
        for x in (b"\0", b"FLdt", r.randrange(256).to_bytes(1, "little") * r.randrange(1, 9)):
            s.open(base + x)
    elif k == 4:
        # the data chunk is consistent, its last event is not complete
        evs = g.events()
        body = b"".join(event_bytes(i, d) for i, d in evs)
        id_ = r.choice([0, 5, 63, 64, 66, 127, 128, 191, 194, 199, 206, 208, 216, 224, 255])
        if id_ < 192:
            full = bytes([id_]) + bytes(1 if id_ < 64 else 2 if id_ < 128 else 4)
        else:
            n = r.choice([1, 2, 5, 127, 128, 200, 20000])
            full = bytes([id_]) + varint(n) + bytes(n)
        for cut in sorted(set(range(1, min(len(full), 12))) | {len(full) - 1}):
            tail = full[:cut]
            s.open(header(len(body) + len(tail)) + body + tail)
            if r.random() < 0.3:
                break
    elif k == 5:
        # the length of the data chunk is wrong
        base = bytearray(g.file())
        n = len(base) - 22
        for m in (0, 1, n - 1, n + 1, n + 256, n ^ 0x8000, 2**31, 2**32 - 1, n + 2**24):
            if m != n and m >= 0:
                base[18:22] = struct.pack("<I", m)
                s.open(bytes(base))
    elif k == 6:
        # text which occurs before the version is known
        evs = g.events()
        i = next(i for i, e in enumerate(evs) if e[0] == 199)
        ver = evs.pop(i)
        tx = (r.choice([194, 206, 192, 203, 231, 239, 241]), g.text("abc"))
        if r.random() < 0.5:
            evs = evs[:i] + [tx, ver] + evs[i:]
        else:
            evs = evs[:i] + [e for e in evs[i:] if e[0] not in TEXTS and e[0] != 213] + [tx]
        s.open(file_bytes(evs))
    else:
        # a length prefix which promises more than there is, in the middle of nowhere
        evs = [(199, g.version.encode() + b"\0"), (66, b"\x8c\0")]
        body = b"".join(event_bytes(i, d) for i, d in evs)
        for n, have in ((5, 4), (5, 0), (128, 127), (128, 0), (300, 1), (2**21, 3), (2**27, 0)):
            x = bytes([r.choice([194, 208, 224, 255])]) + varint(n) + bytes(have)
            s.open(header(len(body) + len(x)) + body + x)
        for x in (b"\xd0\x80", b"\xc2\xff\xff", b"\xc2", b"\xd0\x80\x80\x80"):
            s.open(header(len(body) + len(x)) + body + x)
    # and the undamaged one
    s.open(g.file())
    for path in asset_files(corrupted=True)[t % 7:][:1]:
        with open(path, "rb") as fp:
            s.open(fp.read())


def sc_container(run, r, ops, t, behaviour):
    """small files, each opened; the events of accepted ones are written again"""
    s = Session(run, r, ops, [])
    s.raw = True
    for case in behaviour:
        if s.open(bytes(case["b"])) and case["x"]:
            s.events()
            s.save()


def header(n, fmt=0, count=1, ppq=96):
    return struct.pack("<4sIhHH4sI", b"FLhd", 6, fmt, count, ppq, b"FLdt", n)


# ---------------------------------------------------------------- one edit touches nothing else
def sc_frame(run, r, ops, t, nsets=4, target=None, **kw):
    g = Gen(r, **profile(r, **kw))
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    s.fresh()
    for _ in range(nsets):
        if s.random_set(kinds=target) is None:
            continue
        s.dump()
        if r.random() < 0.3:
            s.events()
    s.save()


# ---------------------------------------------------------------- reading is pure
def sc_pure(run, r, ops, t, messy=True):
    g = Gen(r, messy=messy, trunc=0.2, **profile(r))
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.4:
            s.dump(r.sample(ALL, r.randrange(1, len(ALL))) if r.random() < 0.5 else ALL)
        elif k < 0.6:
            s.events()
        else:
            walked = run.walk(r.sample(ALL, r.randrange(1, len(ALL))))
            for key, kind, obj in walked:
                for what in (repr, str, len, list, bool):
                    if r.random() < 0.5:
                        try:
                            what(obj)
                        except Timeout:
                            raise
                        except Exception:
                            pass
                for ai in range(len(run.table[kind])):
                    if r.random() < 0.3:
                        s.get(key, kind, obj, ai)
                        if r.random() < 0.3:
                            s.get(key, kind, obj, ai)
            for name in ("max_inserts", "max_slots"):
                try:
                    getattr(run.project.mixer, name)
                except Exception:
                    pass
            try:
                repr(run.project)
                for e in run.project.events:
                    repr(e), e.size, bytes(e)
                run.project.version, run.project.tempo, run.project.created_on
            except Timeout:
                raise
            except Exception:
                pass
    lookups(s, run, r, 3)
    s.events()
    s.save()


def quietly(f, *a):
    try:
        return f(*a)
    except Timeout:
        raise
    except Exception:
        return None


def poke(run, r, obj, depth=4, budget=None):
    """asks an object for everything it offers, whatever it answers"""
    budget = budget if budget is not None else [600]
    budget[0] -= 1
    if obj is None or depth < 0 or budget[0] < 0 or isinstance(obj, (int, float, str, bytes, type)):
        return
    if type(obj).__module__.startswith("construct"):
        return
    for f in (repr, str, bool, len, hash, lambda o: o == o, lambda o: o != o, lambda o: o[0], lambda o: o[-1], lambda o: o[:2],
              lambda o: o["nobody"], lambda o: 3 in o, dir):
        if r.random() < 0.6:
            quietly(f, obj)
    if type(obj).__module__.startswith("pyflp"):
        for name in dir(type(obj)):
            if name[0] != "_" and not callable(quietly(getattr, type(obj), name)) and r.random() < 0.8:
                v = quietly(getattr, obj, name)
                if name not in ("events", "parent", "root"):
                    poke(run, r, v, depth - 1, budget)
    if not isinstance(obj, (dict, tuple)):
        def each():
            for i, x in enumerate(obj):
                if i > 400:
                    break
                poke(run, r, x, depth - 1, budget)
        quietly(each)


def sc_poke(run, r, ops, t):
    """damaged references, events in odd places: looking at all of it changes nothing"""
    from gen import file_bytes
    if r.random() < 0.3:
        data = file_bytes(stream(r, 60), 0, 1, 96)
    else:
        data = Gen(r, messy=True, wild=r.choice([0.1, 0.5]), trunc=0.3, **profile(r)).file()
    s = Session(run, r, ops, [])
    s.raw = True
    if not s.open(data):
        return
    poke(run, r, run.project, 5)
    for e in run.project.events:
        if r.random() < 0.3:
            poke(run, r, e, 2)
    s.events()
    s.save()
    poke(run, r, run.project, 5)
    s.events()


# ---------------------------------------------------------------- plugins
def sc_plug(run, r, ops, t, n=4):
    """plugins of slots and channels are assigned to others, then both are edited"""
    parts = r.choice([["mixer"], ["mixer"], ["channels"], ["channels", "mixer"]])
    g = Gen(r, parts=set(parts), kinds=["instrument", "native"], trunc=0.1, **profile(r))
    s = Session(run, r, ops, [FCHANNEL, FCHPLUGIN, FSLOT, FSLOTPLUGIN])
    if not s.open(g.file()):
        return
    s.dump()
    for _ in range(n):
        if not s.fresh():
            return
        walked = s.targets()
        src = [(k, kd, o) for k, kd, o in walked if k[0] in (FCHPLUGIN, FSLOTPLUGIN)]
        if not src:
            return
        k, kd, o = r.choice(src)
        have = {tuple(k2): kd2 for k2, kd2, _ in src}
        fam, pf = (FSLOT, FSLOTPLUGIN) if k[0] == FSLOTPLUGIN else (FCHANNEL, FCHPLUGIN)
        # data of an unknown plugin doesn't carry the name which tells how to read it
        hosts = [(hk, ho) for hk, hkd, ho in walked if hk[0] == fam and hk[1:] != k[1:]
                 and (fam == FSLOT or hkd == "Instrument")
                 and (kd != "Plugin" or have.get(tuple([pf] + hk[1:]), "Plugin") == "Plugin")]
        if hosts:
            hk, ho = r.choice(hosts)
            s.ops.append(run.plug_op(hk, ho, k, o))
            s.dump()
            s.fresh()
        for _ in range(4):
            s.random_set(kinds=[x for x in run.table if x in NATIVE_KINDS])
        if r.random() < 0.3:
            s.dump()
    s.dump()
    s.events()
    if s.save() and s.reopen():
        s.dump()


# ---------------------------------------------------------------- look-ups
def lookups(s, run, r, n):
    walked = {tuple(k): o for k, _, o in run.walk(ALL)}
    kinds = {tuple(k): kd for k, kd, _ in run.walk(ALL)}
    colls = [(FRACK,), (FPATTERNS,), (FARRANGEMENTS,), (FMIXER,)]
    colls += [k for k in walked if k[0] in (FINSERT, FTRACK)]
    colls += [k for k in walked if k[0] == FCHANNEL and kinds[k] == "Layer"]
    for _ in range(n):
        c = r.choice(colls if r.random() < 0.5 else colls[:4])
        coll = run.collection(c, walked)
        how = r.choice(["int", "int", "name", "slice"])
        members = [k for k in walked if MEMBER.get(c[0]) == k[0] and k[1:-1] == c[1:]]
        if how == "slice":
            pick = lambda a, b: [r.randrange(a, b)] if r.random() < 0.7 else []
            i = [pick(-5, 6), pick(-5, 6), [x for x in pick(-3, 4) if x]]
        elif how == "int" or c[0] in (FTRACK, FCHANNEL):
            i = r.randrange(-3, 8)
            if c[0] == FRACK and members and r.random() < 0.6:
                i = walked[r.choice(members)].iid
            if c[0] == FCHANNEL:
                how = "layer"
                iids = [ch.iid for ch in run.project.channels]
                kids = quietly(lambda: [ch.iid for ch in coll])
                i = r.choice(kids if kids and r.random() < 0.6 else iids + [0, 77])
            else:
                how = "int"
        else:
            a = "display_name" if c[0] == FRACK else "name"
            names = [getattr(walked[m], a) for m in members]
            names = [x for x in names if isinstance(x, str)] + ["nobody", "", "Kick"]
            i = tagt(r.choice(names))
        s.ops.append(run.find_op(c, coll, how, i))


MEMBER = {FRACK: FCHANNEL, FPATTERNS: FPATTERN, FARRANGEMENTS: FARRANGEMENT, FMIXER: FINSERT, FINSERT: FSLOT,
          FTRACK: FITEM}


def sc_find(run, r, ops, t, sparse=None, n=14):
    kw = {} if sparse is None else {"sparse": sparse}
    g = Gen(r, small=r.random() < 0.5, big=0.1, **profile(r, **kw))
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    s.dump([FRACK, FPATTERNS, FARRANGEMENTS, FMIXER, FINSERT, FTRACK, FCHANNEL, FSLOT])
    lookups(s, run, r, n)
    # points of automations, by position
    for key, kind, obj in run.walk([FCHANNEL]):
        if kind == "Automation":
            pts = [x for x in obj]
            show = lambda x: [plain(x.position), plain(x.value), plain(x.tension)]
            for i in range(-1, len(pts) + 1):
                try:
                    got = show(obj[i])
                except X.ModelNotFound:
                    got = "not found"
                want = show(pts[i]) if 0 <= i < len(pts) else "not found"
                ops.append({"o": "same", "n": "automation point by position", "x": want, "y": got})
            ops.append({"o": "same", "n": "slice of points", "x": [show(x) for x in pts[:2]],
                        "y": [show(x) for x in obj[:2]]})
    # renamed members are found under their new name
    for _ in range(3):
        ch = s.choose(kinds=["Pattern", "Insert", "Arrangement", "Slot", "Sampler", "Layer", "Channel"], attrs=["name"])
        if ch:
            s.assign(ch)
    lookups(s, run, r, n // 2)


def sc_ids(run, r, ops, t, what=None, n=6):
    """patterns and channels get numbers no other one has"""
    what = what or r.choice(["patterns", "channels"])
    g = Gen(r, parts={"project", "patterns", "channels"} if r.random() < 0.5 else {what}, small=r.random() < 0.5,
            kinds=["sampler", "instrument", "automation", "native", "audio", "odd"] if what == "channels" else None,
            **profile(r))                         # a layer refers to its children by their numbers
    s = Session(run, r, ops, [FPROJECT, FRACK, FCHANNEL, FGROUP, FPATTERNS, FPATTERN, FNOTE, FCONTROLLER, FPATMARKER])
    if not s.open(g.file()):
        return
    s.dump()
    fam = FPATTERN if what == "patterns" else FCHANNEL
    used = {o.iid for k, _, o in run.walk([FPATTERN, FCHANNEL]) if "iid" in dir(o)}
    for _ in range(n):
        if r.random() < 0.5 and not s.fresh():
            return
        c = [x for x in s.targets(r.randrange(len(s.views)) if s.views else None) if x[0][0] == fam]
        c = [x for x in c if 65 in x[2].events.ids or 64 in x[2].events.ids]      # what precedes the first has no number
        if not c:
            return
        key, kind, obj = r.choice(c)
        ai = next(i for i, row in enumerate(run.table[kind]) if row["a"] == "iid")
        v = r.choice([x for x in [1, 2, 3, 7, 255, 256, 20479, 20480, 65535, r.randrange(1, 65536)] if x not in used] or [4711])
        used.add(v)
        s.set(key, kind, obj, ai, iv(v))
        if r.random() < 0.5:
            s.get(key, kind, obj, ai)
        if r.random() < 0.4:
            s.random_set()
        if r.random() < 0.4:
            s.dump()
    lookups(s, run, r, 4)
    s.dump()
    s.events()
    if s.save() and s.reopen():
        s.dump()


# ---------------------------------------------------------------- events added and removed
# per family: identifiers which may be added, removed; whether the group ends (else begins) with its separator
CHANNEL_EVENTS = [0, 15, 20, 22, 32, 69, 70, 71, 74, 75, 76, 83, 85, 86, 89, 97, 128, 131, 132, 135, 138, 139, 142, 143, 144,
                  153, 155, 192, 196, 203, 209, 212, 215, 219, 221, 229]
CHANGES = {
    FPROJECT: ([9, 10, 12, 23, 28, 80, 156, 194, 195, 197, 198, 200, 202, 206, 207, 237, 11, 13, 133, 30, 17, 18],
               [9, 10, 12, 23, 28, 66, 80, 93, 146, 156, 194, 195, 197, 198, 200, 202, 206, 207, 237, 227, 225], 0),
    FRACK: ([11, 13, 133, 231], [11, 13, 133, 231], 0),
    FCHANNEL: (CHANNEL_EVENTS, CHANNEL_EVENTS + [2, 3, 72, 73, 94, 213, 218, 228, 234], 0),
    FCHPLUGIN: ([], [212, 213], 0),
    FPATTERNS: ([30], [30, 67], 0),
    FPATTERN: ([26, 150, 164, 193, 223, 224], [26, 150, 164, 193, 223, 224], 0),
    FARRANGEMENTS: ([17, 18], [17, 18, 152, 217], 0),
    FARRANGEMENT: ([241], [233, 241], 0),
    FTRACK: ([239], [239], 0),
    FMIXER: ([29], [29, 225], 0),
    FINSERT: ([95, 149, 154, 204], [95, 149, 154, 204, 235], 1),
    FSLOT: ([128, 155, 203, 212], [128, 155, 203, 212, 213], 1),
    FSLOTPLUGIN: ([], [212, 213], 0),
}


def take(s, model, i, n, r):
    """removes an event from a model"""
    tree = model[2].events
    op = {"o": "change", "k": model[0], "v": s.run.places(tree), "how": 0, "i": i, "n": n, "r": 0}
    try:
        eid = next(e.id for e in tree if e.id == i)
        if r.random() < 0.5:
            tree.remove(eid, n)
        else:
            tree.pop(eid, n)
    except Timeout:
        raise
    except Exception as exc:
        op["r"] = code(exc)
    s.ops.append(op)


# the collection of which a model is a part
BELOW = {f: t for t, fs in ((FRACK, (FRACK, FGROUP, FCHANNEL, FPOINT, FCHPLUGIN)),
                            (FPATTERNS, (FPATTERNS, FPATTERN, FNOTE, FCONTROLLER, FPATMARKER)),
                            (FARRANGEMENTS, (FARRANGEMENTS, FARRANGEMENT, FARRMARKER, FTRACK, FITEM)),
                            (FMIXER, (FMIXER, FINSERT, FSLOT, FSLOTPLUGIN))) for f in fs}
TOPS = set(BELOW.values())


def change(s, r, donor):
    """adds an event (of the donor) to, or removes one from, the events of some model"""
    run = s.run
    walked = run.walk(list(CHANGES))
    models = [x for x in walked if len(x[2].events)]
    key, kind, obj = r.choice(models)
    if r.random() < 0.5:
        key, kind, obj = r.choice([x for x in models if x[0][0] == r.choice(models)[0][0]] or models)
    add, rem, ends = CHANGES[key[0]]
    tree = obj.events
    have = [int(e.id) for e in tree]
    op = {"o": "change", "k": key, "v": run.places(tree)}
    new = [e for k, kd, o in donor for e in o.events
           if k[0] == key[0] and kd == kind and int(e.id) in add and (int(e.id) not in have or e.id == 231)] if r.random() < 0.6 else []
    if new:
        e = r.choice(new)
        b = bytes(e)[1:]
        if e.id >= 192:
            while b[0] >= 128:
                b = b[1:]
            b = b[1:]
        first = 0 if ends else 1
        if key[0] == FPROJECT:
            first = have.index(199) + 1                 # text is not read before the version is known
        op.update(how=1, n=r.randrange(first, len(have) + (0 if ends else 1)), i=int(e.id), d=list(b))
        e = copy.deepcopy(e)
    else:
        old = [i for i in set(have) if i in rem]
        if 231 in old and have.count(231) < 2 + max([x.value for x in tree if x.id == 145] or [-1]):
            old.remove(231)                             # a channel refers to the last one
        if not old:
            return False
        i = r.choice(sorted(old))
        op.update(how=0, n=r.randrange(have.count(i)), i=i)
    # what the object at hand shows before and after, mostly of the event in question
    rows = run.table[kind]
    told = [i for i, row in enumerate(rows) if op["i"] in row["id"]]
    told = r.sample(told, min(len(told), 2)) + r.sample(range(len(rows)), min(len(rows), 2))
    for ai in told:
        s.get(key, kind, obj, ai)
    try:
        if op["how"]:
            tree.insert(op["n"], e)
        elif r.random() < 0.5:
            tree.remove(next(x.id for x in tree if x.id == op["i"]), op["n"])
        else:
            tree.pop(next(x.id for x in tree if x.id == op["i"]), op["n"])
        op["r"] = 0
    except Timeout:
        raise
    except Exception as exc:
        op["r"] = code(exc)
    s.ops.append(op)
    s.views = []
    if key[0] in BELOW and r.random() < 0.4:
        top = BELOW[key[0]]
        s.dump([f for f in BELOW if BELOW[f] == top], [(k[0], o) for k, _, o in walked if k[0] == top])
    if [kd for k, kd, _ in run.walk([key[0]]) if k == key] != [kind]:
        return True                                     # a plugin which lost an event is another one, or none
    if op["how"] and have[op["n"]:op["n"] + 1] == [65]:
        return True                                     # before a pattern's second half comes what is another's
    for ai in told:
        s.get(key, kind, obj, ai)
    if told and r.random() < 0.4 and (kind, rows[told[0]]["a"]) not in STRUCTURAL and rows[told[0]]["w"]:
        s.assign((key, kind, obj, told[0]))
    return True


def sc_change(run, r, ops, t, n=7):
    import impl
    sparse = r.choice([0.1, 0.3, 0.5])
    version = Gen(r).version
    g = Gen(r, small=r.random() < 0.6, sparse=sparse, version=version)
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    other = impl.Run(run.table, run.path + ".donor")
    if other.open(Gen(r, sparse=0.0, trunc=0.1, version=version).file()):
        return
    for turn in range(2):
        for _ in range(n):
            change(s, r, other.walk(list(CHANGES)))
            if r.random() < 0.3:
                s.dump(r.sample(ALL, 7))
            if r.random() < 0.4:
                s.fresh()
                s.random_set()
                s.views = []
        s.dump()
        s.shown()
        s.events()
        if not s.save() or not s.reopen():
            return
        s.dump()


# ---------------------------------------------------------------- several iterations at once
def iterations(run):
    """[(what makes an iterator, [(key, kind)] of what it yields)]"""
    walked = run.walk(ALL)
    kinds = [(k, kd) for k, kd, _ in walked]

    def below(f, *at):
        return [(k, kd) for k, kd in kinds if k[0] == f and tuple(k[1:1 + len(at)]) == at]
    out = []
    for key, kind, obj in walked:
        at = tuple(key[1:])
        if kind == "Rack":
            out += [(lambda o=obj: o, below(FCHANNEL)), (lambda o=obj: o.groups, below(FGROUP))]
            for name in ("automations", "instruments", "layers", "samplers"):
                want = [x for x in below(FCHANNEL) if x[1] == name[:-1].capitalize()]
                out.append((lambda o=obj, n=name: getattr(o, n), want))
        elif kind in ("Automation", "Patterns", "Arrangements", "Mixer", "Insert", "Track"):
            f = {"Automation": FPOINT, "Patterns": FPATTERN, "Arrangements": FARRANGEMENT, "Mixer": FINSERT, "Insert": FSLOT,
                 "Track": FITEM}[kind]
            out.append((lambda o=obj: o, below(f, *at)))
        elif kind == "Pattern":
            out += [(lambda o=obj: o.notes, below(FNOTE, *at)), (lambda o=obj: o.controllers, below(FCONTROLLER, *at)),
                    (lambda o=obj: o.timemarkers, below(FPATMARKER, *at))]
        elif kind == "Arrangement":
            out += [(lambda o=obj: o.timemarkers, below(FARRMARKER, *at)), (lambda o=obj: o.tracks, below(FTRACK, *at))]
    return out


MAIN = {"channels": FCHANNEL, "patterns": FPATTERN, "arrangements": FARRANGEMENT, "mixer": FINSERT}


def weave(sessions, r, rounds):
    """iterations, of several projects maybe, which are under way at the same time"""
    for _ in range(rounds):
        some = []
        for s in sessions:
            all_ = iterations(s.run)
            rich = [x for x in all_ if len(x[1]) > 1] or all_
            some += [(s, *r.choice(rich if r.random() < 0.8 else all_)) for _ in range(r.randrange(2, 5))]
        if r.random() < 0.5:
            some.append(some[0])                          # the very same collection twice
        if len(sessions) > 1:                             # the same one of another project
            for name, f in r.sample(sorted(MAIN.items()), 2):
                some += [(s, lambda s=s, n=name: getattr(s.run.project, n), [(k, kd) for k, kd, _ in s.run.walk([f])])
                         for s in sessions]
        going = [(s, iter(make()), list(want)) for s, make, want in some]
        while going and max(len(s.ops) for s in sessions) < 400:
            s, it, want = x = r.choice(going)
            run, ops = s.run, s.ops
            try:
                obj = next(it)
            except StopIteration:
                going.remove(x)
                ops.append({"o": "same", "n": "an iteration yields everything", "x": 0, "y": len(want)})
                continue
            except Timeout:
                raise
            except Exception as exc:
                going.remove(x)
                none = type(exc).__name__ == "NoModelsFound" and not want
                ops.append({"o": "same", "n": "an iteration goes on", "x": "", "y": "" if none else type(exc).__name__})
                continue
            if not want:
                going.remove(x)
                ops.append({"o": "same", "n": "an iteration ends", "x": 0, "y": 1})
                continue
            key, kind = want.pop(0)
            rows = run.table[kind]
            for ai in r.sample(range(len(rows)), min(len(rows), 2)):
                s.get(key, kind, obj, ai)
            if r.random() < 0.25:
                can = [i for i, row in enumerate(rows) if row["w"] and (kind, row["a"]) not in STRUCTURAL
                       and row["a"] not in ("len", "children", "channel", "pattern")]
                if can:
                    ai = r.choice(can)
                    s.assign((key, kind, obj, ai))
                    s.get(key, kind, obj, ai)
            if r.random() < 0.05:
                s.dump(r.sample(ALL, 3))
            if r.random() < 0.05:
                s.save()
            if r.random() < 0.03:
                going.remove(x)                           # left alone, half way


def sc_lazy(run, r, ops, t, rounds=3):
    """iterations which are under way at the same time, between edits, do not know of each other"""
    s = Session(run, r, ops, ALL)
    if not s.open(Gen(r, small=r.random() < 0.5, **profile(r)).file()):
        return
    weave([s], r, rounds)
    s.dump()
    s.shown()
    s.events()
    s.save()


# ---------------------------------------------------------------- several projects at once
def donate(s, r, donor):
    """assigns a plugin of another, unedited project"""
    run = s.run
    src = [(k, kd, o) for k, kd, o in donor.walk([FCHPLUGIN, FSLOTPLUGIN])]
    if not src:
        return
    k, kd, o = r.choice(src)
    fam, pf = (FSLOT, FSLOTPLUGIN) if k[0] == FSLOTPLUGIN else (FCHANNEL, FCHPLUGIN)
    walked = run.walk([fam, pf])
    have = {tuple(k2): kd2 for k2, kd2, _ in walked if k2[0] == pf}
    hosts = [(hk, ho) for hk, hkd, ho in walked if hk[0] == fam and (fam == FSLOT or hkd == "Instrument")
             and (kd != "Plugin" or have.get(tuple([pf] + hk[1:]), "Plugin") == "Plugin")]
    if not hosts:
        return
    hk, ho = r.choice(hosts)
    data = {}
    for e in o.events:
        b = bytes(e)[1:]
        while b[0] >= 128:
            b = b[1:]
        data.setdefault(str(int(e.id)), list(b[1:]))
    op = run.plug_op(hk, ho, k, o)
    op["x"] = [kd, [data[i]] if (i := "212") in data else [], [data[i]] if (i := "213") in data else []]
    s.ops.append(op)
    s.dump()
    s.fresh()


def sc_pair(run, r, ops, t, n=14):
    """what is done to one project is no business of another one: each of the interleaved histories is one of its own"""
    import impl
    first = Gen(r, small=r.random() < 0.4, **profile(r)).file()
    second = first if r.random() < 0.5 else Gen(r, small=r.random() < 0.4, **profile(r)).file()
    donor = impl.Run(run.table, run.path + ".donor")
    d = first if r.random() < 0.3 else second if r.random() < 0.5 else Gen(r, **profile(r)).file()
    a = Session(run, r, ops, ALL)
    b = Session(impl.Run(run.table, run.path + ".b"), r, [], ALL)
    try:
        if not a.open(first) or not b.open(second):
            return
        if donor.open(d):
            donor = None
        a.dump()
        b.dump()
        for _ in range(n):
            s = r.choice([a, b])
            if not s.views:
                s.fresh()
            k = r.random()
            if k < 0.55:
                ch = s.random_set(gen=r.randrange(len(s.views)) if s.views else None)
                if ch and r.random() < 0.5:
                    s.get(*ch)
            elif k < 0.62:
                s.dump(r.sample(ALL, 6))
            elif k < 0.66:
                # what is at hand of one, after the other one was looked at
                held = [x for v in s.views for x in v if x[1] in run.table and run.table[x[1]]]
                refer = [x for x in held if x[1] in ("Layer", "ChannelItem", "PatternItem", "Patterns")]
                (b if s is a else a).run.walk(ALL)
                for key, kind, obj in r.sample(held, min(len(held), 3)) + r.sample(refer, min(len(refer), 4)):
                    ix = [i for i, row in enumerate(run.table[kind]) if (not s.repointed or row["a"] not in ("channel", "pattern"))]
                    mine = [i for i in ix if run.table[kind][i]["a"] in ("children", "channel", "pattern", "current")]
                    for ai in mine + r.sample(ix, min(len(ix), 2)):
                        s.get(key, kind, obj, ai)
            elif k < 0.69:
                s.events()
            elif k < 0.72:
                weave([a, b], r, 1)
            elif k < 0.82 and donor:
                donate(s, r, donor)
            elif k < 0.9:
                s.save()
            elif k < 0.95:
                s.fresh()
            elif s.save():
                s.reopen()
        for s in r.sample([a, b], 2):
            s.dump()
            s.events()
            s.save()
        if donor:
            b.ops.append(donor.open_op(d))
            b.ops.append(donor.dump_op())
    finally:
        ops += b.ops


# ---------------------------------------------------------------- equality of models
def verdict(f):
    """1: true, 0: false, -1: a type error, 9: anything else"""
    try:
        x = f()
        return int(x) if isinstance(x, bool) else 9
    except TypeError:
        return -1
    except Timeout:
        raise
    except Exception:
        return 9


LISTED = (FNOTE, FCONTROLLER, FITEM, FPOINT)      # items of lists: not compared


def compare(s, r, a, b, differ):
    """how two models (key, kind, object) compare; differ: numbers of events with different values"""
    x, y = a[2], b[2]
    s.ops.append({"o": "equal", "k": a[0], "j": b[0], "d": differ,
                  "r": [verdict(lambda: x == y), verdict(lambda: y == x), verdict(lambda: x != y)]})


def sc_equal(run, r, ops, t, nsets=5, n=24):
    import impl
    g = Gen(r, small=r.random() < 0.4, **profile(r))
    s = Session(run, r, ops, ALL)
    data = g.file()
    if not s.open(data):
        return
    fams = [f for f in ALL if f not in LISTED]
    twin = impl.Run(run.table, run.path + ".twin")
    twin.open_op(data)
    s.fresh()
    for turn in range(3):
        held = [x for v in s.views for x in v if x[0][0] in fams]
        now = run.walk(fams)
        other = twin.walk(fams)
        differ = [i + 1 for i, (a, b) in enumerate(zip(run.project.events, twin.project.events)) if a != b]
        by = {tuple(x[0]): x for x in now}
        for _ in range(n):
            a = r.choice(held + now)
            how = r.randrange(5)
            alike = [x for x in now if x[1] == a[1]]
            if how == 0 and tuple(a[0]) in by:
                compare(s, r, a, by[tuple(a[0])], [])                 # the same thing
            elif how == 1:
                compare(s, r, a, r.choice(alike), [])                 # one of its kind
            elif how == 2:
                compare(s, r, a, r.choice(now), [])                   # anything
            elif how == 3:
                b = [x for x in other if x[0] == a[0] and x[1] == a[1]]
                if b:
                    compare(s, r, a, b[0], differ)                    # the same thing of the file as it was
            else:
                x, y = a[2], r.choice([None, 3, "Kick", (), object(), a[2].events])
                ops.append({"o": "same", "n": "models only compare with models", "x": -1, "y": verdict(lambda: x == y)})
        for _ in range(nsets if turn < 2 else 0):
            s.random_set(gen=r.randrange(len(s.views)))
        if r.random() < 0.4:
            s.fresh()
    s.save()


# ---------------------------------------------------------------- failures leave everything alone
def sc_atomic(run, r, ops, t, nsets=8, **kw):
    import os
    g = Gen(r, **profile(r, **kw))
    s = Session(run, r, ops, ALL)
    if not s.open(g.file()):
        return
    s.fresh()
    for i in range(nsets):
        k = r.random()
        s.random_set(bad=0.45, readonly=0.3, gen=r.randrange(len(s.views)) if s.views else None)
        if r.random() < 0.2:
            ch = s.choose()
            if ch and run.table[ch[1]][ch[3]]["a"] not in ("channel", "pattern"):
                unsuitable(s, ch[0], ch[1], ch[2], ch[3], run.table[ch[1]][ch[3]], [r.randrange(len(UNSUITABLE))])
        if k < 0.25:
            s.save()
        elif k < 0.45:
            s.dump()
        elif k < 0.52:
            # where nothing can be written nothing appears, and the project is as it was
            lost = os.path.join(run.path + ".nowhere", "x.flp") if r.random() < 0.5 else os.path.dirname(run.path)
            op = run.save_op(lost)
            ops.append({"o": "same", "n": "a save to nowhere raises", "x": [True, False],
                        "y": [op["r"] != 0, os.path.exists(run.path + ".nowhere")]})
    s.dump()
    other = run.path + ".other"
    if s.save():
        if r.random() < 0.4 and s.reopen():
            s.dump()
        return
    # the project cannot be saved: a destination which does not exist stays so
    if os.path.exists(other):
        os.remove(other)
    op = run.save_op(other)
    ops.append({"o": "same", "n": "failed save creates no file", "x": [True, False],
                "y": [op["r"] != 0, os.path.exists(other)]})
    if os.path.exists(other):
        os.remove(other)
    # after storable values were assigned the project can be saved again
    for key, kind, obj, ai in list(bad_ones(s)):
        row = run.table[kind][ai]
        v = pick_value(r, run, kind, row, obj, s.uni, s.alt_of(kind, obj, row))
        s.set(key, kind, obj, ai, v)
    s.save()
    s.dump()


def bad_ones(s):
    """attributes which were assigned a value in this run, through current views"""
    seen = set()
    cur = {tuple(k): (kd, o) for k, kd, o in s.run.walk(s.fam)}
    for op in s.ops:
        if op["o"] == "set" and op["r"] == 0:
            key = (tuple(op["k"]), op["a"])
            if key not in seen and key[0] in cur:
                seen.add(key)
                kd, o = cur[key[0]]
                if s.run.table[kd][op["a"] - 1]["w"] and not s.run.table[kd][op["a"] - 1]["sp"]:
                    yield list(op["k"]), kd, o, op["a"] - 1


# ---------------------------------------------------------------- every attribute of every kind
EDGES = {"u8": [0, 1, 127, 128, 255], "i8": [0, -1, 127, -128], "u16": [0, 1, 255, 256, 32767, 32768, 65535],
         "i16": [0, -1, 256, 32767, -32768], "u32": [0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1],
         "i32": [0, -1, 1, 255, 65535, 65536, -65536, 2**31 - 1, -2**31]}
LONG = [[], [97], list(range(32, 127)), [120] * 62, [120] * 63, [120] * 64, [120] * 126, [120] * 127, [120] * 128,
        [32, 97, 32], [9, 10, 13], [32], [32, 32, 32], [97, 0, 98], [48]]


def edge_values(r, run, kind, row, obj, uni, alt, more=3):
    c = row["c"][alt] if row["c"] else ""
    out = []
    if not row["sp"]:
        if c in EDGES:
            out = [iv(n) for n in EDGES[c]]
        elif c in ("bool8", "bool32", "bit8", "bit16", "bit32", "nbit32"):
            return [iv(1), iv(0), iv(0), iv(1)]
        elif c in ("text", "utf8"):
            out = [[5] + s for s in LONG]
            if uni or c == "utf8":
                out += [tagt("\u00e9"), tagt("\uffff"), tagt("\U0001f600x"), tagt("\u00ff\u0100"), tagt("\ufeffa"), tagt("\u00a0")]
        elif c == "color":
            out = [[8, 0, 0, 0, 0], [8, 255, 255, 255, 255], [8, 1, 2, 3, 4], [8, 254, 127, 128, 19]]
        elif c == "notekey":
            out = [iv(n) for n in (0, 11, 12, 59, 60, 131)] + [tagt("C0"), tagt("B10"), tagt("A#5")]
        elif c == "enum":
            names = {1: "AB", 2: ["pre", "post"], 3: ["none", "left", "right"], 4: "ABCD"}[row["x"][0]]
            out = [tagt(n) for n in names]
        elif c == "height":
            out = [tagt("%d%%" % n) for n in (0, 1, 29, 57, 58, 100, 113, 400)]
        elif c == "bytes":
            out = [[6], [6, 0], [6] + [7] * 127, [6] + list(range(128)), [6] + [255] * 300]
        elif c == "mtime":
            out = [tup([iv(a), iv(b), iv(d)]) for a, b, d in ((0, 0, 0), (0, 0, 5), (0, 1, 0), (1, 0, 0), (8999, 15, 235))]
    else:
        a = row["a"]
        if a == "tempo":
            out = [[15] + iv(n * 1000)[1:] + [0] for n in (10, 522, 523, 999, 1000, 9, 65, 66)]
            out += [[15] + iv(n)[1:] + [1] for n in (10000, 9999, 10001, 522000, 522001, 999000, 999001, 140001, 65536, 131072)]
        elif a == "ppq":
            out = [iv(n) for n in PPQS] + [iv(n) for n in (0, 25, 95, 1, 961, 65535)]
        elif a == "format":
            out = [iv(n) for n in FORMATS]
        elif a == "channel_count":
            out = [iv(n) for n in (0, 1, 255, 256, 65535, -1)]
    return out + [pick_value(r, run, kind, row, obj, uni, alt) for _ in range(more)]


def rows_of(run, kinds, absent=False):
    out = []
    for kind in kinds or sorted(run.table):
        for ai, row in enumerate(run.table[kind]):
            if (kind, row["a"]) in STRUCTURAL or row["a"] in ("len", "children"):
                continue
            if (row["w"] and not row["sp"]) or not absent:
                out.append((kind, ai))
    return out


PART_OF = {FPROJECT: "project", FRACK: "channels", FCHANNEL: "channels", FGROUP: "channels", FPOINT: "channels",
           FCHPLUGIN: "channels", FPATTERNS: "patterns", FPATTERN: "patterns", FNOTE: "patterns",
           FCONTROLLER: "patterns", FPATMARKER: "patterns", FARRANGEMENTS: "arrangements",
           FARRANGEMENT: "arrangements", FTRACK: "arrangements", FITEM: "arrangements", FARRMARKER: "arrangements",
           FMIXER: "mixer", FINSERT: "mixer", FSLOT: "mixer", FSLOTPLUGIN: "mixer", FREMOTE: "remote"}
FAMILY = {"project": [FPROJECT], "channels": [FRACK, FCHANNEL, FGROUP, FPOINT, FCHPLUGIN],
          "patterns": [FPATTERNS, FPATTERN, FNOTE, FCONTROLLER, FPATMARKER],
          "arrangements": [FARRANGEMENTS, FARRANGEMENT, FTRACK, FITEM, FARRMARKER],
          "mixer": [FMIXER, FINSERT, FSLOT, FSLOTPLUGIN], "remote": [FREMOTE]}
KIND_PARTS = {"Project": ["project"], "Patterns": ["project", "patterns"], "Pattern": ["patterns"], "Note": ["patterns"],
              "Controller": ["patterns"], "Arrangements": ["project", "arrangements"], "Arrangement": ["arrangements"],
              "Track": ["arrangements"], "ChannelItem": ["channels", "patterns", "arrangements"],
              "PatternItem": ["channels", "patterns", "arrangements"], "Marker": ["patterns", "arrangements"],
              "Mixer": ["mixer"], "Insert": ["mixer"], "Slot": ["mixer"], "Remote": ["remote"],
              "Rack": ["project", "channels"], "Group": ["channels"], "Channel": ["channels"], "Sampler": ["channels"],
              "Instrument": ["channels"], "Layer": ["channels"], "Automation": ["channels"], "Point": ["channels"],
              "BooBass": ["channels"], "FruitKick": ["channels"], "Plucked": ["channels"]}
KIND_CH = {"Channel": ["odd"], "Sampler": ["sampler", "audio"], "Instrument": ["instrument", "native"],
           "Layer": ["layer", "sampler"], "Automation": ["automation"], "Point": ["automation"],
           "BooBass": ["instrument"], "FruitKick": ["native"], "Plucked": ["instrument"]}


NATIVE_KINDS = {"BooBass", "FruitKick", "Plucked", "FruityBalance", "FruityBloodOverdrive", "FruityCenter",
                "FruityFastDist", "FruityNotebook2", "FruitySend", "FruitySoftClipper", "FruityStereoEnhancer",
                "Soundgoodizer", "Plugin", "VSTPlugin"}
KIND_ENUMS = {"Sampler": ["ChannelType"], "Project": ["PanLaw"]}


def siblings(run, kind, ai):
    """attributes which are stored in the same event"""
    row = run.table[kind][ai]
    return [i for i, o in enumerate(run.table[kind])
            if i != ai and o["w"] and not o["sp"] and set(o["id"]) & set(row["id"])
            and (kind, o["a"]) not in STRUCTURAL]


BOOLS = ("bool8", "bool32", "bit8", "bit16", "bit32", "nbit32")


def unsuitable(s, key, kind, obj, ai, row, which):
    """values which no attribute can store: refused now or by the next save, without traces"""
    r, run = s.r, s.run
    c = row["c"][0] if row["c"] else ""
    if c in BOOLS or c == "path" or row["a"] == "editable" or not row["w"]:
        return
    for n in which:
        if n in (3, 4) and row["a"] in ("pages", "licensee"):
            continue                   # an empty one is as good as any
        if n > 2 and c == "color":
            continue                   # a sequence of small numbers
        rc = s.set(key, kind, obj, ai, [18, n])
        if rc == 0:
            if r.random() < 0.5:
                s.save()
            s.set(key, kind, obj, ai, pick_value(r, run, kind, row, obj, s.uni, s.alt_of(kind, obj, row)))
        s.get(key, kind, obj, ai)
        for bi in siblings(run, kind, ai)[:6]:
            s.get(key, kind, obj, bi)
    s.save()


def sc_sweep(run, r, ops, t, kinds=None, absent=False, tail=True, more=3, bad=False):
    """attribute number t of the specification: every edge value, through two views"""
    rows = rows_of(run, kinds, absent)
    if bad:
        rows = [(k, i) for k, i in rows if run.table[k][i]["w"]
                and not (run.table[k][i]["c"] and run.table[k][i]["c"][0] in BOOLS)]
    kind, ai = rows[t % len(rows)]
    row = run.table[kind][ai]
    parts = KIND_PARTS.get(kind)
    if parts is None:           # plugins which live in slots, and in channels
        parts = ["mixer"] if kind not in ("Plugin", "VSTPlugin") else [r.choice(["mixer", "channels"])]
    s = Session(run, r, ops, sorted({f for p in parts for f in FAMILY[p]}))
    found = None
    for attempt in range(60):
        g = Gen(r, parts=set(parts), kinds=KIND_CH.get(kind), sparse=r.choice([0.5, 0.8]) if absent else 0.02,
                trunc=0.5 if absent else 0.0, small=attempt < 20,
                old=0.5 if row["a"] == "tempo" else 0.3)
        data = g.file()
        if run.open(data) != 0:
            ops.append({"o": "open", "b": list(data), "e": -1})
            return
        try:
            c = [(k, kd, o) for k, kd, o in run.walk(s.fam) if kd == kind]
        except Timeout:
            raise
        except Exception:
            s.open(data)
            s.dump()
            return
        c = [x for x in c if (run.get(x[0], kind, x[2], ai)[0] in (0, 9)) == absent]
        if c:
            found = c
            break
    if not found:
        return
    s.open(data)
    s.dump()
    for name in [row["en"]] * bool(row["en"]) + KIND_ENUMS.get(kind, []):
        s.ops.append(run.enum_op(name))
    s.fresh()
    s.fresh()
    keys = [x[0] for x in found]
    key = r.choice(keys)

    def at(gen):
        return next(o for k, kd, o in s.views[gen] if k == key and kd == kind)
    a, b = at(0), at(1)
    if row["a"] in ("channel", "pattern"):
        for _ in range(4):
            s.assign((key, kind, a, ai))
            s.dump()
    else:
        alt = s.alt_of(kind, a, row)
        s.get(key, kind, a, ai)
        vals = edge_values(r, run, kind, row, a, s.uni, alt, more) if row["w"] else [iv(1)]
        if bad:
            unsuitable(s, key, kind, a, ai, row, range(len(UNSUITABLE)))
            vals = vals[:1]
        near = siblings(run, kind, ai)
        for i, v in enumerate(vals):
            if near and r.random() < 0.4 and not absent:
                # a neighbour in the same event holds one of its edge values meanwhile
                bi = r.choice(near)
                nrow = run.table[kind][bi]
                nv = r.choice(edge_values(r, run, kind, nrow, a, s.uni, s.alt_of(kind, a, nrow), 2))
                s.set(key, kind, a, bi, nv)
                s.set(key, kind, (a, b)[i % 2], ai, v)
                s.get(key, kind, b, bi)
            s.set(key, kind, (a, b)[i % 2], ai, v)
            s.get(key, kind, a, ai)
            s.get(key, kind, b, ai)
            if absent and i > 2:
                break
            if i % 4 == 3 and tail:
                s.save()
                if r.random() < 0.3 and s.reopen():
                    s.fresh()
                    s.fresh()
                    a, b = at(0), at(1)
                    s.get(key, kind, b, ai)
    s.dump()
    if tail and s.save() and s.reopen():
        s.dump()


_FILES = {}


def sc_play(run, r, ops, t, behaviour=None, files=None, full=False):
    """a history of MCSession: assignments through objects taken at the beginning"""
    if files not in _FILES:
        with open(files) as fp:
            _FILES[files] = [bytes(json.loads(line)["b"]) for line in fp]
    s = Session(run, r, ops, ALL if full else sorted({op["k"][0] for op in behaviour["ops"]}))
    if not s.open(_FILES[files][behaviour["f"] - 1]) or not s.fresh():
        return
    for op in behaviour["ops"]:
        if op["o"] == "save":
            s.save()
        elif op["o"] == "reopen":
            if not s.reopen() or not s.fresh():
                return
        elif op["o"] == "remove":
            held = [x for x in run.walk([op["k"][0]]) if x[0] == op["k"]]
            if not held:
                s.dump([op["k"][0]])
                return
            take(s, held[0], op["i"], op["n"], r)
            if not s.fresh():
                return
            s.views = s.views[-1:]
        else:
            key, ai = op["k"], op["a"] - 1
            held = [x for x in s.views[0] if x[0] == key]
            if not held:
                s.dump([key[0]])
                return
            _, kind, obj = held[0]
            if run.table[kind][ai]["a"] in ("channel", "pattern"):
                held = [x for x in run.walk([key[0]]) if x[0] == key]
                obj = held[0][2]
            s.set(key, kind, obj, ai, op["v"])
            s.get(key, kind, obj, ai)
    if full:
        s.dump()
        if s.save() and s.reopen():
            s.dump()
    else:
        s.dump([behaviour["ops"][-1]["k"][0]])
        s.save()
