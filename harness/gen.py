"""Random project files, written byte by byte without any help of the library.

`Gen(rng, **profile)` builds a list of (event id, payload) and `file_bytes`
wraps it into a container. Nothing in here imports the code under test.
"""
import struct

PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)
VST = "Fruity Wrapper"
CHANNEL_PLUGINS = [VST, "BooBass", "Fruit Kick", "Plucked!"]
SLOT_PLUGINS = [VST, "Fruity Balance", "Fruity Blood Overdrive", "Fruity Center",
                "Fruity Fast Dist", "Fruity NoteBook 2", "Fruity Send",
                "Fruity Soft Clipper", "Fruity Stereo Enhancer", "Soundgoodizer"]
# fields of structures which newer versions append to: an older file ends after
# any of them.  "h" height, "l" log-normal, "2" log2, "f" float, "b" bool, else size
STRUCTS = {
    209: [4, 4, 4, 4, 4],
    218: [4] * 17,
    229: [4] * 5,
    219: [4] * 6,
    221: [4, 4, 1],
    228: [4] * 4,
    217: [4, 4],
    236: [4, 4, 4],
    227: [2, 1, 1, 2, 2, 8, 4],
    212: [16, 4, 1, 23, 4, 4],
    238: [4, 4, 4, "b", "h", 4, "b", 4, 4, 4, "B", "B", 4, "b", "b"],
    215: [9, "b", 1, "b", 28, 4, 4, 4, "f", "f", "b", 1, "b", "b", 2, 2, 8, 4, "b", "b", 1, 1,
          4, 4, 4, 4, 4, "2", 4, 21, "l", 4, "l", 3, 4, 5, "b"],
}


def varint(n):
    out = bytearray()
    while n >= 128:
        out.append(128 + n % 128)
        n //= 128
    out.append(n)
    return bytes(out)


def event_bytes(id_, data):
    if id_ < 192:
        return bytes([id_]) + data
    return bytes([id_]) + varint(len(data)) + data


def file_bytes(events, fmt=0, count=0, ppq=96):
    data = b"".join(event_bytes(i, d) for i, d in events)
    return (struct.pack("<4sIhHH", b"FLhd", 6, fmt, count, ppq)
            + b"FLdt" + struct.pack("<I", len(data)) + data)


NAMES = ["Kick", "Bass", "", "Lead 1", "Pad", "A", "x y", "Kick"]
WIDE = ["\u00e9t\u00e9", "\u97f3\u697d", "\U0001f3b9 keys", "\u041f\u0430\u043d"]
# text which some cleaning step could take for empty, padded or terminated
ODD = [" ", "   ", " a", "a ", "\t", "\n", "a\nb", "a\r\n", "0", "a\0b", "\0a", "-1", "None", "%s", "\\", "'\"", "a/b", "\x7f", "\x01"]
ODDWIDE = ["\ufeffa", "\u00a0", "\u3000x", "\ufffd", "a\u0301", "\u2028", "\ud7ff", "\U0010ffff", "\u0100", "\u6100"]


class Gen:
    """profile keys (all optional)
    messy     non canonical booleans and terminators (for runs without edits)
    sparse    probability that an optional event is left out
    trunc     probability that a structure is cut after some field
    extra     probability that bytes follow the known fields
    old       allow versions before 11.5 (ASCII text)
    small     few of everything
    parts     subset of {"project", "channels", "patterns", "arrangements", "mixer", "remote"}
    """

    def __init__(self, rng, messy=False, sparse=0.25, trunc=0.15, extra=0.2, old=0.3,
                 small=True, big=0.04, parts=None, kinds=None, version=None, many=None, wild=0.0):
        self.r = rng
        self.wild = wild                   # references to what does not exist
        self.many = many or {}             # how many of what, instead of a few
        self.messy, self.sparse, self.trunc, self.extra = messy, sparse, trunc, extra
        self.small, self.big = small, big
        self.dup, self.strange = rng.choice([(0, 0), (0, 0), (0.05, 0), (0.03, 0.03)])
        self.parts = parts or {"project", "channels", "patterns", "arrangements", "mixer", "remote"}
        self.kinds = kinds
        if version:
            self.version = version
        elif rng.random() < old:
            self.version = rng.choice(["1.3.9", "3.3.2", "3.4.0", "4.1.0", "9.0.3", "10.9.1.5",
                                       "11.0.0", "11.1.1", "11.4.9.10"])
        else:
            self.version = rng.choice(["11.5.0", "11.5.14.1", "12.9.0", "12.9.1", "12.9.1.3", "12.10.0",
                                       "20.0.1.455", "20.8.4.2576", "20.9", "21.0.3.3517", "100.2.1"])
        if not version and old and rng.random() < 0.25:            # at and around every limit, or any
            lim = rng.choice([(1, 3, 9), (1, 4, 2), (1, 6, 5), (2, 0, 1), (3, 0, 0), (3, 3, 0), (3, 4, 0), (4, 0, 0), (9, 0, 0),
                              (11, 0, 0), (11, 5, 0), (12, 9, 0), (12, 9, 1), (rng.randrange(1, 26), rng.randrange(13), rng.randrange(13))])
            a, b, c = lim
            k = rng.random()
            if k < 0.35:
                a, b, c = (a, b, c - 1) if c else (a, b - 1, 9) if b else (a - 1, 9, 9)
            elif k < 0.5:
                c += 1
            v = [a, b, c] + ([rng.choice([0, 1, 99, 3517])] if rng.random() < 0.3 else [])
            self.version = ".".join(str(x) for x in (v[:2] if len(v) == 3 and not c and rng.random() < 0.3 else v))
        self.uni = [int(x) for x in self.version.split(".")[:2]] >= [11, 5]
        self.ev = []

    # -- primitives
    def p(self, x):
        return self.r.random() < x

    def have(self):
        return not self.p(self.sparse)

    def bytes(self, n):
        r = self.r
        k = r.random()
        if k < 0.15:
            return bytes(n)
        if k < 0.3:
            return bytes([r.choice((0, 1, 127, 128, 255))]) * n
        return bytes(r.randrange(256) for _ in range(n))

    def num(self, n):
        r = self.r
        k = r.random()
        if k < 0.3:
            return struct.pack("<Q", r.randrange(0, 300))[:n]
        if k < 0.45:
            return bytes(n - 1) + b"\x80" if k < 0.4 else b"\xff" * n
        return self.bytes(n)

    def flag(self):
        if self.messy and self.p(0.4):
            return bytes([self.r.randrange(256)])
        return bytes([self.r.randrange(2)])

    def f32(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return struct.pack("<f", r.choice((0.0, 1.0, -1.0, 0.5, 100.25)))
        b = bytearray(r.randrange(256) for _ in range(4))
        b[3] = (b[3] & 0x80) | r.randrange(0x30, 0x50)      # finite, normal
        return bytes(b)

    def text_of(self, s):
        if self.uni:
            return s.encode("utf-16-le") + b"\0\0"
        return s.encode("ascii") + b"\0"

    def string(self):
        if self.p(0.04):
            return "n" * self.r.choice([62, 63, 64, 65, 126, 127, 128, 129, 200])
        if self.uni and self.p(0.3):
            return self.r.choice(WIDE if self.p(0.7) else ODDWIDE)
        return self.r.choice(NAMES if self.p(0.85) else ODD)

    def text(self, s=None):
        b = self.text_of(self.string() if s is None else s)
        if self.messy and self.p(0.5):
            w = 2 if self.uni else 1
            b = b[:-w] if self.p(0.5) else b + bytes(w)
        return b

    def struct(self, id_):
        out = bytearray()
        fields = STRUCTS[id_]
        n = len(fields)
        if self.p(self.trunc):
            n = self.r.randrange(0, n + 1)
        for f in fields[:n]:
            if f == "b":
                out += self.flag()
            elif f == "B":
                out += self.flag() + bytes(3)
            elif f == "h":
                out += struct.pack("<f", self.r.randrange(0, 401) / 100)
            elif f == "f":
                out += self.f32()
            elif f == "l":
                out += (bytes(4) if self.p(0.2) else
                        struct.pack("<HH", self.r.randrange(1, 61441), 63))
            elif f == "2":
                out += struct.pack("<i", self.r.randrange(-60000, 60001))
            elif f == 4:
                out += self.num(4)
            else:
                out += self.bytes(f)
        if id_ == 215 and len(out) >= 100:      # musical time: model bound
            out[99] = 0
        if n == len(fields) and self.p(self.extra):
            out += self.bytes(self.r.randrange(1, 12))
        return bytes(out)

    def add(self, id_, data):
        self.ev.append((id_, bytes(data)))

    def opt(self, id_, make):
        if self.have():
            self.add(id_, make())

    def shuffled(self, pairs):
        pairs = list(pairs)
        self.r.shuffle(pairs)
        done = []
        for id_, make in pairs:
            if self.p(self.strange):
                self.unknown(1)
            if self.have():
                self.add(id_, make())
                done.append((id_, make))
        # the same event a second time: the first one counts
        for id_, make in done:
            if id_ < 208 and self.p(self.dup):
                self.add(id_, make())

    def unknown(self, n=None):
        """events no model knows"""
        r = self.r
        for _ in range(r.randrange(0, 3) if n is None else n):
            id_ = r.choice([1, 19, 27, 31, 40, 63, 68, 79, 101, 127, 129, 130, 141, 157, 158, 165,
                            191, 208, 210, 211, 214, 216, 220, 222, 230, 232, 240, 242, 255, 226])
            n = 1 if id_ < 64 else 2 if id_ < 128 else 4 if id_ < 192 else r.choice([0, 1, 5, 127, 128, 130])
            self.add(id_, self.bytes(n))

    # -- parts
    def project(self):
        r = self.r
        self.unknown_ok = True
        if self.p(0.3):
            self.opt(159, lambda: self.num(4))
        pairs = [(28, self.flag), (194, self.text), (206, self.text), (207, self.text),
                 (197, self.text), (202, lambda: self.text(r.choice(["", "C:\\a b", "/tmp/x", "."]))),
                 (9, self.flag), (10, self.flag), (12, lambda: self.bytes(1)), (23, lambda: self.num(1)),
                 (80, lambda: self.num(2)),
                 (200, lambda: self.text("".join(r.choice("abcXYZ0189 !~QR") for _ in range(r.randrange(0, 9))))),
                 (11, lambda: self.bytes(1)), (13, lambda: self.bytes(1)), (133, lambda: self.num(4)),
                 (30, self.flag), (17, lambda: self.num(1)), (18, lambda: self.num(1)),
                 (146, lambda: self.num(4)),
                 (237, lambda: struct.pack("<dd", r.randrange(30000 * 32, 50000 * 32) / 32, r.randrange(0, 400 * 32) / 32))]
        for id_ in (195, 198):
            if self.p(0.6):
                pairs.append((id_, self.text))
        k = r.random()
        if k < 0.6:
            pairs.append((156, lambda: struct.pack("<I", r.choice([10000, 522000, 140000, 139999, 130123, 0, 600001, r.randrange(10000, 522001)]))))
        if k > 0.5:
            self.add(66, struct.pack("<H", r.choice([10, 140, 999, 522, 65535, r.randrange(10, 523)])))
            if self.p(0.6):
                self.add(93, struct.pack("<H", r.choice([0, 1, 500, 999])))
        elif self.p(0.1):
            self.add(93, struct.pack("<H", r.choice([0, 1, 500, 999])))
        k = r.random()
        if k < 0.4:
            pairs.append((217, lambda: self.struct(217)))
        if k > 0.3:
            pairs.append((152, lambda: self.num(4)))
        self.shuffled(pairs)

    def vst(self):
        r = self.r
        out = bytearray(struct.pack("<I", r.choice([8, 10])))
        recs = [1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57]
        r.shuffle(recs)
        for id_ in recs:
            if not self.have():
                continue
            if id_ == 1:
                d = self.num(4) + self.num(4) + self.num(4)
                d = d[:4 * r.randrange(0, 4)] if self.p(self.trunc) else d + self.bytes(r.choice([0, 0, 8]))
            elif id_ == 2:
                d = self.bytes(9) + self.bytes(4) + self.bytes(4) + self.bytes(5) + self.flag()
                d = d[:r.choice([0, 9, 13, 17, 22])] if self.p(self.trunc) else d + self.bytes(r.choice([0, 0, 4]))
            elif id_ in (51, 54, 55, 56):
                s = r.choice(["", "Pro-Q 3", "\u00dcber", "C:\\VST\\x.dll", "abcd"])
                d = s.encode("utf8")
            else:
                d = self.bytes(r.choice([0, 3, 16, 130]))
            out += struct.pack("<IQ", id_, len(d)) + d
        return bytes(out)

    def native(self, name):
        r = self.r
        u = self.num
        b4 = lambda: self.flag() + bytes(3)
        en = lambda n: struct.pack("<I", r.choice(list(range(n)) + [n, 77]))
        hdr = lambda: self.bytes(4) if self.p(0.6) else b""
        if name == "BooBass":
            d = hdr() + u(4) + u(4) + u(4)
        elif name == "Fruit Kick":
            d = b"".join(u(4) for _ in range(8))
        elif name == "Plucked!":
            d = u(4) + u(4) + b4() + b4() + b4()
        elif name == "Fruity Balance":
            d = u(4) + u(4)
        elif name == "Fruity Blood Overdrive":
            d = hdr() + u(4) + u(4) + u(4) + b4() + u(4) + u(4) + u(4) + u(4)
        elif name == "Fruity Center":
            d = hdr() + b4()
        elif name == "Fruity Fast Dist":
            d = u(4) + u(4) + en(2) + u(4) + u(4)
        elif name == "Fruity Send":
            d = u(4) + u(4) + u(4) + u(4)
        elif name == "Fruity Soft Clipper":
            d = u(4) + u(4)
        elif name == "Fruity Stereo Enhancer":
            d = u(4) + u(4) + u(4) + u(4) + en(2) + en(3)
        elif name == "Soundgoodizer":
            d = hdr() + en(4) + u(4)
        elif name == "Fruity NoteBook 2":
            d = bytearray(u(4) + u(4))
            for i in range(r.randrange(0, 4)):
                t = r.choice(["", "note", "\u00e9", "x" * 130])
                d += struct.pack("<i", i if self.p(0.7) else i * 7 + 100) + varint(len(t.encode("utf-16-le")) // 2)
                d += t.encode("utf-16-le")
            d += b"\xff" * 4 + self.flag()
            d = bytes(d)
        return d

    def plugin(self, names, tail):
        """internal name, wrapper, name, icon, colour, data of one plugin; tail: last event"""
        r = self.r
        k = r.random()
        name = None
        if k < 0.72:
            name = r.choice(names)
        elif k < 0.85:
            name = r.choice(["", "Sytrus", "Fruity Limiter", "BooBass2"])
        if name is not None:
            self.add(201, self.text(name))
            self.opt(212, lambda: self.struct(212))
        elif self.p(0.5):
            return
        self.opt(203, self.text)
        self.opt(155, lambda: self.num(4))
        self.opt(128, lambda: self.bytes(4))
        if name is None:
            return
        if name == VST:
            self.add(213, self.vst())
        elif name in names:
            self.add(213, self.native(name))
        elif self.p(0.7):
            self.add(213, self.bytes(r.randrange(0, 20)))

    def channel(self, iid, kind, ngroups, iids):
        r = self.r
        n4, n2, n1 = (lambda: self.num(4)), (lambda: self.num(2)), (lambda: self.num(1))
        self.add(64, struct.pack("<H", iid))
        self.add(21, bytes([{"sampler": 0, "native": 2, "layer": 3, "instrument": 4,
                             "automation": 5, "audio": r.choice([2, 4]), "odd": r.choice([1, 6, 200])}[kind]]))
        if kind in ("native", "instrument"):
            self.plugin(CHANNEL_PLUGINS, None)
        else:
            if kind == "audio":
                self.add(201, self.text(""))
                self.add(196, self.text("x.wav"))
            else:
                self.opt(201, lambda: self.text(r.choice(["", "Sampler"])))
            self.opt(212, lambda: self.struct(212))
            self.opt(203, self.text)
            self.opt(155, n4)
            self.opt(128, lambda: self.bytes(4))
        pairs = [(0, self.flag), (15, self.flag), (32, self.flag), (20, self.flag), (22, n1),
                 (142, n4), (135, n4), (215, lambda: self.struct(215)), (132, n4), (209, lambda: self.struct(209)),
                 (138, n4), (229, lambda: self.struct(229)), (221, lambda: self.struct(221)), (97, n2), (89, n2),
                 (153, n4), (143, n4), (74, n2), (70, n2), (71, n2), (76, n2), (75, n2), (69, n2), (86, n2),
                 (83, n2), (139, n4), (131, n4), (85, n2), (144, n4), (140, self.f32)]
        if kind != "audio":
            pairs.append((196, lambda: self.text(r.choice(["", "%FLStudioFactoryData%/kick.wav", "a b/c.wav", "s.wav"]))))
        pairs.append((192, self.text))
        k = r.random()
        if k < 0.45:
            pairs.append((219, lambda: self.struct(219)))
        elif k < 0.6:
            pairs += [(72, n2), (73, n2)]
        elif k < 0.75:
            pairs += [(2, n1), (3, n1)]
        elif k < 0.95:
            pairs += [(72, n2), (73, n2), (2, n1), (3, n1)]
            if r.random() < 0.5:
                pairs.append((219, lambda: self.struct(219)))
        self.shuffled(pairs)
        if not self.p(self.wild):
            self.add(145, struct.pack("<i", r.randrange(ngroups) if not self.p(self.wild) else r.randrange(-3, 40)))
        for _ in range(r.choice([0, 1, 2, 2, 2, 3])):
            self.add(228, self.struct(228))
        for _ in range(r.choice([0, 0, 1, 3, 5, 5, 6]) if kind in ("sampler", "audio") else 0):
            self.add(218, self.struct(218))
        if kind == "layer":
            for _ in range(r.randrange(0, 4)):
                self.add(94, struct.pack("<H", r.randrange(65536) if self.p(self.wild) else r.choice(iids)))
        if kind == "automation" and self.p(0.85):
            n = r.randrange(0, 4)
            d = self.bytes(4) + self.num(4) + self.bytes(9) + struct.pack("<I", n)
            for _ in range(n):
                d += struct.pack("<dd", r.randrange(0, 400) / 32, r.choice([0.0, 0.5, 1.0, 0.1, r.random()]))
                d += self.f32() + self.bytes(4)
            self.add(234, d + self.bytes(r.choice([0, 0, 5, 112])))

    def pattern(self, iid, iids):
        r = self.r
        self.add(65, struct.pack("<H", iid))
        if self.p(0.7):
            n = r.choice([0, 1, 2, 3]) if self.few < 11 else r.randrange(3, 25)
            n = self.many.get("notes", n)
            d = b""
            for _ in range(n):
                b = bytearray(self.bytes(24))
                b[0:4] = self.num(4)
                b[12:14] = struct.pack("<H", r.randrange(65536) if self.p(0.08) else r.randrange(0, 132))
                d += bytes(b)
            self.add(224, d)
        if self.p(0.5):
            n = self.many.get("controllers", r.randrange(0, 3))
            self.add(223, b"".join(self.bytes(8) + self.f32() for _ in range(n)))

    def pattern_meta(self, iid):
        self.add(65, struct.pack("<H", iid))
        self.shuffled([(193, self.text), (150, lambda: self.bytes(4)), (26, self.flag),
                       (164, lambda: self.num(4)), (160, lambda: self.num(4)), (161, lambda: self.num(4)),
                       (162, lambda: self.num(4))])
        if self.p(0.4):
            self.markers()

    def markers(self):
        for _ in range(self.r.randrange(1, 3)):
            pos = self.r.choice([self.r.randrange(0, 5000), 134217728 + self.r.randrange(0, 5000), 134217728, 134217727])
            self.add(148, struct.pack("<I", pos))
            full = self.p(0.8)
            if full:
                self.add(33, self.num(1))
                self.add(34, self.num(1))
            if full or self.p(0.5):
                self.add(205, self.text())

    def playlist(self, ntracks, new):
        r = self.r
        last = 499 if self.ver() >= [12, 9, 1] else 198
        d = b""
        n = r.randrange(0, 5 if self.few < 11 else 20)
        n = self.many.get("items", n)
        if not new and n and n % 15 == 0:
            n += 1
        refs = []
        if self.ch_iids:
            refs += [("c", i) for i in self.ch_iids]
        if self.pat_iids:
            refs += [("p", i) for i in self.pat_iids]
        if not refs:
            n = 0
        for _ in range(n):
            base = 20480
            kind, iid = r.choice(refs)
            idx = iid if kind == "c" else base + iid
            trk = last - r.randrange(0, ntracks + 1)
            if self.p(self.wild):
                idx, trk = r.randrange(65536), r.choice([trk, r.randrange(65536)])
            d += self.num(4) + struct.pack("<HH", base, idx) + self.num(4) + struct.pack("<HH", trk, r.randrange(0, 9))
            d += self.bytes(8) + self.f32() + self.f32()
            if new:
                d += self.bytes(28)
        return d

    def ver(self):
        return [int(x) for x in self.version.split(".")] + [0, 0]

    def arrangement(self, i, ntracks):
        self.add(99, struct.pack("<H", i))
        self.opt(241, self.text)
        if self.p(0.8):
            self.add(233, self.playlist(ntracks, self.p(0.5)))
        if self.p(0.4):
            self.markers()
        for t in range(ntracks):
            self.add(238, self.struct(238))
            self.opt(239, self.text)

    def insert(self, nslots):
        self.shuffled([(149, lambda: self.bytes(4)), (95, lambda: self.num(2)), (204, self.text)])
        self.add(236, self.struct(236))
        for s in range(nslots):
            if self.p(0.6):
                self.plugin(SLOT_PLUGINS, None)
            self.add(98, struct.pack("<H", s if self.p(0.8) else self.r.randrange(65536)))
        self.nroutes.append(self.r.randrange(0, 4) if self.have() else None)
        if self.nroutes[-1] is not None:
            self.add(235, b"".join(self.flag() for _ in range(self.nroutes[-1])))
        self.opt(154, lambda: self.num(4))
        self.add(147, self.num(4))

    def params(self, nins, nslots):
        r = self.r
        d = b""

        def rec(id_, ins, slot):
            return (self.bytes(4) + bytes([id_, r.randrange(256)])
                    + struct.pack("<H", ins << 6 | slot | (r.randrange(8) << 13)) + self.num(4))
        order = list(range(nins))
        r.shuffle(order)
        for i in order:
            for s in range(nslots[i]):
                for id_ in (0, 1):
                    if self.have():
                        d += rec(id_, i, s)
            for k in range(self.nroutes[i] or 0):
                if not self.p(self.wild):
                    d += rec(64 + k, i, 0)
            if self.p(self.wild):
                d += rec(r.randrange(256), r.randrange(128), r.randrange(16))
            ids = [192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226]
            r.shuffle(ids)
            for id_ in ids:
                if self.have():
                    d += rec(id_, i, 0)
        return d

    def events(self):
        r = self.r
        self.ev = []
        self.nroutes = []
        few = 2 if self.small else 5
        if self.p(self.big):
            few = 11
        self.few = few
        if self.p(0.3):
            self.unknown_pre()
        self.add(199, self.version.encode() + (b"" if self.messy and self.p(0.5) else b"\0"))
        if "project" in self.parts:
            self.project()
        self.unknown()
        kinds = ["sampler", "instrument", "layer", "automation", "native", "audio", "odd"]
        self.ch_iids, self.pat_iids = [], []
        ngroups = r.randrange(1, 4)
        if "channels" in self.parts:
            for _ in range(ngroups):
                self.add(231, self.text())
            n = r.choice([0] + list(range(1, few + 2)) * 3)
            if self.kinds:
                n = max(n, 1)
            n = self.many.get("channels", n)
            self.ch_iids = r.sample(range(0, n + 12) if self.p(0.7) else range(0, 20480), n)
            if n > 1 and self.p(0.08):             # nothing keeps two channels from having one number
                self.ch_iids[r.randrange(n)] = r.choice(self.ch_iids)
        sections = []
        for i in self.ch_iids:
            sections.append(("ch", i))
        if "patterns" in self.parts:
            n = self.many.get("patterns", r.choice([0] + list(range(1, few + 1)) * 3))
            self.pat_iids = r.sample(range(1, n + 11) if self.p(0.8) else range(1, 40000), n)
            if self.p(0.7):
                # notes first, the rest in a second section
                for i in self.pat_iids:
                    sections.insert(r.randrange(len(sections) + 1), ("pn", i))
                meta = [("pm", i) for i in self.pat_iids if self.p(0.8)]
                r.shuffle(meta)
                sections += meta
            else:
                for i in self.pat_iids:
                    at = r.randrange(len(sections) + 1)
                    sections[at:at] = [("pn", i), ("pm", i)]
            if self.pat_iids and self.p(0.8):
                self.add(67, struct.pack("<H", r.choice(self.pat_iids + [9999])))
        # a pattern event belongs to the pattern section before it
        for what, i in sections:
            if what == "ch":
                self.channel(i, r.choice(self.kinds or kinds), ngroups, self.ch_iids)
            elif what == "pn":
                self.pattern(i, self.ch_iids)
            else:
                self.pattern_meta(i)
        if "arrangements" in self.parts:
            n = self.many.get("arrangements", r.choice([0, 1, 1, 2]))
            for i in range(n):
                self.arrangement(i, self.many.get("tracks", r.randrange(0, 4 if self.few < 11 else 14)))
            if n and self.p(0.85):
                self.add(100, struct.pack("<H", r.choice(list(range(n)) * 4 + [n])))
        if self.p(0.5):
            self.unknown()
        if "mixer" in self.parts:
            self.opt(29, lambda: self.num(1))
            n = r.choice([0] + list(range(1, (few if self.uni else min(few, 4)) + 1)) * 2)
            n = self.many.get("inserts", n)
            nslots = [self.many["slots"] if "slots" in self.many else r.choice([0, 1, 2, 3] if few < 11 or not self.uni else [3, 10]) for _ in range(n)]
            for i in range(n):
                self.insert(nslots[i])
            if self.p(0.85):
                self.add(225, self.params(n, nslots))
        if "remote" in self.parts:
            for _ in range(r.randrange(0, 3)):
                self.add(227, self.struct(227))
        if self.p(0.5):
            self.unknown()
        return self.ev

    def unknown_pre(self):
        r = self.r
        id_ = r.choice([1, 19, 27, 130, 208, 255])
        n = 1 if id_ < 64 else 4 if id_ < 192 else 3
        self.add(id_, self.bytes(n))

    def file(self):
        ev = self.events()
        return file_bytes(ev, self.r.choice(FORMATS) if self.p(0.3) else 0,
                          self.r.choice([0, 1, len(self.ch_iids), 65535]), self.r.choice(PPQS))
