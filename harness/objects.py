"""Event and version objects made by hand (spec/Events.tla)."""
import struct

from impl import code, cps, iv, plain, tagf, tagt, tup
from pyflp import _events as E
from pyflp.types import RGBA, FLVersion

CLASSES = {"Bool": E.BoolEvent, "I8": E.I8Event, "U8": E.U8Event, "I16": E.I16Event, "U16": E.U16Event,
           "F32": E.F32Event, "I32": E.I32Event, "U32": E.U32Event, "Pair": E.U16TupleEvent, "Color": E.ColorEvent,
           "Ascii": E.AsciiEvent, "Unicode": E.UnicodeEvent, "Unknown": E.UnknownDataEvent}
NAMES = list(CLASSES)


def tag(c, v):
    if c == "Bool":
        return iv(int(v)) if isinstance(v, bool) else [99]
    if c in ("I8", "U8", "I16", "U16", "I32", "U32"):
        return iv(v)
    if c == "F32":
        return [3] + list(struct.pack("<f", v))
    if c == "Pair":
        return tup([iv(x) for x in v])
    if c == "Color":
        return [8] + [int(round(x * 255)) if abs(x * 255 - round(x * 255)) < 1e-9 else -1 for x in v]
    if c in ("Ascii", "Unicode"):
        return tagt(v)
    return [6] + list(v)


def make(ops, c, i, d):
    op = {"o": "make", "c": c, "i": i, "d": list(d), "e": 0, "v": [0], "s": 0, "b": []}
    ev = None
    try:
        ev = CLASSES[c](E.EventEnum(i), bytes(d))
        op["v"], op["s"], op["b"] = tag(c, ev.value), ev.size, list(bytes(ev))
    except Exception as exc:
        op["e"] = code(exc)
    ops.append(op)
    return ev


def data(r, c, n):
    if c == "Ascii":
        s = bytes(r.randrange(32, 127) for _ in range(n))
        return s[:-1] + b"\0" if n and r.random() < 0.7 else s
    if c == "Unicode":
        s = "".join(r.choice(["a", "Z", "\u00fc", "\u65e5", "\U0001f600"]) for _ in range(n // 2)).encode("utf-16-le")
        return s + b"\0\0" if r.random() < 0.7 else s
    if c == "F32" and n == 4:
        return struct.pack("<f", r.choice([0.0, 1.0, -1.5, 3.4e38, r.uniform(-1e6, 1e6)]))
    return bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n))


def value(r, c):
    """a value of the class, sometimes one it cannot store"""
    rng = {"I8": 8, "U8": 8, "I16": 16, "U16": 16, "I32": 32, "U32": 32}
    if c in rng:
        w = 2 ** rng[c]
        lo, hi = (-w // 2, w // 2 - 1) if c[0] == "I" else (0, w - 1)
        v = r.choice([lo, hi, 0, 1, lo - 1, hi + 1, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), w // 2, w // 2 - 1])
        return v, iv(v)
    if c == "Bool":
        v = r.random() < 0.5
        return v, iv(int(v))
    if c == "F32":
        v = struct.unpack("<f", data(r, c, 4))[0]
        return v, [3] + list(struct.pack("<f", v))
    if c == "Pair":
        v = (r.choice([0, 65535, r.randrange(65536)]), r.choice([0, 65535, r.randrange(65536)]))
        return v, tup([iv(x) for x in v])
    if c == "Color":
        b = bytes(r.randrange(256) for _ in range(4))
        return RGBA.from_bytes(b), [8] + list(b)
    if c == "Ascii":
        s = "".join(chr(r.randrange(32, 127)) for _ in range(r.choice([0, 1, 5, 126, 127, 128, 300])))
        if r.random() < 0.15:
            s += "\u00fc"
        return s, tagt(s)
    if c == "Unicode":
        s = "".join(r.choice(["a", "\u00fc", "\u65e5", "\U0001f600"]) for _ in range(r.choice([0, 1, 5, 30, 62, 63, 64])))
        return s, tagt(s)
    b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 127, 128, 200])))
    return b, [6] + list(b)


def home(r, c):
    """an identifier the class accepts"""
    return {"Bool": (0, 63), "I8": (0, 63), "U8": (0, 63), "I16": (64, 127), "U16": (64, 127), "Ascii": (192, 207),
            "Unicode": (192, 207), "Unknown": (208, 255)}.get(c, (128, 191))


def sc_objects(run, r, ops, t):
    # every class with every identifier, several sizes: 13 x 256 pairs in slices
    for k in range(16):
        n = (t * 16 + k) % (13 * 256)
        c, i = NAMES[n % 13], n // 13
        fixed = 1 if i < 64 else 2 if i < 128 else 4
        for size in ((fixed, r.choice([0, 1, 2, 3, 4, 5, 8])) if i < 192 else (r.choice([0, 2, 4, 126]), r.choice([128, 200, 300]))):
            make(ops, c, i, data(r, c, size))
    # values
    for _ in range(6):
        c = r.choice(NAMES)
        i = r.randrange(home(r, c)[0], home(r, c)[1] + 1)
        size = 1 if i < 64 else 2 if i < 128 else 4 if i < 192 else r.choice([0, 2, 6])
        ev = make(ops, c, i, data(r, c, size))
        for _ in range(3):
            if ev is None:
                break
            v, tagged = value(r, c)
            if c == "Unknown" and i < 192:
                break
            op = {"o": "assign", "v": tagged, "e": 0, "b": [], "s": 0}
            try:
                ev.value = v
                op["b"], op["s"] = list(bytes(ev)), ev.size
            except Exception as exc:
                op["e"] = code(exc)
            ops.append(op)
            if op["e"]:
                break
    # equality
    for _ in range(8):
        def one():
            c = r.choice(["U8", "I8", "Bool", "U16", "U32", "I32", "Unknown", "Color", "Pair", "Ascii", "Unicode"])
            lo = home(r, c)[0]
            i = lo + r.randrange(2)
            if c in ("Ascii", "Unicode"):      # a text is told from others by itself, not by how it ends
                s = r.choice(["", "a", "b", "ab"])
                return {"c": c, "i": i, "d": list(s.encode("ascii" if c == "Ascii" else "utf-16-le")
                                                 + b"\0" * r.choice([0, 1 if c == "Ascii" else 2]))}
            if c == "Bool":
                return {"c": c, "i": i, "d": [r.choice([0, 1, 2, 255])]}
            return {"c": c, "i": i, "d": [r.randrange(2) for _ in range(1 if i < 64 else 2 if i < 128 else 4)]}
        a = one()
        z = dict(a) if r.random() < 0.4 else one()
        if r.random() < 0.3 and a["d"] and a["c"] not in ("Ascii", "Unicode"):
            z = dict(a, d=a["d"][:-1] + [1 - min(a["d"][-1], 1)])
        elif r.random() < 0.4 and a["c"] in ("Ascii", "Unicode"):
            n = 1 if a["c"] == "Ascii" else 2
            z = dict(a, d=a["d"][:-n] if a["d"][-n:] == [0] * n else a["d"] + [0] * n)
        x = CLASSES[a["c"]](E.EventEnum(a["i"]), bytes(a["d"]))
        y = CLASSES[z["c"]](E.EventEnum(z["i"]), bytes(z["d"]))
        if ("Bool" in (a["c"], z["c"])) and a["c"] != z["c"]:
            continue
        ops.append({"o": "compare", "a": a, "z": z, "x": [int(x == y), int(x != y)]})
        res = []
        for alien in (1, "x", None, b"", (1, 2)):
            for f in (lambda: x == alien, lambda: x != alien):
                try:
                    f()
                    res.append(0)
                except TypeError:
                    res.append(1)
        ops.append({"o": "same", "n": "an event cannot be compared with something else", "x": [1] * 10, "y": res})


def version(v):
    return FLVersion(*v)


def sc_versions(run, r, ops, t, n=60):
    def one():
        v = [r.choice([0, 1, 11, 12, 20, 21]), r.choice([0, 1, 5, 8, 9]), r.choice([0, 1, 4, 10])]
        return v + [r.choice([0, 1, 2, 2576, 3517])] if r.random() < 0.6 else v
    for _ in range(n):
        a = one()
        z = list(a) if r.random() < 0.3 else one()
        if r.random() < 0.4:
            z = list(a)
            k = r.randrange(len(z))
            z[k] = max(0, z[k] + r.choice([-1, 0, 1, 10]))
            if r.random() < 0.3:
                z = z[:3]
        x, y = version(a), version(z)
        ops.append({"o": "versions", "a": a, "z": z,
                    "x": [int(x < y), int(x <= y), int(x > y), int(x >= y), int(x == y), int(x != y),
                          cps(str(x)), cps(str(y))]})
        ops.append({"o": "same", "n": "equal versions have equal hashes", "x": 1,
                    "y": int(hash(x) == hash(version(a)))})
    # colours: components are stored as the nearest step
    for _ in range(n):
        k = [r.choice([0, 10000, 5000, 1, 9999, 20, r.randrange(10001), r.randrange(10001)]) for _ in range(4)]
        ops.append({"o": "colour", "k": k, "g": list(bytes(RGBA(*(x / 10000 for x in k))))})
    # every byte is exact in both directions
    for b in range(256):
        four = bytes([b, 255 - b, (b * 7) % 256, (b * 31 + t) % 256])
        got = bytes(RGBA.from_bytes(four))
        if got != four or not all(0 <= x <= 1 for x in RGBA.from_bytes(four)):
            ops.append({"o": "same", "n": "colour bytes", "x": list(four), "y": list(got)})
            break
    else:
        ops.append({"o": "same", "n": "colour bytes", "x": 256, "y": b + 1})


# ---------------------------------------------------------------- known findings
def sc_known(run, r, ops, t):
    """the histories of known-findings.json; x: as specified, y: as observed"""
    import os
    import pyflp
    from gen import file_bytes as container
    ver = (199, b"20.8.4\0")
    chan = [(231, "g".encode("utf-16-le") + b"\0\0"), (64, b"\0\0"), (21, b"\0"), (145, bytes(4))]

    def item(i, trk):
        return struct.pack("<IHHIHH", i, 20480, 0, 96, trk, 0) + b"\x78\0\x40\0\x40\x64\x80\x80" + struct.pack("<ff", -1, -1)

    def arr(n):
        return chan + [(99, b"\0\0"), (233, b"".join(item(i, 499) for i in range(n))), (238, b"\1" + bytes(47))]

    if t == 0:
        run.open(container([ver] + arr(1)))
        it = list(list(list(run.project.arrangements)[0].tracks)[0])[0]
        try:
            got = int(bool(it.muted))
        except KeyError:
            got = "KeyError"
        ops.append({"o": "finding", "n": "muted of a playlist item", "x": 0, "y": got})
    elif t == 1:
        run.open(container([ver] + arr(15)))
        try:
            n = len(list(list(run.project.arrangements)[0].tracks)[0])
        except Exception as exc:
            n = type(exc).__name__
        ops.append({"o": "finding", "n": "15 playlist items of 32 bytes", "x": 15, "y": n})
    elif t == 2:
        run.open(container([(199, b"20.8.4\0"), (194, "Title".encode("utf-16-le") + b"\0\0")]))
        run.project.version = "9.0.0"
        pyflp.save(run.project, run.path)
        got = pyflp.parse(run.path).title
        os.remove(run.path)
        ops.append({"o": "finding", "n": "version assigned across 11.5", "x": "Title", "y": got})
    elif t == 3:
        from tree import Trees, eid
        tr = Trees([], run.path)
        tr.root([1, 2, 1])
        a = tr.trees[0].subtree(lambda e: e.id == eid(1))
        b = tr.trees[0].subtree(lambda e: e.id == eid(1))
        a.pop(eid(1))
        try:
            b.pop(eid(1))
        except ValueError:
            pass
        ops.append({"o": "finding", "n": "pop through a view which is out of date",
                    "x": [2, 3], "y": [e.value for e in tr.trees[0]]})
