"""The implementation under test, seen through its public interface only.

Everything observed is turned into the tagged values of spec/Bytes.tla.
Run with the interpreter of the repository (see check.py).
"""
import math
import os
import pathlib
import struct
import sys
import warnings

REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import pyflp                                             # noqa: E402
from pyflp import exceptions as X                        # noqa: E402
from pyflp import arrangement, channel, controller, plugin, timemarker, project as prj   # noqa: E402

assert os.path.realpath(pyflp.__file__).startswith(os.path.realpath(REPO)), pyflp.__file__

NONE = [0]
(FPROJECT, FRACK, FCHANNEL, FGROUP, FPOINT, FCHPLUGIN, FPATTERNS, FPATTERN, FNOTE, FCONTROLLER,
 FPATMARKER, FARRANGEMENTS, FARRANGEMENT, FTRACK, FITEM, FARRMARKER, FMIXER, FINSERT, FSLOT,
 FSLOTPLUGIN, FREMOTE) = range(1, 22)
ALL = list(range(1, 22))

_ERRORS = [(X.PropertyCannotBeSet, 1), (X.HeaderCorrupted, 2), (X.VersionNotDetected, 3),
           (X.NoModelsFound, 4), (X.ModelNotFound, 5), (X.EventIDOutOfRange, 6),
           (X.InvalidEventChunkSize, 7), (ValueError, 8), (TypeError, 9), (LookupError, 10),
           (AttributeError, 11)]


def code(exc):
    for cls, n in _ERRORS:
        if isinstance(exc, cls):
            return n
    return 12


class Timeout(BaseException):
    pass


# values no attribute can store
UNSUITABLE = [object(), (1.5,), (1, 2, 3, "x"), [], {}, {1: None}]


def iv(n):
    return [2, n // 65536, n % 65536]


def tagf(x):
    """a float"""
    x = float(x)
    try:
        b = struct.pack("<f", x)
        if struct.unpack("<f", b)[0] == x and not (x == 0 and b != bytes(4)):
            return [3] + list(b)
    except OverflowError:
        pass
    return [4] + list(struct.pack("<d", x))


def cps(s):
    return [ord(ch) for ch in s]


def tagt(s):
    return [5] + cps(s)


def tup(vals):
    out = [7]
    for v in vals:
        out.append(len(v))
        out += v
    return out


def plain(v):
    """an event value or attribute whose codec is not known"""
    import enum
    if v is None:
        return NONE
    if type(v).__name__ == "RGBA":
        return color(v)
    if isinstance(v, (bool, int, enum.IntEnum, enum.IntFlag)):
        return iv(int(v))
    if isinstance(v, float):
        return tagf(v)
    if isinstance(v, str):
        return tagt(str(v))
    if isinstance(v, (bytes, bytearray)):
        return [6] + list(v)
    if isinstance(v, tuple):
        return tup([plain(x) for x in v])
    return [16]


def color(v):
    return [8] + [int(round(x * 255)) for x in (v.red, v.green, v.blue, v.alpha)]


def value(c, v):
    """tag the value of an attribute stored with codec c"""
    if v is None:
        return NONE
    if c in ("u8", "i8", "u16", "i16", "u32", "i32"):
        return iv(int(v))
    if c in ("bool8", "bool32", "bit8", "bit16", "bit32", "nbit32"):
        return iv(int(v))
    if c in ("f32", "f64"):
        return tagf(v)
    if c in ("text", "licensee", "utf8", "height", "notekey"):
        return tagt(str(v)) if isinstance(v, str) else [13, 0]
    if c == "path":
        return [12] + cps(str(v)) if isinstance(v, pathlib.PurePath) else [13, 1]
    if c == "bytes":
        return [6] + list(v)
    if c == "color":
        return color(v)
    if c in ("pair16", "pair32", "loop32"):
        return tup([NONE if x is None else iv(int(x)) for x in v])
    if c == "pairf32":
        return tup([tagf(x) for x in v])
    if c == "mtime":
        return tup([iv(int(x)) for x in v])
    if c == "enum":
        return tagt(str(v)) if isinstance(v, str) else iv(int(v))
    if c == "log2":
        return [15] + iv(round(10000 * math.log2(v)))[1:]
    if c == "lognorm":
        return [15] + iv(0 if v == 0 else round(4096 * (math.log2(v) + 15)))[1:]
    if c in ("revmix", "revtype", "tmpos", "tmtype"):
        return iv(int(v))
    if c == "days32":
        return [17, v.days, v.seconds + (1 if v.microseconds >= 500000 else 0)]
    if c == "days32abs":
        import datetime
        d = v - datetime.datetime(1899, 12, 30)
        return [17, d.days, d.seconds + (1 if d.microseconds >= 500000 else 0)]
    return plain(v)


def enumeration(name):
    """the class of that name"""
    if name:
        for m in (prj, channel, arrangement, plugin, timemarker):
            if hasattr(m, name):
                return getattr(m, name)
    return None


def index_of(seq, obj):
    """1-based position of the model obj in seq"""
    ev = [id(e) for e in obj.events]
    for i, o in enumerate(seq):
        if [id(e) for e in o.events] == ev:
            return i + 1
    return 0


class Run:
    """One project in memory."""

    def __init__(self, table, path):
        self.table = table
        self.path = path
        self.project = None

    # -- attributes
    def resolve(self, obj, path):
        """(owner of the last component, its name); owner None: no such object"""
        parts = path.split(".")
        for part in parts[:-1]:
            if obj is None:
                return None, parts[-1]
            if isinstance(obj, dict):
                obj = obj.get(part)
            else:
                obj = getattr(obj, part)
        if isinstance(obj, dict):
            obj = None
        return obj, parts[-1]

    def special(self, key, kind, obj, a):
        p = self.project
        if a == "tempo":
            v = obj.tempo
            return NONE if v is None else [15] + iv(round(v * 1000))[1:]
        if a == "version":
            return tagt(str(obj.version))
        if a in ("channel_count", "ppq", "format", "max_tracks", "max_inserts", "max_slots", "iid", "parameter", "controls_vst", "editable"):
            v = getattr(obj, a)
            return NONE if v is None else iv(int(v))
        if a == "len":
            return iv(len(obj))
        if a in ("automations", "instruments", "layers", "samplers"):
            chans = [x for x in obj]
            return tup([iv(index_of(chans, c)) for c in getattr(obj, a)])
        if a == "display_name":
            v = obj.display_name
            return NONE if v is None else tagt(v)
        if a == "group":
            return iv(index_of(p.channels.groups, obj.group))
        if a == "children":
            kids = [x for x in obj]                 # first, as iterating the rack may have side effects
            chans = [x for x in p.channels]
            return tup([iv(index_of(chans, c)) for c in kids])
        if a == "position":
            return tagf(obj.position)
        if a == "current":
            cur = obj.current
            return NONE if cur is None else iv(index_of(obj, cur))
        if a == "channel":
            return iv(index_of(p.channels, obj.channel))
        if a == "pattern":
            return iv(index_of(p.patterns, obj.pattern))
        if a == "dock":
            d = obj.dock
            return NONE if d is None else iv({"Left": 1, "Middle": 2, "Right": 3}[d.name])
        if a == "routes":
            return tup([iv(int(v)) for v in obj.routes])
        if a == "pages":
            return tup([tup([iv(int(i)), tagt(t)]) for i, t in obj.pages.items()])
        raise RuntimeError("unknown special " + a)

    def get(self, key, kind, obj, ai):
        row = self.table[kind][ai]
        try:
            if row["sp"]:
                return self.special(key, kind, obj, row["a"])
            owner, name = self.resolve(obj, row["a"])
            if owner is None:
                return NONE
            v = getattr(owner, name)
            cls = enumeration(row["en"])
            if cls and v is not None and not isinstance(v, cls) and any(int(m.value) == v for m in cls):
                return [13, 2]
            return value(row["c"][0], v)
        except Timeout:
            raise
        except Exception as exc:
            return [9, code(exc)]

    def native(self, row, owner, name, v):
        """the Python object to assign for the tagged value v"""
        c = row["c"][0] if row["c"] else ""
        tag = v[0]
        if tag == 18:
            return UNSUITABLE[v[1]]
        if tag == 2:
            n = v[1] * 65536 + v[2]
            if c in ("bool8", "bool32", "bit8", "bit16", "bit32", "nbit32"):
                return bool(n)
            if c == "enum" or c == "notekey":
                return n
            try:
                import enum
                cls = enumeration(row.get("en", ""))
                if cls:
                    return cls(n)
                cur = getattr(owner, name)
                if isinstance(cur, enum.Enum):
                    return type(cur)(n)
            except Exception:
                pass
            return n
        if tag == 3:
            return struct.unpack("<f", bytes(v[1:]))[0]
        if tag == 4:
            return struct.unpack("<d", bytes(v[1:]))[0]
        if tag == 5:
            return "".join(map(chr, v[1:]))
        if tag == 12:
            return pathlib.Path("".join(map(chr, v[1:])))
        if tag == 6:
            return bytes(v[1:])
        if tag == 8:
            from pyflp.types import RGBA
            return RGBA(*(x / 255 for x in v[1:]))
        if tag == 15:
            n = v[1] * 65536 + v[2]
            if c == "log2":
                return 2 ** (n / 10000)
            if c == "lognorm":
                return 2 ** (n / 4096) / 2 ** 15 if n else 0.0
        if tag == 7:
            items, i = [], 1
            while i < len(v):
                items.append(self.native(row, owner, name, v[i + 1:i + 1 + v[i]]))
                i += 1 + v[i]
            if c == "mtime":
                from pyflp.types import MusicalTime
                return MusicalTime(*items)
            return tuple(items)
        raise RuntimeError("cannot convert %r" % (v,))

    def special_value(self, a, v):
        p = self.project
        if v[0] == 18:
            return UNSUITABLE[v[1]]
        if a == "tempo":
            n = v[1] * 65536 + v[2]
            return n / 1000 if v[3] == 1 else n // 1000
        if a == "version":
            s = "".join(map(chr, v[1:]))
            how = sum(v) % 3
            if how == 0:
                return s
            parts = [int(x) for x in s.split(".")]
            if how == 1 and 3 <= len(parts) <= 4:
                from pyflp.types import FLVersion
                return FLVersion(*parts)
            return tuple(parts)
        if a == "format":
            return prj.FileFormat(v[1] * 65536 + v[2])
        if a == "channel":
            return [x for x in p.channels][v[2] - 1]
        if a == "pattern":
            return [x for x in p.patterns][v[2] - 1]
        if a == "pages":
            row = {"c": []}
            return {i: t for i, t in self.native(row, None, None, v)}
        if a == "editable":
            return bool(v[2])
        return v[1] * 65536 + v[2]

    def set(self, key, kind, obj, ai, v):
        """0: done, -1: no object to assign to, else error code"""
        row = self.table[kind][ai]
        try:
            if row["sp"]:
                if not row["w"]:
                    setattr(obj, row["a"], 1)
                else:
                    setattr(obj, row["a"], self.special_value(row["a"], v))
                return 0
            owner, name = self.resolve(obj, row["a"])
            if owner is None:
                return -1
            setattr(owner, name, self.native(row, owner, name, v))
            return 0
        except Timeout:
            raise
        except Exception as exc:
            return code(exc)

    # -- models
    def walk(self, families=ALL, tops=()):
        """[(key, kind, object)] in the order of Models!Keys; tops: collections at hand, by family"""
        p = self.project
        tops = dict(tops)
        fam = set(families)
        out = []

        def put(key, kind, obj):
            if key[0] in fam:
                out.append((list(key), kind, obj))

        def each(it):
            try:
                return [x for x in it()]         # list() would also ask for len()
            except X.NoModelsFound:
                return []

        put((FPROJECT,), "Project", p)
        if fam & {FRACK, FGROUP, FCHANNEL, FPOINT, FCHPLUGIN}:
            rack = tops[FRACK] if FRACK in tops else p.channels
            put((FRACK,), "Rack", rack)
            for i, g in enumerate(each(lambda: rack.groups), 1):
                put((FGROUP, i), "Group", g)
            for i, ch in enumerate(each(lambda: rack), 1):
                kind = type(ch).__name__
                put((FCHANNEL, i), kind, ch)
                if kind == "Automation" and FPOINT in fam:
                    for j, pt in enumerate(ch, 1):
                        put((FPOINT, i, j), "Point", pt)
                if FCHPLUGIN in fam and kind == "Instrument":
                    plug = ch.plugin
                    if plug is not None:
                        put((FCHPLUGIN, i), self.plugin_kind(plug), plug)
        if fam & {FPATTERNS, FPATTERN, FNOTE, FCONTROLLER, FPATMARKER}:
            pats = tops[FPATTERNS] if FPATTERNS in tops else p.patterns
            put((FPATTERNS,), "Patterns", pats)
            for i, pat in enumerate(each(lambda: pats), 1):
                put((FPATTERN, i), "Pattern", pat)
                for j, x in enumerate(pat.notes, 1):
                    put((FNOTE, i, j), "Note", x)
                for j, x in enumerate(pat.controllers, 1):
                    put((FCONTROLLER, i, j), "Controller", x)
                for j, x in enumerate(pat.timemarkers, 1):
                    put((FPATMARKER, i, j), "Marker", x)
        if fam & {FARRANGEMENTS, FARRANGEMENT, FARRMARKER, FTRACK, FITEM}:
            arrs = tops[FARRANGEMENTS] if FARRANGEMENTS in tops else p.arrangements
            put((FARRANGEMENTS,), "Arrangements", arrs)
            for i, arr in enumerate(each(lambda: arrs), 1):
                put((FARRANGEMENT, i), "Arrangement", arr)
                for j, x in enumerate(arr.timemarkers, 1):
                    put((FARRMARKER, i, j), "Marker", x)
                for j, t in enumerate(arr.tracks, 1):
                    put((FTRACK, i, j), "Track", t)
                    for l, it in enumerate(t, 1):
                        put((FITEM, i, j, l), {"ChannelPLItem": "ChannelItem",
                                               "PatternPLItem": "PatternItem"}.get(type(it).__name__, type(it).__name__), it)
        if fam & {FMIXER, FINSERT, FSLOT, FSLOTPLUGIN}:
            mixer = tops[FMIXER] if FMIXER in tops else p.mixer
            put((FMIXER,), "Mixer", mixer)
            for i, ins in enumerate(each(lambda: mixer), 1):
                put((FINSERT, i), "Insert", ins)
                for j, sl in enumerate(ins, 1):
                    put((FSLOT, i, j), "Slot", sl)
                    plug = sl.plugin
                    if plug is not None:
                        put((FSLOTPLUGIN, i, j), self.plugin_kind(plug), plug)
        if FREMOTE in fam:
            for i, et in enumerate(p.events.separate(controller.ControllerID.Remote), 1):
                put((FREMOTE, i), "Remote", controller.RemoteController(et))
        return out

    def plugin_kind(self, plug):
        n = type(plug).__name__
        return n if n in self.table else "Plugin"

    def dump_op(self, families=ALL, tops=()):
        try:
            ks = [[key, kind, [self.get(key, kind, obj, i) for i in range(len(self.table[kind]))]]
                  for key, kind, obj in self.walk(families, tops)]
        except Timeout:
            raise
        except Exception as exc:
            ks = [[[0], "%s: %s" % (type(exc).__name__, str(exc)[:80]), []]]
        return {"o": "dump", "f": list(families), "k": ks}

    def places(self, *trees):
        """the positions in the project of the events of trees"""
        at = {id(e): i + 1 for i, e in enumerate(self.project.events)}
        return [at.get(id(e), 0) for t in trees for e in t]

    def shown_op(self, families=ALL):
        """which events of the project, by position, every model shows"""
        at = {id(e): i + 1 for i, e in enumerate(self.project.events)}
        try:
            ks = [[key, [at.get(id(e), 0) for e in obj.events]] for key, kind, obj in self.walk(families) if hasattr(obj, "events")]
        except Timeout:
            raise
        except Exception as exc:
            ks = [[[0], "%s: %s" % (type(exc).__name__, str(exc)[:80])]]
        return {"o": "shown", "f": list(families), "k": ks}

    def enum_op(self, name):
        cls = enumeration(name)
        return {"o": "enum", "n": name, "m": sorted([m.name, int(m.value)] for m in cls if m.name[0] != "_")}

    def events_op(self):
        lst = []
        for e in self.project.events:
            try:
                raw = bytes(e)
                lst.append([int(e.id), plain(e.value), int(e.size), list(raw)])
            except Timeout:
                raise
            except Exception as exc:
                lst.append([-1, [9, code(exc)], 0, []])
        return {"o": "events", "l": lst}

    # -- look-ups in collections
    def collection(self, c, walked):
        p = self.project
        if c[0] == FRACK:
            return p.channels
        if c[0] == FPATTERNS:
            return p.patterns
        if c[0] == FARRANGEMENTS:
            return p.arrangements
        if c[0] == FMIXER:
            return p.mixer
        return walked[tuple(c)]

    def position(self, c, coll, obj):
        """tagged 1-based position of a member (layers: of the channel in the rack)"""
        if c[0] == FTRACK:
            for i, x in enumerate(coll):
                if x is obj:
                    return iv(i + 1)
            return iv(0)
        return iv(index_of(self.project.channels if c[0] == FCHANNEL else coll, obj))

    def find_op(self, c, coll, how, i):
        """how: int, name, slice or layer"""
        try:
            if how == "name":
                v = self.position(c, coll, coll["".join(map(chr, i[1:]))])
            elif how == "slice":
                got = coll[slice(*[x[0] if x else None for x in i])]
                v = tup([self.position(c, coll, o) for o in got])
            else:
                v = self.position(c, coll, coll[i])
        except Timeout:
            raise
        except Exception as exc:
            v = [9, code(exc)]
        return {"o": "find", "c": list(c), "h": how, "i": i, "v": v}

    def plug_op(self, key, host, skey, plug):
        try:
            host.plugin = plug
            r = 0
        except Timeout:
            raise
        except Exception as exc:
            r = code(exc)
        return {"o": "plug", "k": key, "s": skey, "r": r}

    # -- files
    turns = 0

    def either(self, path):
        """the path as a text or as a path object, in turn"""
        self.turns += 1
        return pathlib.Path(path) if self.turns % 2 else str(path)

    def open(self, data):
        with open(self.path, "wb") as fp:
            fp.write(data)
        try:
            self.project = pyflp.parse(self.either(self.path))
            return 0
        except Timeout:
            raise
        except Exception as exc:
            return code(exc)

    def open_op(self, data):
        e = self.open(data)
        return {"o": "open", "b": list(data), "e": e}

    def save_op(self, path=None):
        path = path or self.path
        try:
            pyflp.save(self.project, self.either(path))
            r = 0
        except Timeout:
            raise
        except Exception as exc:
            r = code(exc)
        try:
            with open(path, "rb") as fp:
                b = fp.read()
        except OSError:
            b = b""
        return {"o": "save", "r": r, "b": list(b)}

    def reopen_op(self):
        try:
            self.project = pyflp.parse(self.either(self.path))
            e = 0
        except Timeout:
            raise
        except Exception as exc:
            e = code(exc)
        return {"o": "reopen", "e": e}
