"""What every check explores. n: runs in the quick tier, N: in the thorough one."""


def T(scenario, n, N=None, **kw):
    arg = kw.pop("arg", {})
    part = {"type": "traces", "scenario": scenario, "n": n, "N": N or 12 * n, "arg": arg}
    part.update(kw)
    return part


def S(n, N=None, **arg):
    return T("session", n, N, arg=arg)


def R(module, scenario, quick, thorough, validator="TraceTree", chunk=2000):
    return {"type": "replay", "module": module, "scenario": scenario, "quick": quick, "thorough": thorough,
            "validator": validator, "chunk": chunk}


def P(mode, depth, quick, thorough, families=None, **gen):
    """histories enumerated (all, remove) or drawn (random, mixed) by MCSession; quick, thorough: (files, histories)"""
    return {"type": "play", "mode": mode, "depth": depth, "quick": quick, "thorough": thorough, "families": families,
            "each": gen.pop("each", 1 if mode in ("all", "remove") else 9), "gen": gen}


CH = [2, 3, 4, 5, 6]
PA = [7, 8, 9, 10, 11]
AR = [12, 13, 14, 15, 16]
MX = [17, 18, 19, 20]
CHANNELS = ["Channel", "Sampler", "Instrument", "Layer", "Automation", "Point"]
NATIVE = ["BooBass", "FruitKick", "Plucked", "FruityBalance", "FruityBloodOverdrive", "FruityCenter", "FruityFastDist",
          "FruityNotebook2", "FruitySend", "FruitySoftClipper", "FruityStereoEnhancer", "Soundgoodizer", "Plugin",
          "VSTPlugin"]

PLANS = {
    "C01": [T("roundtrip", 500), T("stream", 300, arg={"events": False}), T("poke", 100), T("large", 9, 36), T("asset", 4, 20),
            S(40, nsets=0)],
    "C02": [T("stream", 700), T("large", 9, 36), T("roundtrip", 150)],
    "C03": [T("malformed", 700),
            R("MCContainer", "container", {"len": 5}, {"len": 6}, validator="TraceSession", chunk=110)],
    "C04": [S(250), T("sweep", 698, 6980, arg={"more": 1}),
            P("random", 12, (16, 80), (160, 4000))],
    "C05": [S(250, nsets=14), T("atomic", 100), T("stream", 100), T("large", 9, 36),
            P("random", 8, (16, 80), (160, 4000), trunc=0.0)],
    "C06": [S(150, tail=False, nsets=16), T("sweep", 698, 6980, arg={"tail": False}),
            P("random", 10, (16, 80), (160, 4000), small=False)],
    "C07": [T("frame", 240), T("plug", 60), T("sweep", 698, 6980, arg={"more": 1}),
            P("all", 1, (2, 0), (24, 0))],
    "C08": [T("sweep", 640, 6400, arg={"absent": True}), S(150, sparse=0.7, trunc=0.6, readonly=0.1)],
    "C09": [R("MCTree", "tree", {"len": 2, "depth": 3, "views": 4}, {"len": 3, "depth": 3, "views": 5}),
            R("MCTree", "tree", {"len": 4, "depth": 2, "views": 5}, {"len": 2, "depth": 4, "views": 4}),
            T("treewalk", 2000, 60000, validator="TraceTree", chunk=500)],
    "C10": [R("MCParts", "parts", {"len": 5, "nest": 3}, {"len": 7, "nest": 5}),
            T("treewalk", 800, 20000, validator="TraceTree", chunk=500)],
    "C11": [S(200, families=CH, parts=["project", "channels"], nsets=6),
            S(60, families=CH, parts=["project", "channels"], kinds=["layer", "sampler", "automation"], nsets=4),
            T("find", 60), T("ids", 40, arg={"what": "channels"}),
            T("many", 9, 60, arg={"part": "channels"}, chunk=2)],
    "C12": [T("sweep", 330, 6000, arg={"kinds": CHANNELS + ["Rack", "Group"]}),
            S(150, families=CH, parts=["channels"], nsets=16, kinds=None),
            P("all", 1, (2, 0), (24, 0), CH, parts=["channels"])],
    "C13": [S(250, families=PA, parts=["project", "channels", "patterns"], nsets=14),
            T("sweep", 120, 2000, arg={"kinds": ["Patterns", "Pattern", "Note", "Controller", "Marker"]}),
            T("many", 12, 90, arg={"part": "patterns"}, chunk=2),
            T("ids", 60, arg={"what": "patterns"}),
            P("all", 1, (4, 0), (24, 0), PA, parts=["project", "patterns"])],
    "C14": [S(250, families=AR, parts=["project", "channels", "patterns", "arrangements"], nsets=14),
            T("sweep", 140, 2000, arg={"kinds": ["Arrangements", "Arrangement", "Track", "ChannelItem", "PatternItem",
                                                 "Marker"]}),
            T("many", 16, 90, arg={"part": "arrangements"}, chunk=2),
            P("all", 1, (4, 0), (24, 0), AR, parts=["project", "channels", "patterns", "arrangements"])],
    "C15": [S(250, families=MX, parts=["project", "mixer"], nsets=14),
            T("sweep", 160, 2000, arg={"kinds": ["Mixer", "Insert", "Slot"]}),
            T("many", 24, 120, arg={"part": "mixer"}, chunk=3),
            P("all", 1, (4, 0), (24, 0), MX, parts=["project", "mixer"], many={"inserts": 2, "slots": 2})],
    "C16": [T("sweep", 290, 5000, arg={"kinds": NATIVE}),
            S(200, families=[3, 6, 19, 20], parts=["channels", "mixer"], kinds=["instrument", "native"], nsets=14,
              target=NATIVE),
            T("plug", 150),
            P("all", 1, (4, 0), (24, 0), [6, 20], parts=["channels", "mixer"], kinds=["instrument", "native"])],
    "C17": [T("sweep", 140, 3000, arg={"kinds": ["Project"], "more": 8}),
            S(250, families=[1], parts=["project"], nsets=20),
            P("all", 1, (16, 0), (60, 0), [1], parts=["project"])],
    "C18": [T("pure", 350), T("poke", 400)],
    "C19": [T("atomic", 350), T("plug", 60), T("sweep", 340, 3400, arg={"bad": True})],
    "C20": [T("find", 500)],
    "C21": [T("objects", 1248, 8000, validator="TraceEvent", chunk=60)],
    "C22": [T("versions", 600, 6000, validator="TraceEvent", chunk=40)],
    "C26": [T("lazy", 350, 6000)],
    "C25": [T("change", 220, 6000), P("remove", 1, (8, 0), (120, 0), trunc=0.0), P("mixed", 12, (16, 80), (160, 4000))],
    "C24": [T("pair", 250, 5000, chunk=32)],
    "C23": [T("equal", 400, 6000), T("treewalk", 300, 6000, validator="TraceTree", chunk=300)],
}
for _parts in PLANS.values():
    for _p in _parts:                # what the time of a quick run allows
        if _p["type"] == "traces" and _p["scenario"] not in ("treewalk", "objects", "versions", "large", "asset", "many", "malformed"):
            _p["n"] = int(_p["n"] * (1.5 if _p["n"] < 600 else 1))
LEVEL = {}
PLANS = {k: {"parts": v, "level": LEVEL.get(k, "model_checking")} for k, v in PLANS.items()}
