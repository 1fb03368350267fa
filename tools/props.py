"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note))


E, I, D, M = "pyflp/_events.py", "pyflp/__init__.py", "pyflp/_descriptors.py", "pyflp/_models.py"
COMMON = ("Trace validation by TLC: bounded to the generated files and histories of the run; trusts TLC, the driver's "
          "translation of Python values and the file format as written down in spec/.")

prop("C01", "Opening and saving without edits reproduces the file byte for byte",
     "For every valid project file, opening it and saving it again without having changed anything writes exactly the bytes that were read, "
     "including header fields, events of unknown meaning, non-canonical flags, text with missing or repeated terminators, structures "
     "shorter or longer than the known layout, and events of any size.",
     ["inputs"], "every well-formed container: any header fields, any sequence of events of any identifier, size and version",
     "Tests compare one 20.8.4 project; they cannot enumerate event identifiers, payload sizes (length prefixes of 1-4 bytes), layouts and encodings of other versions.",
     [I, E], [("writer", "pyflp/__init__.py save"), ("verbatim serialisation of untouched events", "pyflp/_events.py EventBase.__bytes__")],
     COMMON + " Files up to a few KB are compared byte by byte by the specification, events of up to 2 MB and the real projects by digest.")
prop("C02", "The event stream is decoded exactly",
     "Opening a file yields exactly the events it contains, in file order, each with its identifier, its size on disk and the value which its "
     "identifier prescribes: integers of the right width and sign, flags, floats, pairs, colours, text in the encoding of the file's "
     "version (UTF-16 from 11.5 on, ASCII before it), or the raw bytes.",
     ["inputs"], "every identifier 0-255, every payload, every length prefix, every version",
     "Tests look at a few events of one file; a wrong width or sign of one identifier, or a boundary of the length prefix or of the version, goes unnoticed.",
     [I, E, "pyflp/channel.py", "pyflp/mixer.py", "pyflp/project.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py"],
     [("event loop of the parser", "pyflp/__init__.py parse"), ("event classes", "pyflp/_events.py")], COMMON)
prop("C03", "Damaged containers are rejected, never half-read",
     "A file with a wrong magic, header size, format, resolution, data-chunk magic or data-chunk length is refused with the header-corrupted "
     "error, and a file whose last event is cut off or whose text precedes its version is refused with an error; opening never returns a "
     "project for such a file. A file which is intact is never refused.",
     ["inputs", "fault_sequences"], "every single corrupted header byte, every truncation point, every appended tail, every incomplete last event",
     "Six fixed corrupted files are tested; truncation points and combinations of length fields are not.",
     [I, E, "pyflp/exceptions.py"], [("header validation", "pyflp/__init__.py parse"), ("chunk size validation", "pyflp/_events.py EventBase.__init__")],
     COMMON + " Header bytes and truncation points are enumerated, on a sample of files.")
prop("C04", "Every accepted edit survives saving and reopening",
     "After any sequence of attribute assignments which succeeded, saving the project and opening the saved file gives a project in which every "
     "attribute of every model reads the same as before saving; in particular the last value assigned to each attribute is read back.",
     ["histories", "inputs"], "every sequence of assignments to any attributes of any models, through old and new model objects, followed by save and reopen",
     "Tests assign a handful of attributes and never save; storage, padding and length prefixes of each of some 700 attributes are not exercised.",
     [I, E, D, M], [("attribute descriptors", "pyflp/_descriptors.py"), ("serialisation", "pyflp/_events.py"), ("writer", "pyflp/__init__.py save")], COMMON)
prop("C05", "A saved file is always a well-formed container",
     "Whatever was edited before, a successful save writes one header chunk and one data chunk whose length field equals the number of bytes "
     "that follow, whose header carries the current format, channel count and resolution, and whose content is exactly the serialised events in "
     "order, each with a correct length prefix.",
     ["histories", "inputs"], "every history of edits which change sizes (text, plugin state, notes pages), header fields and events",
     "The test suite saves one unmodified project.", [I, E, "pyflp/project.py"],
     [("writer", "pyflp/__init__.py save"), ("length prefix", "pyflp/_events.py EventBase.__bytes__")], COMMON)
prop("C06", "Reading returns what was last assigned, through every live view",
     "A successful assignment is visible immediately: reading the attribute through the same object, through an object obtained earlier or "
     "through one obtained later returns the assigned value in the attribute's type, for every value the attribute can store.",
     ["histories", "inputs"], "every attribute, every storable value, every mix of model objects obtained at different times",
     "Tests read values of fixed files and assign almost nothing; aliasing of model objects is not tested.",
     [D, M, E, "pyflp/_adapters.py"], [("attribute descriptors", "pyflp/_descriptors.py"), ("list items write back to their event", "pyflp/_models.py ItemModel")], COMMON)
prop("C07", "An edit changes nothing but what it names",
     "Assigning one attribute of one model leaves every other attribute of every model and every other byte of the project unchanged: flags which "
     "share a word, fields of one structure, items of one list and parameters of different mixer tracks are independent of each other.",
     ["histories", "inputs"], "every pair of attributes, every model instance, every history",
     "A test would have to compare the whole project after every single assignment.",
     [D, E, M, "pyflp/mixer.py", "pyflp/channel.py", "pyflp/plugin.py"], [("flag masks", "pyflp/_descriptors.py FlagProp"), ("structure fields", "pyflp/_descriptors.py StructProp")], COMMON)
prop("C08", "Absent data reads as missing and cannot be assigned",
     "An attribute whose data the file does not contain (the event is missing, or the structure is shorter because an older version wrote it) reads "
     "as nothing or its documented default - attributes nested in a plugin wrapper's missing records raise an attribute error - and assigning "
     "it raises the property-cannot-be-set error and leaves the project as it was.",
     ["inputs", "configurations"], "every attribute, every subset of events present, every truncation of every structure at a field boundary",
     "The assets contain complete files of one version; almost no test assigns or reads an absent attribute.",
     [D, E, "pyflp/channel.py", "pyflp/plugin.py", "pyflp/mixer.py"], [("optional fields", "event structures in pyflp/*.py"), ("guards", "pyflp/_descriptors.py")], COMMON)
prop("C11", "The channel rack lists every channel with its right kind, group and children",
     "Iterating the channel rack yields every channel of the file once, in order, with the kind its type byte and content decide (sampler, "
     "instrument, layer, automation clip, audio clip, other), the display group it refers to, its own events only, and for layers exactly the "
     "children the file names wherever they are stored; plugins of mixer slots never leak into channels.",
     ["inputs"], "every arrangement of channels, groups, layers, patterns and mixer content in a file",
     "One project is enumerated by the tests.", ["pyflp/channel.py", E, "pyflp/project.py"],
     [("grouping of events into channels", "pyflp/channel.py ChannelRack.__iter__"), ("display name, group", "pyflp/channel.py Channel")], COMMON)
prop("C12", "Channel settings read and write the fields the file format assigns to them",
     "Every setting of every kind of channel (levels, arpeggiator, delay, polyphony, tracking, envelopes, LFOs, filter, sample effects, "
     "stretching, playback, keyboard, cut groups, automation points, rack-wide settings) reads the value stored at its place in the file and an "
     "assignment stores the value at that place, for every storable value, however many such settings the channel has.",
     ["inputs", "histories"], "about 280 settings x all storable values x all layouts (full and shortened structures)",
     "Tests read about a quarter of them from one preset each and assign nearly none.",
     ["pyflp/channel.py", "pyflp/_adapters.py", D], [("structures and properties", "pyflp/channel.py"), ("conversions", "pyflp/_adapters.py")], COMMON)
prop("C13", "Patterns, notes, controllers and their markers are read and edited faithfully",
     "Patterns are listed once per identifier in order of first appearance even when their data is split over the file, each with exactly its own "
     "notes, controller points, time markers, name, colour, length and loop flag; every field of every note and point reads and stores its own "
     "bytes, and the selected pattern is the one whose identifier the file names.",
     ["inputs", "histories"], "every interleaving of pattern sections, every number of notes, every field value",
     "Tests use single-pattern scores with a few notes.", ["pyflp/pattern.py", "pyflp/timemarker.py", "pyflp/_adapters.py", E],
     [("grouping by identifier", "pyflp/pattern.py Patterns.__iter__"), ("note and controller items", "pyflp/pattern.py")], COMMON)
prop("C14", "Arrangements, tracks, playlist items and markers are read and edited faithfully",
     "Each arrangement has exactly its own tracks, time markers and playlist items; an item appears on the track whose position it stores, with the "
     "channel or pattern it refers to, in both item layouts, and track, item, marker, loop and time-signature attributes read and store their own bytes. "
     "Re-pointing an item to another channel or pattern stores that reference.",
     ["inputs", "histories"], "every number of arrangements, tracks and items, both item sizes, both track limits (before and from 12.9.1)",
     "Tests use one project with two arrangements.", ["pyflp/arrangement.py", "pyflp/timemarker.py", "pyflp/_adapters.py", E],
     [("grouping of events into arrangements and tracks", "pyflp/arrangement.py"), ("playlist items", "pyflp/arrangement.py PlaylistEvent, Arrangement.tracks")],
     COMMON + " Old-layout playlists whose item count is a multiple of 15 are excluded (known finding).")
prop("C15", "Mixer inserts, slots and parameters are attributed correctly",
     "The mixer lists its inserts in order, each with its own effect slots; flags, routing, dock side, EQ bands, pan, volume, separation and slot "
     "state come from the parameter record of exactly that insert and slot, and assignments change exactly that record.",
     ["inputs", "histories"], "every number of inserts and slots, every order and subset of parameter records",
     "Tests read one project; records of other inserts and the write path are not compared.",
     ["pyflp/mixer.py", E], [("parameter records", "pyflp/mixer.py MixerParamsEvent"), ("grouping", "pyflp/mixer.py Mixer.__iter__, Insert.__iter__")], COMMON)
prop("C16", "Plugins are identified and their settings read and edited faithfully",
     "A channel's or slot's plugin is presented as the kind its stored name denotes (a generic plugin for unknown names, none without data); every "
     "setting of native effects and generators, wrapper flag and wrapper record (including variable-length ones) reads and stores its own bytes, "
     "and other records keep theirs even when a size changes.",
     ["inputs", "histories"], "every known plugin, every order and subset of wrapper records, every setting value, every size change",
     "One preset per plugin is read; almost nothing is assigned and nothing saved.",
     ["pyflp/plugin.py", "pyflp/_adapters.py", I], [("kind of a plugin", "pyflp/__init__.py parse, pyflp/plugin.py PluginProp"), ("structures", "pyflp/plugin.py")], COMMON)
prop("C17", "Project metadata is read, validated and stored faithfully",
     "Title, artists, genre, comments, address, data path, licensee, dates, main volume and pitch, tempo, version, resolution, format and channel count "
     "read what the file holds and store what is assigned. A tempo outside the version's range, a resolution which is not one of the supported ones, a "
     "negative channel count or a malformed version is refused with a value error (a fractional tempo before version 3.4 with a type error) and changes nothing.",
     ["inputs", "histories"], "every value on both sides of every limit, every version, every subset of tempo events",
     "Tests read one project and try one or two invalid values.", ["pyflp/project.py", "pyflp/types.py", D],
     [("validation", "pyflp/project.py Project"), ("tempo, version, licensee", "pyflp/project.py")], COMMON)
prop("C18", "Reading is pure",
     "Reading attributes, iterating, looking up, measuring or printing models and events, in any order and any number of times, never changes what is "
     "read later nor a single byte of what is saved afterwards.",
     ["histories", "inputs"], "every order and repetition of reads on every project", "Tests never save after reading.",
     [E, M, "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/plugin.py"],
     [("views share events with the project", "pyflp/_events.py EventTree"), ("models are rebuilt on every access", "pyflp/project.py")], COMMON)
prop("C19", "A refused assignment or failed save leaves everything as it was",
     "An assignment which raises leaves the project unchanged. A save which raises, because the project holds a value its field cannot store, leaves the "
     "destination file and the project untouched (no file appears where none was), never writes a truncated or altered value, and works again once a "
     "storable value is assigned.",
     ["fault_sequences", "histories"], "every rejected value, every unstorable value at any point of any history",
     "No test makes a save fail.", [I, D, E, "pyflp/project.py"], [("the file is written after everything was serialised", "pyflp/__init__.py save")], COMMON)
prop("C20", "Lookups, slices, lengths and iteration of collections agree",
     "For the channel rack, layers, automation clips, patterns, arrangements, tracks, mixer and inserts, the length equals the number of members iterated; "
     "looking up by position, internal identifier or name returns the first member that iteration yields with it, a slice returns the members "
     "Python slicing selects, and a key nobody has raises the not-found error.",
     ["inputs", "histories"], "every collection, every key and slice, duplicate, missing and renamed names",
     "Tests look up a few keys in one project.", [M, "pyflp/channel.py", "pyflp/mixer.py", "pyflp/pattern.py", "pyflp/arrangement.py"],
     [("item access", "__getitem__ of the collections"), ("slices", "pyflp/_models.py supports_slice")], COMMON)

exec(open("tools/props_more.py").read()) if __import__("os").path.exists("tools/props_more.py") else None
P.sort(key=lambda p: p["id"])
with open("properties.jsonl", "w") as fp:
    for p in P:
        fp.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"],
                                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
checks = [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
           "thorough_cmd": "bin/check %s thorough" % p["id"],
           "technique": p.get("technique", "TLA+ specification, TLC trace validation of recorded runs of the library"),
           "level": "model_checking", "level_note": p["level_note"]} for p in P]
with open("MANIFEST.json", "w") as fp:
    json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks: the library is driven through its public interface. See DESIGN.md."}, fp, indent=1)
    fp.write("\n")
