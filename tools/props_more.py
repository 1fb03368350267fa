REPLAY = "TLA+ model checked with TLC, every transition replayed on the library and validated by TLC"
prop("C09", "Edits through any event view reach the file in the right place",
     "Inserting, appending or removing events through any view of a project's event tree changes that view and all of its ancestors, and no other view: an "
     "event inserted at a position comes right before the event which held it (appended: right after the view's last one), a removal removes exactly the event "
     "of that identifier at that position, every other event keeps its relative order, root indexes stay consecutive, and a save writes the resulting order. "
     "An impossible position or missing identifier raises an index or key error and changes nothing.",
     ["histories", "inputs"], "every history of partitions, insertions and removals through any views (which do not hold an event removed elsewhere)",
     "A handful of fixed trees are tested; mixes of nested and sibling views and their shared indexes are not.",
     [E], [("shared root indexes", "pyflp/_events.py EventTree.insert, EventTree.pop"), ("propagation to parents", "pyflp/_events.py EventTree._recursive")],
     "Exhaustive for trees of up to 4 events and histories of up to 3 operations (bounds in the evidence), random beyond; trusts TLC and the driver.")
P[-1]["technique"] = REPLAY
prop("C10", "Event views partition their tree without losing or repeating events",
     "Every way of making views - by condition, one per event, one per separator, grouped by occurrence, or split at boundaries with a limit - yields exactly "
     "the events it names, each in exactly one view, in file order, and none when there is nothing to divide; counting, looking up and measuring a view agrees with its events.",
     ["inputs"], "every sequence of events, every condition, separator, set of identifiers and limit, on the tree and on views of it",
     "Tests split one or two fixed trees.", [E], [("partition operations", "pyflp/_events.py EventTree.divide, group, separate, subtree, subtrees")],
     "Exhaustive for trees of up to 5 events (7 in the thorough tier) over three identifiers, random beyond; trusts TLC and the driver.")
P[-1]["technique"] = REPLAY
prop("C21", "Event objects check their identifier and size and serialise their value",
     "Making an event of any class with an identifier outside of its range raises the id-out-of-range error, with data of the wrong size the chunk-size error; "
     "otherwise it exposes the decoded value, and its bytes and size are those of its identifier, length prefix and current value. A value which does not fit raises "
     "when serialised. Events are equal exactly when identifier and value are, and comparing one with anything else raises a type error.",
     ["inputs"], "every event class, every identifier 0-255, every size and value", "Tests make a few events of a few classes.",
     [E], [("validation", "pyflp/_events.py EventBase.__init__"), ("serialisation", "pyflp/_events.py EventBase.__bytes__, size")], COMMON + " All class and identifier pairs are enumerated.")
prop("C22", "Versions are totally ordered and colours convert exactly",
     "FL versions compare component by component, one without a build number before the same one with it; the six comparisons agree with each other, with equality and with "
     "hashes; their text is the dotted components. Colours made of four bytes turn back into the same bytes.",
     ["inputs"], "every pair of versions, every colour byte", "A few pairs are tested.", ["pyflp/types.py"],
     [("ordering", "pyflp/types.py FLVersion"), ("bytes", "pyflp/types.py RGBA")], COMMON)
prop("C23", "Models and event views are equal exactly when they show the same events",
     "Two models of one kind - however, and from whichever equal handle each was obtained - are equal exactly when they show events of the same identifiers and values at the same "
     "places of their projects: handles to one thing are equal before and after edits through any of them, different channels, groups, patterns, markers, tracks, inserts, slots or "
     "plugins of a project are not, and what two projects hold at the same place is equal until an event it shows differs. So are views of event trees. "
     "Inequality is the opposite; comparing models of different kinds, or a model with anything else, raises a type error.",
     ["inputs", "histories"], "every pair of models of a project, or of a project and another one, after every history of edits", "One comparison is tested.",
     ["pyflp/_models.py", E], [("models", "pyflp/_models.py EventModel.__eq__"), ("views", "pyflp/_events.py EventTree.__eq__")], COMMON)
prop("C24", "Projects are independent of each other",
     "Whatever is done to one project - reading, editing, saving, opening again, in any interleaving with operations on others - nothing of it shows in another project opened in the same "
     "process, be it from the same file: each behaves as if it were alone. A plugin of another project which is assigned to a channel or slot is copied: it reads and saves like the "
     "original, and later edits reach only the copy.",
     ["histories", "schedules"], "every interleaving of histories of several projects", "No test opens two projects and edits them alternately.",
     ["pyflp/__init__.py", E, "pyflp/plugin.py"], [("construction of events", "pyflp/__init__.py parse"), ("plugin copies", "pyflp/plugin.py PluginProp.__set__"),
      ("state per object", "pyflp/_events.py EventBase, pyflp/mixer.py MixerParamsEvent.items_")], COMMON)
prop("C25", "Events added to or removed from a model show in the models and the file",
     "An event inserted into or removed from the events of any model of a project - at any place, in any number, between any edits - changes what the models show exactly like a file with "
     "that event at that place: an attribute whose event came now reads and writes it, one whose event went reads as absent, everything else of the project reads as before, and what is saved "
     "holds the events in the resulting order and opens to the same values.",
     ["histories", "inputs"], "every history of insertions and removals through the events of any model, edits, saves and openings",
     "Tests edit event trees alone, never the models which show them.",
     [E, "pyflp/_models.py", "pyflp/_descriptors.py"], [("shared root indexes", "pyflp/_events.py EventTree.insert, pop, remove"), ("lookups of attributes", "pyflp/_descriptors.py EventProp, pyflp/_events.py EventTree.first, get")], COMMON)
prop("C26", "Iterations under way at the same time do not know of each other",
     "Any number of iterations over channels, groups, patterns, notes, controllers, markers, arrangements, tracks, items, inserts, slots or points may be under way at once, over the same or "
     "different collections, in any interleaving with each other, with reads, edits and saves, and may be left half way: each yields every model exactly once, in order, showing "
     "what it holds at that time, and then ends.",
     ["schedules", "histories"], "every interleaving of iterations, reads and edits", "Tests run one iteration at a time.",
     ["pyflp/channel.py", "pyflp/pattern.py", "pyflp/arrangement.py", "pyflp/mixer.py", E],
     [("lazy partitions", "pyflp/_events.py EventTree.divide, subtrees, group, separate"), ("iterators", "pyflp/channel.py ChannelRack.__iter__, pyflp/mixer.py Mixer.__iter__, Insert.__iter__, pyflp/arrangement.py Arrangement.tracks")], COMMON)
