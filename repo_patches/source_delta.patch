From da5e88017efdcca1ee77992791509b3c86f42e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 01/38] fix: save the project's channel count instead of
 recounting channel events

---
 pyflp/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..562344d 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From e8897f961a7fe94cc938755ffc4afc87a9c5e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:24 +0000
Subject: [PATCH 02/38] fix: write unmodified events back verbatim

---
 pyflp/_events.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..75031e6 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -122,6 +122,7 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
+        self._raw = bytes(data)
         self.value = self.STRUCT.parse(data, **self._kwds)
 
     def __eq__(self, o: object) -> bool:
@@ -138,6 +139,13 @@ class EventBase(Generic[T]):
         id = c.Byte.build(self.id)
         data = self.STRUCT.build(self.value, **self._kwds)
 
+        # STRUCT isn't always bijective (non 0 / 1 booleans, string terminators,
+        # trailing data). Don't touch the original bytes of an unmodified event.
+        if data != self._raw:
+            original = self.STRUCT.parse(self._raw, **self._kwds)
+            if data == self.STRUCT.build(original, **self._kwds):
+                data = self._raw
+
         if self.id < TEXT:
             return id + data
 
-- 
2.43.0


From d0f62ed127358f4f638fd3d0c84612011d017ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 03/38] fix: reject a variable size event truncated by the end
 of file

---
 pyflp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 562344d..c8e22ae 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,7 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -131,6 +131,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From 58cf3f78febe69cdf77d8b2432ea3c5bbe28096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 04/38] fix: EventTree.append on a non-empty tree and stale
 indexes of inserted events

---
 pyflp/_events.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 75031e6..38d193b 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -451,10 +451,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
@@ -524,7 +525,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos == len(self):
+            rootidx = max(self.indexes) + 1
+        else:
+            rootidx = sorted(self.indexes)[pos]
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -532,7 +538,9 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        # Share the same object, so that its index is shifted for all trees later.
+        ie = IndexedEvent(rootidx, e)
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From 8a7dbd1dff22ca6d3016e299921b1525ac6ba753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 05/38] fix: EventTree.divide yielding a tree when there is no
 separator

---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 38d193b..15331fd 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -500,7 +500,8 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From 9f4e848921f9d2a10a926d07e9dec0704060566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:20 +0000
Subject: [PATCH 06/38] fix: EventTree.subtrees dropping the events after the
 last boundary

---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 15331fd..a3f13bd 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -608,6 +608,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if el and repeat:
+            yield EventTree(self, el)  # Yield the last one
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
-- 
2.43.0


From 5c02d843ef25b4ed2b247be475991b7c0f81d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:25 +0000
Subject: [PATCH 07/38] fix: inserts getting the output of the insert before
 them

---
 pyflp/mixer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..40c0d48 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -598,12 +598,15 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
+        output_occured = False
+
         def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+            nonlocal output_occured
 
             if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+                # InsertID.Output is the last event of an insert
+                new_insert, output_occured = output_occured, e.id == InsertID.Output
+                return not new_insert
 
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
-- 
2.43.0


From f65cdf99e57021f51e1db8c702d4ea89848f1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:31 +0000
Subject: [PATCH 08/38] fix: slots getting the plugin of the slot after them

---
 pyflp/mixer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 40c0d48..c772e6d 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -409,7 +409,17 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
+        index_occured = False
+
+        def select(e: AnyEvent) -> bool | None:
+            nonlocal index_occured
+
+            if e.id in (*SlotID, *PluginID):
+                # SlotID.Index is the last event of a slot, its plugin occurs before
+                new_slot, index_occured = index_occured, e.id == SlotID.Index
+                return not new_slot
+
+        for idx, ed in enumerate(self.events.subtrees(select, -1)):
             yield Slot(ed, params=self._kw["params"].slots[idx])
 
     def __len__(self) -> int:
-- 
2.43.0


From d430773953b99c725e7cc69f3ffb6ccb36152510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 09/38] fix: Slot.enabled, Slot.mix and missing mixer
 parameters

---
 pyflp/mixer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index c772e6d..e2533e4 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -194,9 +194,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
         ins._kw[self._prop]["msg"] = value
 
 
@@ -317,8 +320,8 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: dict[int, dict[str, Any]] | None = None) -> None:
+        super().__init__(events, params=_InsertItems(own=params or {}))
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -626,7 +629,8 @@ class Mixer(EventModel, ModelCollection[Insert]):
             if i in params:
                 yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
             else:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+                items = _InsertItems()
+                yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=items)
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From 35e0abafd5ea9276a569ca9858744d1e3d915348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 10/38] fix: flags which are absent in a shorter event

---
 pyflp/_descriptors.py | 3 +++
 pyflp/mixer.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..c43a6dc 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index e2533e4..c6b63ae 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -460,6 +460,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
-- 
2.43.0


From 25d1a7ee60d32b805fe5bd3e12ccdcf8f3de855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:52 +0000
Subject: [PATCH 11/38] fix: properties of nested channel models whose event is
 absent

---
 pyflp/_descriptors.py |  2 +-
 pyflp/channel.py      | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index c43a6dc..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..2152c75 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -497,22 +497,30 @@ class Delay(EventModel, ModelReprMixin):
     """
 
     @property
-    def mod_x(self) -> int:
+    def mod_x(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[0]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[0]
 
     @mod_x.setter
     def mod_x(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (value, event.value[1])
 
     @property
-    def mod_y(self) -> int:
+    def mod_y(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[1]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[1]
 
     @mod_y.setter
     def mod_y(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (event.value[0], value)
 
-- 
2.43.0


From 8557fd1252749f4b4a9cc0aab7a9b4bc5e1a29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:58 +0000
Subject: [PATCH 12/38] fix: Arp properties

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 2152c75..0d83cde 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From ac7f93892602921af5d44365c6da9714507e9468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:03 +0000
Subject: [PATCH 13/38] fix: Reverb.mix setter adding to the old mix

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 0d83cde..93db958 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -659,7 +659,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From b8fe76983eadb5ae6dde6b7ab0915040ab6ef438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:09 +0000
Subject: [PATCH 14/38] fix: layers whose children come after them in the rack

---
 pyflp/channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 93db958..55f1826 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1568,6 +1568,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
         ch_dict: dict[int, Channel] = {}
+        channels: list[Channel] = []
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
         for et in self.events.divide(ChannelID.New, *ChannelID, *PluginID):
@@ -1592,7 +1593,9 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+
+        yield from channels  # All at once, as layers can have children after them
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From 92a7391e4342ac9fe7eab4f4f1023641d4ed293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:14 +0000
Subject: [PATCH 15/38] fix: last channel getting the plugin events of mixer
 slots

---
 pyflp/project.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..6441918 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -208,9 +208,16 @@ class Project(EventModel):
     @property
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
+        inserts_began = False
 
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
+
             if e.id == InsertID.Flags:
+                inserts_began = True
+
+            # * Prevents passing on the slots' plugin events to the last channel
+            if e.id in PluginID and inserts_began:
                 return False
 
             if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
-- 
2.43.0


From 8e0c90231c8d7d8da0f7ea3079e1132c469b4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:54 +0000
Subject: [PATCH 16/38] fix: Note.key not accepting note names

---
 pyflp/pattern.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..4e1b07e 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -155,11 +155,10 @@ class Note(ItemModel[NotesEvent]):
                 raise ValueError("Expected a value between 0-131.")
             self["key"] = value
         else:
-            for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
-            raise ValueError(f"Invalid key name: {value}")
+            name, octave = value.rstrip("0123456789"), value.lstrip("ABCDEFG#")
+            if name not in self._NOTE_NAMES or name + octave != value:
+                raise ValueError(f"Invalid key name: {value}")
+            self.key = int(octave) * 12 + self._NOTE_NAMES.index(name)
 
     length = StructProp[int]()
     """Returns 0 for notes punched in through step sequencer."""
-- 
2.43.0


From 4167321dfe68e9b99da223c9aba5f71b213d4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:00 +0000
Subject: [PATCH 17/38] fix: RemoteController properties using the result of a
 comparison

---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..f152be0 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From f7a1c0aadfab5631e3ab0ee95a1e0fd9a21cc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 18/38] fix: VSTPlugin property setters

---
 pyflp/plugin.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..ff6d3e3 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -473,8 +474,14 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
-                break
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                elif e["data"][self._prop] is None:
+                    break
+                else:
+                    e["data"][self._prop] = value
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -485,7 +492,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -494,12 +504,13 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
             value = not value
 
         for e in event["events"]:
-            if e["id"] == self._id:
+            if e["id"] == self._id and e["data"][self._prop] is not None:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
-                break
+                    e["data"][self._prop] &= ~self._flag
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 12716645211582173ba587af9e881107880fc7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:10 +0000
Subject: [PATCH 19/38] fix: open ended, negative and stepped slices of model
 collections

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 62e7128017f42438d5492ac45392ac583091da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:16 +0000
Subject: [PATCH 20/38] fix: ordering FL versions with and without a build

---
 pyflp/types.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..672aafb 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,8 +14,9 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
-from dataclasses import dataclass
+from dataclasses import astuple, dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
 
 import construct
@@ -29,13 +30,22 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+        # A version without a build is considered to be older than one with it
+        return tuple(-1 if i is None else i for i in astuple(self)) < tuple(
+            -1 if i is None else i for i in astuple(o)
+        )
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From a7397666b07c36cf5d654e661043bf41bb1aae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 21/38] fix: bipolar knobs of native effects read as unsigned

---
 pyflp/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ff6d3e3..4866bf5 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -97,7 +97,7 @@ class FruitKickEvent(StructEventBase):
 
 
 class FruityBalanceEvent(StructEventBase):
-    STRUCT = c.Struct("pan" / c.Int32ul, "volume" / c.Int32ul).compile()
+    STRUCT = c.Struct("pan" / c.Int32sl, "volume" / c.Int32ul).compile()
 
 
 class FruityBloodOverdriveEvent(StructEventBase):
@@ -164,8 +164,8 @@ class FruityStereoEnhancerEvent(StructEventBase):
     STRUCT = c.Struct(
         "pan" / c.Int32sl,
         "volume" / c.Int32ul,
-        "stereo_separation" / c.Int32ul,
-        "phase_offset" / c.Int32ul,
+        "stereo_separation" / c.Int32sl,
+        "phase_offset" / c.Int32sl,
         "effect_position" / c.Enum(c.Int32ul, pre=0, post=1),
         "phase_inversion" / c.Enum(c.Int32ul, none=0, left=1, right=2),
     ).compile()
-- 
2.43.0


From 59554eeac68c1db70c41b409aa69757d6cc486a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:28 +0000
Subject: [PATCH 22/38] fix: tempo getting truncated by floating point errors

---
 pyflp/project.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6441918..ec95c14 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -478,14 +478,14 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
+        tempo_coarse, tempo_fine = divmod(round(value * 1000), 1000)
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
             self.events.first(ProjectID._TempoFine).value = tempo_fine
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = tempo_coarse
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From c8fd34b7bb22893f3e609539a9ac8662ff7c5824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 23/38] fix: values getting truncated by floating point errors

---
 pyflp/_adapters.py   | 4 ++--
 pyflp/arrangement.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From 2127cf88866a2d8dad31e90f0d95cff41c08fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:39 +0000
Subject: [PATCH 24/38] fix: plugin wrapper flags above the 16th bit

---
 pyflp/plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 4866bf5..4e699ac 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -213,8 +213,7 @@ class WrapperPage(ct.EnumBase):
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
+        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
         "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
         "_u3" / c.Optional(c.Bytes(23)),  # 44
         "width" / c.Optional(c.Int32ul),  # 48
-- 
2.43.0


From 30692e9bc81ed80efba78f0b3802b1259a078cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 25/38] fix: loop_pos getting half set in a shorter event

---
 pyflp/arrangement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..7f28c75 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -529,6 +529,8 @@ class Arrangements(EventModel, ModelCollection[Arrangement]):
     def loop_pos(self, value: tuple[int, int]) -> None:
         if ArrangementsID.PLSelection in self.events:
             event = cast(PLSelectionEvent, self.events.first(ArrangementsID.PLSelection))
+            if event["start"] is None or event["end"] is None:
+                raise PropertyCannotBeSet(ArrangementsID.PLSelection)
             event["start"], event["end"] = value
         elif ArrangementsID._LoopPos in self.events:
             self.events.first(ArrangementsID._LoopPos).value = value
-- 
2.43.0


From e18580d85e2cad1942e0e5317c9b0fe7ef6dcfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:04 +0000
Subject: [PATCH 26/38] fix: drop an import left unused by the tempo fix

---
 pyflp/project.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index ec95c14..7bf5b4b 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
-- 
2.43.0


From 5b1d9a9f1c28495a16eb49bf717bf2a78816f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:10 +0000
Subject: [PATCH 27/38] fix: FruityNotebook2.pages not being a dict

---
 pyflp/plugin.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 4e699ac..fd15e0e 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -452,6 +452,19 @@ class _NativePluginProp(StructProp[T]):
         super().__init__(PluginID.Data, prop=prop, **kwds)
 
 
+class _NotebookPagesProp(_NativePluginProp[Dict[int, str]]):
+    def _get(self, ev_or_ins: Any) -> dict[int, str]:
+        pages = super()._get(ev_or_ins) or []
+        return {page["index"]: page["value"] for page in pages if page["index"] != -1}
+
+    def _set(self, ev_or_ins: Any, value: dict[int, str]) -> None:
+        pages = [
+            c.Container(index=index, length=len(text.encode("utf-16-le")) // 2, value=text)
+            for index, text in value.items()
+        ]
+        super()._set(ev_or_ins, c.ListContainer([*pages, c.Container(index=-1)]))
+
+
 class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def __init__(self, id: _VSTPluginEventID, prop: str | None = None) -> None:
         self._id = id
@@ -976,7 +989,7 @@ class FruityNotebook2(_PluginBase[FruityNotebook2Event], _IPlugin, ModelReprMixi
     This attribute is just a visual marker used by FL Studio.
     """
 
-    pages = _NativePluginProp[Dict[int, str]]()
+    pages = _NotebookPagesProp()
     """A dict of page numbers to their contents."""
 
 
-- 
2.43.0


From 6232151fb9f51566b7af20c39e4463d1ad51286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:14 +0000
Subject: [PATCH 28/38] fix: edited structure events losing the bytes after
 their known fields

---
 pyflp/_events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index a3f13bd..fed2f24 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -143,8 +143,12 @@ class EventBase(Generic[T]):
         # trailing data). Don't touch the original bytes of an unmodified event.
         if data != self._raw:
             original = self.STRUCT.parse(self._raw, **self._kwds)
-            if data == self.STRUCT.build(original, **self._kwds):
+            original_data = self.STRUCT.build(original, **self._kwds)
+            if data == original_data:
                 data = self._raw
+            elif isinstance(self, (StructEventBase, ListEventBase)):
+                # Bytes after the part of the structure which is known
+                data += self._raw[len(original_data) :]
 
         if self.id < TEXT:
             return id + data
-- 
2.43.0


From d65bde535e69387e6deab309aa8ac6d27514c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:14 +0000
Subject: [PATCH 29/38] fix: Insert.routes raising KeyError when there is no
 routing event

---
 pyflp/mixer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index c6b63ae..30bd489 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -529,6 +529,9 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
+        if InsertID.Routing not in self.events.ids:
+            return
+
         items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
         for id, item in cast(_InsertItems, self._kw["params"]).own.items():
             if id >= _MixerParamsID.RouteVolStart:
-- 
2.43.0


From 70620750968bf5de922b3edd4509613b232a75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:16 +0000
Subject: [PATCH 30/38] fix: out of range values getting silently left out of
 structure events

---
 pyflp/_events.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index fed2f24..f378e97 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -99,6 +99,17 @@ class EventEnum(int, enum.Enum, metaclass=_EventEnumMeta):
         # Raises ValueError in Enum.__new__
 
 
+def _same_layout(a: Any, b: Any) -> bool:
+    """Whether the same fields are present in 2 parsed structures."""
+    if isinstance(a, dict) and isinstance(b, dict):
+        return all(_same_layout(a.get(k), b[k]) for k in b if k != "_io")
+    if isinstance(a, list) and isinstance(b, list):
+        return len(a) == len(b) and all(map(_same_layout, a, b))
+    if isinstance(b, bytes):
+        return a == b
+    return (a is None) == (b is None)
+
+
 class EventBase(Generic[T]):
     """Generic ABC representing an event."""
 
@@ -147,6 +158,10 @@ class EventBase(Generic[T]):
             if data == original_data:
                 data = self._raw
             elif isinstance(self, (StructEventBase, ListEventBase)):
+                # c.Optional omits a field when its value cannot be built
+                if not _same_layout(self.STRUCT.parse(data, **self._kwds), self.value):
+                    raise ValueError(f"Cannot store {self.value!r} in event {self.id!r}")
+
                 # Bytes after the part of the structure which is known
                 data += self._raw[len(original_data) :]
 
-- 
2.43.0


From f65dae69cb1df4f4216d957ddf611e462fe0e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:52 +0000
Subject: [PATCH 31/38] fix: absent flags of a shorter structure event getting
 written when edited

---
 pyflp/_adapters.py   |  5 +++++
 pyflp/arrangement.py | 10 +++++-----
 pyflp/channel.py     | 25 ++++++++++++++++---------
 pyflp/plugin.py      |  4 ++--
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 5d3b898..bfc5974 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -26,6 +26,11 @@ from pyflp.types import ET, MusicalTime, T, U
 SimpleAdapter: TypeAlias = ct.Adapter[T, T, U, U]
 """Duplicates type parameters for `construct.Adapter`."""
 
+# Unlike c.Flag, this doesn't build `None` - an absent field inside c.Optional
+OneByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
+    c.Int8ul, lambda obj_, *_: bool(obj_), lambda obj_, *_: int(obj_)  # type: ignore
+)
+
 FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
     c.Int32ul, lambda obj_, *_: bool(obj_), lambda obj_, *_: int(obj_)  # type: ignore
 )
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 7f28c75..8a5828e 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OneByteBool, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -133,18 +133,18 @@ class TrackEvent(StructEventBase):
         "iid" / c.Optional(c.Int32ul),  # 4
         "color" / c.Optional(c.Int32ul),  # 8
         "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
+        "enabled" / c.Optional(OneByteBool),  # 13
         "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
         "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
+        "content_locked" / c.Optional(OneByteBool),  # 22
         "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
         "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
         "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
         "queued" / c.Optional(FourByteBool),  # 38
         "tolerant" / c.Optional(FourByteBool),  # 42
         "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
+        "grouped" / c.Optional(OneByteBool),  # 47
+        "locked" / c.Optional(OneByteBool),  # 48
         "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index 55f1826..06189a9 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,14 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import (
+    LinearMusical,
+    List2Tuple,
+    Log2,
+    LogNormal,
+    OneByteBool,
+    StdEnum,
+)
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -247,25 +254,25 @@ class StretchMode(ct.EnumBase):
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
+        "fx.remove_dc" / c.Optional(OneByteBool),  # 10
         "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
+        "keyboard.main_pitch" / c.Optional(OneByteBool),  # 12
         "_u2" / c.Optional(c.Bytes(28)),  # 40
         "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
         "arp.range" / c.Optional(c.Int32ul),  # 48
         "arp.chord" / c.Optional(c.Int32ul),  # 52
         "arp.time" / c.Optional(c.Float32l),  # 56
         "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
+        "arp.slide" / c.Optional(OneByteBool),  # 61
         "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
+        "time.full_porta" / c.Optional(OneByteBool),  # 63
+        "keyboard.add_root" / c.Optional(OneByteBool),  # 64
         "time.gate" / c.Optional(c.Int16ul),  # 66
         "_u4" / c.Optional(c.Bytes(2)),  # 68
         "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
         "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
+        "fx.normalize" / c.Optional(OneByteBool),  # 81
+        "fx.inverted" / c.Optional(OneByteBool),  # 82
         "_u6" / c.Optional(c.Bytes(1)),  # 83
         "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
         "fx.crossfade" / c.Optional(c.Int32ul),  # 88
@@ -282,7 +289,7 @@ class ParametersEvent(StructEventBase):
         "_u9" / c.Optional(c.Bytes(3)),  # 148
         "playback.start_offset" / c.Optional(c.Int32ul),  # 152
         "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "fx.fix_trim" / c.Optional(OneByteBool),  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index fd15e0e..b6bd07e 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OneByteBool, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -280,7 +280,7 @@ class VSTPluginEvent(StructEventBase):
         "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
         "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
         "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "fast_idle" / c.Optional(OneByteBool),  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From f14cf90eb29854f50e70d84f61785baa1ae00b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 32/38] fix: views of an empty EventTree losing their root

---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index f378e97..fe0ef49 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -457,7 +457,7 @@ class EventTree:
 
         while parent is not None and parent.parent is not None:
             parent = parent.parent
-        self.root = parent or self
+        self.root = self if parent is None else parent
 
     def __contains__(self, id: EventEnum) -> bool:
         """Whether the key :attr:`id` exists in the list."""
-- 
2.43.0


From ad18e86b100a8e8eb568ae96703d991678c6aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:02 +0000
Subject: [PATCH 33/38] fix: Assigning a plugin either applies in full or is
 refused, and no longer shares the events of the source

---
 pyflp/plugin.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index b6bd07e..c683798 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import copy
 import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
@@ -438,13 +439,16 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        ids = [id for id in (PluginID.Data, PluginID.Wrapper) if id in ins.events]
+        if PluginID.Data not in ids or not all(id in value.events for id in ids):
+            raise PropertyCannotBeSet(PluginID.Data, PluginID.Wrapper)
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
 
-        for id in (PluginID.Data, PluginID.Wrapper):
-            for ie in ins.events.lst:
-                if ie.e.id == id:
-                    ie.e = value.events.first(id)
+        for ie in ins.events.lst:
+            if ie.e.id in ids:  # A copy, as both will be edited independently
+                ie.e = copy.deepcopy(value.events.first(ie.e.id))
 
 
 class _NativePluginProp(StructProp[T]):
-- 
2.43.0


From ae3a6fa93bf2f4d6ce6b462d57c90dcc116c9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:53 +0000
Subject: [PATCH 34/38] fix: Project.version accepting a tuple of something
 else than numbers, which made the saved file unreadable

---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 7bf5b4b..8285471 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -540,7 +540,7 @@ class Project(EventModel):
         elif isinstance(value, str):
             parts = [int(part) for part in value.split(".")]
         else:
-            parts = list(value)
+            parts = [int(part) for part in value]
 
         if len(parts) < 3 or len(parts) > 4:
             raise ValueError("Expected format: major.minor.build.patch?")
-- 
2.43.0


From 435f4e820db9a8b0523291d49627b1fd46be2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:14 +0000
Subject: [PATCH 35/38] fix: VST settings refusing every value after an
 unsuitable one was assigned

---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index c683798..24feae1 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -482,7 +482,7 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
         raise AttributeError(self._id)
 
     def _get(self, value: Any) -> T:
-        return cast(T, value if isinstance(value, (str, bytes)) else value[self._prop])
+        return cast(T, value[self._prop] if isinstance(value, c.Container) else value)
 
     def __set__(self, ins: EventModel, value: T) -> None:
         self._set(cast(VSTPluginEvent, ins.events.first(PluginID.Data)), value)
@@ -490,7 +490,7 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                if isinstance(e["data"], (str, bytes)):
+                if not isinstance(e["data"], c.Container):
                     e["data"] = value
                 elif e["data"][self._prop] is None:
                     break
-- 
2.43.0


From 15657db87fa3ae9aea8786a37ed8e0576600885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 36/38] fix: fine-tuned tempo silently truncated when only a
 coarse tempo is stored

---
 pyflp/project.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 8285471..8aa7a4f 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -476,10 +476,13 @@ class Project(EventModel):
         if float(value) > max_tempo or float(value) < MIN_TEMPO:
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
+        tempo_coarse, tempo_fine = divmod(round(value * 1000), 1000)
+        if tempo_fine and not {ProjectID.Tempo, ProjectID._TempoFine} & self.events.ids:
+            raise TypeError("A fine-tuned tempo cannot be stored; use an 'int' instead")
+
         if ProjectID.Tempo in self.events.ids:
             self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
-        tempo_coarse, tempo_fine = divmod(round(value * 1000), 1000)
         if ProjectID._TempoFine in self.events.ids:
             self.events.first(ProjectID._TempoFine).value = tempo_fine
 
-- 
2.43.0


From 9a4c9360db132508bffcabd361f4f03c4e078b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:28 +0000
Subject: [PATCH 37/38] fix: reading the tempo raises when only the fine tempo
 is stored

---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 8aa7a4f..335ff58 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -459,7 +459,7 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
+        if tempo is not None and ProjectID._TempoFine in self.events.ids:
             tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
-- 
2.43.0


From 514e3a370065fc89711f18be8954a70fe0c12506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:54 +0000
Subject: [PATCH 38/38] fix: event trees and models of different content
 compare equal

---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index fe0ef49..2947ef6 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -468,7 +468,8 @@ class EventTree:
         if not isinstance(o, EventTree):
             return NotImplemented
 
-        return self.lst == o.lst
+        # An IndexedEvent is compared by its index alone
+        return [(ie.r, ie.e) for ie in self.lst] == [(ie.r, ie.e) for ie in o.lst]
 
     def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
-- 
2.43.0

