From 4450dbe3c1a94e7c7e01835c082f4ac96ac12d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 01/29] fix: allow inserting / appending an event at the end of
 a non-empty EventTree

---
 pyflp/_events.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..4fe41cf 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -516,7 +516,10 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if pos == len(self) and pos:  # After the last event of this tree
+            rootidx = self.lst[-1].r + 1
+        else:
+            rootidx = sorted(self.indexes)[pos] if len(self) else 0
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
-- 
2.43.0


From 78b3e9adedd80bc2036470e95bc2e0582b15b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 02/29] fix: share a single IndexedEvent between all trees an
 event is inserted into

---
 pyflp/_events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 4fe41cf..04cd8d2 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -527,7 +527,9 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        # All views must share the same object for root index shifts to propagate
+        ie = IndexedEvent(rootidx, e)
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From 77225e28fd2d4f1135b44daa6dd1b3e6c43b6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 03/29] fix: EventTree += event no longer rebinds the tree to
 None

---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 04cd8d2..9a6ba4a 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -443,10 +443,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
-- 
2.43.0


From cb02b7a42f41d582fea970c86e49cb9451d0eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 04/29] fix: save() writes the channel count of the project,
 not the number of rack channels

---
 pyflp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..442d5c6 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,7 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
+    num_channels = project.channel_count
     header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
-- 
2.43.0


From bca90a34fb62c1155341a01450b3b1730f9005f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 05/29] fix: setting Reverb.mix replaces the mix instead of
 adding to it

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..c50f9c4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From 6f4d99e3d92fcc8aa64b68727ce7a609a4338261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 06/29] fix: RemoteController.parameter and controls_vst use
 the stored value

---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..ec1cc67 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        event = cast(StructEventBase, self.events.first(ControllerID.Remote))
+        if (value := event["parameter_data"]) is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        event = cast(StructEventBase, self.events.first(ControllerID.Remote))
+        if (value := event["parameter_data"]) is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From 7a0b78b820429cd525eef59bdb8606e98d7fe878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 07/29] fix: setting Note.key from a note name

---
 pyflp/pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..fd15360 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -156,9 +156,10 @@ class Note(ItemModel[NotesEvent]):
             self["key"] = value
         else:
             for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
+                octave = value[len(name) :]
+                if value == f"{name}{octave}" and octave in map(str, range(11)):
+                    self["key"] = int(octave) * 12 + i
+                    return
             raise ValueError(f"Invalid key name: {value}")
 
     length = StructProp[int]()
-- 
2.43.0


From 4ef03806c5e6ce4db896cbf2b8444654f1f4ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 08/29] fix: setting a VST flag changes that flag instead of
 bit 0

---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..ddea487 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -496,9 +496,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
+                    e["data"][self._prop] &= ~self._flag
                 break
 
 
-- 
2.43.0


From 6772ed86bb68396a2dbfca18310a74a6c0e96e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 09/29] fix: setting a VST option changes that option instead
 of the whole section

---
 pyflp/plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ddea487..53b0988 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -473,7 +473,10 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                else:
+                    e["data"][self._prop] = value
                 break
 
 
-- 
2.43.0


From 22c6c1a2ee98e23e7e459dfc49fc97b04fd07c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:38 +0000
Subject: [PATCH 10/29] fix: tempo setter rounds to the nearest thousandth
 instead of truncating

---
 pyflp/project.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..aabc696 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -471,14 +470,13 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
-            self.events.first(ProjectID._TempoFine).value = tempo_fine
+            self.events.first(ProjectID._TempoFine).value = round(value * 1000) % 1000
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = round(value * 1000) // 1000
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From 2abc90e69fd66e7cbd88e903eeab8a7a69295753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 11/29] fix: Arp properties look up their prefixed field names

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index c50f9c4..ea18cdd 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 643a673fd0c8ed663b87cb39e5948f67bba52511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 12/29] fix: a property of a model without any event reads as
 its default

---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..1112615 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From 1846a7601aead777d6e294e2da8cff9bc1aa9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 13/29] fix: setting a flag an old event does not store raises
 PropertyCannotBeSet

---
 pyflp/_descriptors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 1112615..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
-- 
2.43.0


From 385df74a9df5caa68103560d7add67a5197f8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 14/29] fix: slices of model collections support open bounds,
 negative indexes and steps

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 7857964cd86f217273ef5601a7e6c7e1d80fcf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 15/29] fix: Log2 rounds to the nearest integer so that values
 survive a save

---
 pyflp/_adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..d63cb03 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
-- 
2.43.0


From 2ca4f584a71c70d3fd0b004be44ed525ec904884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 16/29] fix: track heights are rounded to the nearest
 percentage so that they survive a save

---
 pyflp/arrangement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From bf69794c57fdbb23078aae351c90ff4a0b73e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 17/29] fix: tempo of a project which only has a fine tempo
 event

---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index aabc696..e807157 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -453,7 +453,7 @@ class Project(EventModel):
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
         if ProjectID._TempoFine in self.events.ids:
-            tempo += self.events.first(ProjectID._TempoFine).value / 1000
+            tempo = (tempo or 0) + self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
     @tempo.setter
-- 
2.43.0


From 7b62f2d65ffb0bfaac7deffec84e81d8bb96e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 18/29] fix: events of mixer plugins are not a part of the
 channel rack

---
 pyflp/project.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index e807157..cc5d7c5 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -208,11 +208,19 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
+        inserts_began = False
+
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
+
             if e.id == InsertID.Flags:
-                return False
+                inserts_began = True
+
+            if e.id in (*ChannelID, *DisplayGroupID, *RackID):
+                return True
 
-            if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
+            # * Prevents accidentally passing on plugins of mixer slots
+            if e.id in PluginID and not inserts_began:
                 return True
 
         return ChannelRack(
-- 
2.43.0


From 566b3749c3586c19dc526713cbaa8f44a3c34bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 19/29] fix: Insert.output returns the output of that insert,
 not the previous one

---
 pyflp/mixer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..5a63e14 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 import dataclasses
 import enum
+import itertools
 from collections import defaultdict
 from typing import Any, DefaultDict, Iterator, NamedTuple, cast
 
@@ -37,6 +38,7 @@ from pyflp._events import (
     EventTree,
     I16Event,
     I32Event,
+    IndexedEvent,
     ListEventBase,
     StructEventBase,
     U16Event,
@@ -597,19 +599,22 @@ class Mixer(EventModel, ModelCollection[Insert]):
                 return insert
         raise ModelNotFound(i)
 
-    def __iter__(self) -> Iterator[Insert]:
-        def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+    def _insert_trees(self) -> Iterator[EventTree]:
+        el: list[IndexedEvent] = []
+        for ie in self.events.lst:
+            if ie.e.id in (*InsertID, *PluginID, *SlotID):
+                el.append(ie)
 
-            if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+            if ie.e.id == InsertID.Output:  # Marks the end of an insert
+                yield EventTree(self.events, el)
+                el = []
 
+    def __iter__(self) -> Iterator[Insert]:
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
-        for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
+        for i, ed in enumerate(itertools.islice(self._insert_trees(), self.max_inserts)):
             if i in params:
                 yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
             else:
-- 
2.43.0


From 92e8b076ad89f0d0bfa076b481d1ee162e29ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 20/29] fix: inserts without stored parameters and parameters
 of effect slots

---
 pyflp/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 5a63e14..e6bc4a6 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -319,8 +319,8 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: dict[int, dict[str, Any]] | None = None) -> None:
+        super().__init__(events, params=_InsertItems(own={} if params is None else params))
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -381,6 +381,7 @@ class Insert(EventModel, ModelCollection[Slot]):
     """
 
     def __init__(self, events: EventTree, **kw: Unpack[_InsertKW]) -> None:
+        kw.setdefault("params", _InsertItems())
         super().__init__(events, **kw)
 
     # TODO Add number of used slots
-- 
2.43.0


From 103a445c2cdb2cd1f2ce8c2cdf67033c851f0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:15 +0000
Subject: [PATCH 21/29] fix: an absent optional flag is no longer written when
 saving a short payload

---
 pyflp/_adapters.py   |  5 +++++
 pyflp/arrangement.py | 10 +++++-----
 pyflp/channel.py     | 18 +++++++++---------
 pyflp/plugin.py      |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index d63cb03..4e4126d 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -30,6 +30,11 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
     c.Int32ul, lambda obj_, *_: bool(obj_), lambda obj_, *_: int(obj_)  # type: ignore
 )
 
+OptionalFlag = c.Optional(
+    # Unlike :class:`c.Flag` this doesn't build from None, i.e. an absent field
+    c.ExprAdapter(c.Flag, lambda obj_, *_: obj_, lambda obj_, *_: int(obj_))  # type: ignore
+)
+
 
 class List2Tuple(SimpleAdapter[Any, Tuple[int, int]]):
     def _decode(self, obj: c.ListContainer[int], *_: Any) -> tuple[int, int]:
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..3c56eb3 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OptionalFlag, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -133,18 +133,18 @@ class TrackEvent(StructEventBase):
         "iid" / c.Optional(c.Int32ul),  # 4
         "color" / c.Optional(c.Int32ul),  # 8
         "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
+        "enabled" / OptionalFlag,  # 13
         "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
         "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
+        "content_locked" / OptionalFlag,  # 22
         "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
         "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
         "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
         "queued" / c.Optional(FourByteBool),  # 38
         "tolerant" / c.Optional(FourByteBool),  # 42
         "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
+        "grouped" / OptionalFlag,  # 47
+        "locked" / OptionalFlag,  # 48
         "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index ea18cdd..70d171b 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,7 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, OptionalFlag, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -247,25 +247,25 @@ class StretchMode(ct.EnumBase):
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
+        "fx.remove_dc" / OptionalFlag,  # 10
         "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
+        "keyboard.main_pitch" / OptionalFlag,  # 12
         "_u2" / c.Optional(c.Bytes(28)),  # 40
         "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
         "arp.range" / c.Optional(c.Int32ul),  # 48
         "arp.chord" / c.Optional(c.Int32ul),  # 52
         "arp.time" / c.Optional(c.Float32l),  # 56
         "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
+        "arp.slide" / OptionalFlag,  # 61
         "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
+        "time.full_porta" / OptionalFlag,  # 63
+        "keyboard.add_root" / OptionalFlag,  # 64
         "time.gate" / c.Optional(c.Int16ul),  # 66
         "_u4" / c.Optional(c.Bytes(2)),  # 68
         "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
         "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
+        "fx.normalize" / OptionalFlag,  # 81
+        "fx.inverted" / OptionalFlag,  # 82
         "_u6" / c.Optional(c.Bytes(1)),  # 83
         "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
         "fx.crossfade" / c.Optional(c.Int32ul),  # 88
@@ -282,7 +282,7 @@ class ParametersEvent(StructEventBase):
         "_u9" / c.Optional(c.Bytes(3)),  # 148
         "playback.start_offset" / c.Optional(c.Int32ul),  # 152
         "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "fx.fix_trim" / OptionalFlag,  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 53b0988..9c973e1 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OptionalFlag, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -280,7 +280,7 @@ class VSTPluginEvent(StructEventBase):
         "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
         "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
         "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "fast_idle" / OptionalFlag,  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From bd14851a6bff43762053f426e60595fcd99b4e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:23 +0000
Subject: [PATCH 22/29] fix: FL versions with a build number can be compared
 with ones without

---
 pyflp/types.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..b1412b9 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,13 +30,26 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: object) -> bool:
+        """Compares all parts in order; no build number is less than any build number."""
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+
+        return self._parts < o._parts
+
+    @property
+    def _parts(self) -> tuple[int, int, int, int]:
+        build = -1 if self.build is None else self.build
+        return self.major, self.minor, self.patch, build
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From b0d34ebba7db1e35d62a7f860451313d04cf0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 23/29] fix: a value an optional field can't store is refused
 instead of dropped when saving

---
 pyflp/_adapters.py   |   8 ++-
 pyflp/arrangement.py |  30 +++++----
 pyflp/channel.py     | 148 +++++++++++++++++++++++--------------------
 pyflp/controller.py  |  15 +++--
 pyflp/mixer.py       |   8 +--
 pyflp/plugin.py      |  30 ++++-----
 6 files changed, 128 insertions(+), 111 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 4e4126d..633db5b 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -30,7 +30,13 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
     c.Int32ul, lambda obj_, *_: bool(obj_), lambda obj_, *_: int(obj_)  # type: ignore
 )
 
-OptionalFlag = c.Optional(
+
+def OptionalField(subcon: Any) -> c.Select:
+    """Unlike `c.Optional` this never skips a value which can't be built."""
+    return c.Select(subcon, c.Const(None, c.Pass))
+
+
+OptionalFlag = OptionalField(
     # Unlike :class:`c.Flag` this doesn't build from None, i.e. an absent field
     c.ExprAdapter(c.Flag, lambda obj_, *_: obj_, lambda obj_, *_: int(obj_))  # type: ignore
 )
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 3c56eb3..3a50e8e 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, OptionalFlag, StdEnum
+from pyflp._adapters import FourByteBool, OptionalField, OptionalFlag, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -64,7 +64,9 @@ __all__ = [
 
 
 class PLSelectionEvent(StructEventBase):
-    STRUCT = c.Struct("start" / c.Optional(c.Int32ul), "end" / c.Optional(c.Int32ul)).compile()
+    STRUCT = c.Struct(
+        "start" / OptionalField(c.Int32ul), "end" / OptionalField(c.Int32ul)
+    ).compile()
 
 
 class PlaylistEvent(ListEventBase):
@@ -130,22 +132,22 @@ class HeightAdapter(ct.Adapter[float, float, str, str]):
 
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
-        "iid" / c.Optional(c.Int32ul),  # 4
-        "color" / c.Optional(c.Int32ul),  # 8
-        "icon" / c.Optional(c.Int32ul),  # 12
+        "iid" / OptionalField(c.Int32ul),  # 4
+        "color" / OptionalField(c.Int32ul),  # 8
+        "icon" / OptionalField(c.Int32ul),  # 12
         "enabled" / OptionalFlag,  # 13
-        "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
-        "locked_height" / c.Optional(c.Int32sl),  # 21
+        "height" / OptionalField(HeightAdapter(c.Float32l)),  # 17
+        "locked_height" / OptionalField(c.Int32sl),  # 21
         "content_locked" / OptionalFlag,  # 22
-        "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
-        "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
-        "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
-        "queued" / c.Optional(FourByteBool),  # 38
-        "tolerant" / c.Optional(FourByteBool),  # 42
-        "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
+        "motion" / OptionalField(StdEnum[TrackMotion](c.Int32ul)),  # 26
+        "press" / OptionalField(StdEnum[TrackPress](c.Int32ul)),  # 30
+        "trigger_sync" / OptionalField(StdEnum[TrackSync](c.Int32ul)),  # 34
+        "queued" / OptionalField(FourByteBool),  # 38
+        "tolerant" / OptionalField(FourByteBool),  # 42
+        "position_sync" / OptionalField(StdEnum[TrackSync](c.Int32ul)),  # 46
         "grouped" / OptionalFlag,  # 47
         "locked" / OptionalFlag,  # 48
-        "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
+        "_u1" / OptionalField(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index 70d171b..be6bb73 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,15 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, OptionalFlag, StdEnum
+from pyflp._adapters import (
+    LinearMusical,
+    List2Tuple,
+    Log2,
+    LogNormal,
+    OptionalField,
+    OptionalFlag,
+    StdEnum,
+)
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -121,11 +129,11 @@ class AutomationEvent(StructEventBase):
 
 class DelayEvent(StructEventBase):
     STRUCT = c.Struct(
-        "feedback" / c.Optional(c.Int32ul),
-        "pan" / c.Optional(c.Int32sl),
-        "pitch_shift" / c.Optional(c.Int32sl),
-        "echoes" / c.Optional(c.Int32ul),
-        "time" / c.Optional(c.Int32ul),
+        "feedback" / OptionalField(c.Int32ul),
+        "pan" / OptionalField(c.Int32sl),
+        "pitch_shift" / OptionalField(c.Int32sl),
+        "echoes" / OptionalField(c.Int32ul),
+        "time" / OptionalField(c.Int32ul),
     ).compile()
 
 
@@ -149,33 +157,33 @@ class LFOShape(ct.EnumBase):
 # FL Studio 2.5.0+
 class EnvelopeLFOEvent(StructEventBase):
     STRUCT = c.Struct(
-        "flags" / c.Optional(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
-        "envelope.enabled" / c.Optional(c.Int32sl),  # 8
-        "envelope.predelay" / c.Optional(c.Int32sl),  # 12
-        "envelope.attack" / c.Optional(c.Int32sl),  # 16
-        "envelope.hold" / c.Optional(c.Int32sl),  # 20
-        "envelope.decay" / c.Optional(c.Int32sl),  # 24
-        "envelope.sustain" / c.Optional(c.Int32sl),  # 28
-        "envelope.release" / c.Optional(c.Int32sl),  # 32
-        "envelope.amount" / c.Optional(c.Int32sl),  # 36
-        "lfo.predelay" / c.Optional(c.Int32ul),  # 40
-        "lfo.attack" / c.Optional(c.Int32ul),  # 44
-        "lfo.amount" / c.Optional(c.Int32sl),  # 48
-        "lfo.speed" / c.Optional(c.Int32ul),  # 52
-        "lfo.shape" / c.Optional(StdEnum[LFOShape](c.Int32sl)),  # 56
-        "envelope.attack_tension" / c.Optional(c.Int32sl),  # 60
-        "envelope.decay_tension" / c.Optional(c.Int32sl),  # 64
-        "envelope.release_tension" / c.Optional(c.Int32sl),  # 68
+        "flags" / OptionalField(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
+        "envelope.enabled" / OptionalField(c.Int32sl),  # 8
+        "envelope.predelay" / OptionalField(c.Int32sl),  # 12
+        "envelope.attack" / OptionalField(c.Int32sl),  # 16
+        "envelope.hold" / OptionalField(c.Int32sl),  # 20
+        "envelope.decay" / OptionalField(c.Int32sl),  # 24
+        "envelope.sustain" / OptionalField(c.Int32sl),  # 28
+        "envelope.release" / OptionalField(c.Int32sl),  # 32
+        "envelope.amount" / OptionalField(c.Int32sl),  # 36
+        "lfo.predelay" / OptionalField(c.Int32ul),  # 40
+        "lfo.attack" / OptionalField(c.Int32ul),  # 44
+        "lfo.amount" / OptionalField(c.Int32sl),  # 48
+        "lfo.speed" / OptionalField(c.Int32ul),  # 52
+        "lfo.shape" / OptionalField(StdEnum[LFOShape](c.Int32sl)),  # 56
+        "envelope.attack_tension" / OptionalField(c.Int32sl),  # 60
+        "envelope.decay_tension" / OptionalField(c.Int32sl),  # 64
+        "envelope.release_tension" / OptionalField(c.Int32sl),  # 68
     ).compile()
 
 
 class LevelAdjustsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "_u1" / c.Optional(c.Int32ul),  # 12
-        "mod_x" / c.Optional(c.Int32sl),  # 16
-        "mod_y" / c.Optional(c.Int32sl),  # 20
+        "pan" / OptionalField(c.Int32sl),  # 4
+        "volume" / OptionalField(c.Int32ul),  # 8
+        "_u1" / OptionalField(c.Int32ul),  # 12
+        "mod_x" / OptionalField(c.Int32sl),  # 16
+        "mod_y" / OptionalField(c.Int32sl),  # 20
     ).compile()
 
 
@@ -192,12 +200,12 @@ class FilterType(ct.EnumBase):
 
 class LevelsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "pitch_shift" / c.Optional(c.Int32sl),  # 12
-        "filter.mod_x" / c.Optional(c.Int32ul),  # 16
-        "filter.mod_y" / c.Optional(c.Int32ul),  # 20
-        "filter.type" / c.Optional(StdEnum[FilterType](c.Int32ul)),  # 24
+        "pan" / OptionalField(c.Int32sl),  # 4
+        "volume" / OptionalField(c.Int32ul),  # 8
+        "pitch_shift" / OptionalField(c.Int32sl),  # 12
+        "filter.mod_x" / OptionalField(c.Int32ul),  # 16
+        "filter.mod_y" / OptionalField(c.Int32ul),  # 20
+        "filter.type" / OptionalField(StdEnum[FilterType](c.Int32ul)),  # 24
     ).compile()
 
 
@@ -246,42 +254,42 @@ class StretchMode(ct.EnumBase):
 
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
+        "_u1" / OptionalField(c.Bytes(9)),  # 9
         "fx.remove_dc" / OptionalFlag,  # 10
-        "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
+        "delay.flags" / OptionalField(StdEnum[_DelayFlags](c.Int8ul)),  # 11
         "keyboard.main_pitch" / OptionalFlag,  # 12
-        "_u2" / c.Optional(c.Bytes(28)),  # 40
-        "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
-        "arp.range" / c.Optional(c.Int32ul),  # 48
-        "arp.chord" / c.Optional(c.Int32ul),  # 52
-        "arp.time" / c.Optional(c.Float32l),  # 56
-        "arp.gate" / c.Optional(c.Float32l),  # 60
+        "_u2" / OptionalField(c.Bytes(28)),  # 40
+        "arp.direction" / OptionalField(StdEnum[ArpDirection](c.Int32ul)),  # 44
+        "arp.range" / OptionalField(c.Int32ul),  # 48
+        "arp.chord" / OptionalField(c.Int32ul),  # 52
+        "arp.time" / OptionalField(c.Float32l),  # 56
+        "arp.gate" / OptionalField(c.Float32l),  # 60
         "arp.slide" / OptionalFlag,  # 61
-        "_u3" / c.Optional(c.Bytes(1)),  # 62
+        "_u3" / OptionalField(c.Bytes(1)),  # 62
         "time.full_porta" / OptionalFlag,  # 63
         "keyboard.add_root" / OptionalFlag,  # 64
-        "time.gate" / c.Optional(c.Int16ul),  # 66
-        "_u4" / c.Optional(c.Bytes(2)),  # 68
-        "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
-        "_u5" / c.Optional(c.Bytes(4)),  # 80
+        "time.gate" / OptionalField(c.Int16ul),  # 66
+        "_u4" / OptionalField(c.Bytes(2)),  # 68
+        "keyboard.key_region" / OptionalField(List2Tuple(c.Int32ul[2])),  # 76
+        "_u5" / OptionalField(c.Bytes(4)),  # 80
         "fx.normalize" / OptionalFlag,  # 81
         "fx.inverted" / OptionalFlag,  # 82
-        "_u6" / c.Optional(c.Bytes(1)),  # 83
-        "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
-        "fx.crossfade" / c.Optional(c.Int32ul),  # 88
-        "fx.trim" / c.Optional(c.Int32ul),  # 92
-        "arp.repeat" / c.Optional(c.Int32ul),  # 96; FL 4.5.2+
-        "stretching.time" / c.Optional(LinearMusical(c.Int32ul)),  # 100
-        "stretching.pitch" / c.Optional(c.Int32sl),  # 104
-        "stretching.multiplier" / c.Optional(Log2(c.Int32sl, 10000)),  # 108
-        "stretching.mode" / c.Optional(StdEnum[StretchMode](c.Int32sl)),  # 112
-        "_u7" / c.Optional(c.Bytes(21)),  # 133
-        "fx.start" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
-        "_u8" / c.Optional(c.Bytes(4)),  # 141
-        "fx.length" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
-        "_u9" / c.Optional(c.Bytes(3)),  # 148
-        "playback.start_offset" / c.Optional(c.Int32ul),  # 152
-        "_u10" / c.Optional(c.Bytes(5)),  # 157
+        "_u6" / OptionalField(c.Bytes(1)),  # 83
+        "content.declick_mode" / OptionalField(StdEnum[DeclickMode](c.Int8ul)),  # 84
+        "fx.crossfade" / OptionalField(c.Int32ul),  # 88
+        "fx.trim" / OptionalField(c.Int32ul),  # 92
+        "arp.repeat" / OptionalField(c.Int32ul),  # 96; FL 4.5.2+
+        "stretching.time" / OptionalField(LinearMusical(c.Int32ul)),  # 100
+        "stretching.pitch" / OptionalField(c.Int32sl),  # 104
+        "stretching.multiplier" / OptionalField(Log2(c.Int32sl, 10000)),  # 108
+        "stretching.mode" / OptionalField(StdEnum[StretchMode](c.Int32sl)),  # 112
+        "_u7" / OptionalField(c.Bytes(21)),  # 133
+        "fx.start" / OptionalField(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
+        "_u8" / OptionalField(c.Bytes(4)),  # 141
+        "fx.length" / OptionalField(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
+        "_u9" / OptionalField(c.Bytes(3)),  # 148
+        "playback.start_offset" / OptionalField(c.Int32ul),  # 152
+        "_u10" / OptionalField(c.Bytes(5)),  # 157
         "fx.fix_trim" / OptionalFlag,  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
@@ -296,18 +304,18 @@ class _PolyphonyFlags(enum.IntFlag):
 
 class PolyphonyEvent(StructEventBase):
     STRUCT = c.Struct(
-        "max" / c.Optional(c.Int32ul),  # 4
-        "slide" / c.Optional(c.Int32ul),  # 8
-        "flags" / c.Optional(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
+        "max" / OptionalField(c.Int32ul),  # 4
+        "slide" / OptionalField(c.Int32ul),  # 8
+        "flags" / OptionalField(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
     ).compile()
 
 
 class TrackingEvent(StructEventBase):
     STRUCT = c.Struct(
-        "middle_value" / c.Optional(c.Int32ul),  # 4
-        "pan" / c.Optional(c.Int32sl),  # 8
-        "mod_x" / c.Optional(c.Int32sl),  # 12
-        "mod_y" / c.Optional(c.Int32sl),  # 16
+        "middle_value" / OptionalField(c.Int32ul),  # 4
+        "pan" / OptionalField(c.Int32sl),  # 8
+        "mod_x" / OptionalField(c.Int32sl),  # 12
+        "mod_y" / OptionalField(c.Int32sl),  # 16
     ).compile()
 
 
diff --git a/pyflp/controller.py b/pyflp/controller.py
index ec1cc67..83d5183 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -20,6 +20,7 @@ from typing import cast
 
 import construct as c
 
+from pyflp._adapters import OptionalField
 from pyflp._events import DATA, EventEnum, StructEventBase
 from pyflp._models import EventModel, ModelReprMixin
 
@@ -32,13 +33,13 @@ class MIDIControllerEvent(StructEventBase):
 
 class RemoteControllerEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(2)),  # 2
-        "_u2" / c.Optional(c.Byte),  # 3
-        "_u3" / c.Optional(c.Byte),  # 4
-        "parameter_data" / c.Optional(c.Int16ul),  # 6
-        "destination_data" / c.Optional(c.Int16sl),  # 8
-        "_u4" / c.Optional(c.Bytes(8)),  # 16
-        "_u5" / c.Optional(c.Bytes(4)),  # 20
+        "_u1" / OptionalField(c.Bytes(2)),  # 2
+        "_u2" / OptionalField(c.Byte),  # 3
+        "_u3" / OptionalField(c.Byte),  # 4
+        "parameter_data" / OptionalField(c.Int16ul),  # 6
+        "destination_data" / OptionalField(c.Int16sl),  # 8
+        "_u4" / OptionalField(c.Bytes(8)),  # 16
+        "_u5" / OptionalField(c.Bytes(4)),  # 20
     ).compile()
 
 
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index e6bc4a6..4103976 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -25,7 +25,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import NotRequired, TypedDict, Unpack
 
-from pyflp._adapters import StdEnum
+from pyflp._adapters import OptionalField, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NamedPropMixin, ROProperty, RWProperty
 from pyflp._events import (
     DATA,
@@ -106,9 +106,9 @@ class _MixerParamsID(ct.EnumBase):
 
 class InsertFlagsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(4)),  # 4
-        "flags" / c.Optional(StdEnum[_InsertFlags](c.Int32ul)),  # 8
-        "_u2" / c.Optional(c.Bytes(4)),  # 12
+        "_u1" / OptionalField(c.Bytes(4)),  # 4
+        "flags" / OptionalField(StdEnum[_InsertFlags](c.Int32ul)),  # 8
+        "_u2" / OptionalField(c.Bytes(4)),  # 12
     ).compile()
 
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 9c973e1..ac4101a 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, OptionalFlag, StdEnum
+from pyflp._adapters import FourByteBool, OptionalField, OptionalFlag, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -211,13 +211,13 @@ class WrapperPage(ct.EnumBase):
 
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
-        "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
-        "_u3" / c.Optional(c.Bytes(23)),  # 44
-        "width" / c.Optional(c.Int32ul),  # 48
-        "height" / c.Optional(c.Int32ul),  # 52
+        "_u1" / OptionalField(c.Bytes(16)),  # 16
+        "flags" / OptionalField(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
+        "_u2" / OptionalField(c.Bytes(2)),  # 20
+        "page" / OptionalField(StdEnum[WrapperPage](c.Int8ul)),  # 21
+        "_u3" / OptionalField(c.Bytes(23)),  # 44
+        "width" / OptionalField(c.Int32ul),  # 48
+        "height" / OptionalField(c.Int32ul),  # 52
         "_extra" / c.GreedyBytes,  # None as of 20.9.2
     ).compile()
 
@@ -269,17 +269,17 @@ class _VSTFlags2(enum.IntFlag):
 
 class VSTPluginEvent(StructEventBase):
     _MIDIStruct = c.Struct(
-        "input" / c.Optional(c.Int32sl),  # 4
-        "output" / c.Optional(c.Int32sl),  # 8
-        "pb_range" / c.Optional(c.Int32ul),  # 12
+        "input" / OptionalField(c.Int32sl),  # 4
+        "output" / OptionalField(c.Int32sl),  # 8
+        "pb_range" / OptionalField(c.Int32ul),  # 12
         "_extra" / c.GreedyBytes,  # upto 20
     ).compile()
 
     _FlagsStruct = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
-        "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
-        "_u2" / c.Optional(c.Bytes(5)),  # 22
+        "_u1" / OptionalField(c.Bytes(9)),  # 9
+        "flags" / OptionalField(StdEnum[_VSTFlags](c.Int32ul)),  # 13
+        "flags2" / OptionalField(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
+        "_u2" / OptionalField(c.Bytes(5)),  # 22
         "fast_idle" / OptionalFlag,  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
-- 
2.43.0


From 5794fbc85f4f3c254a37a5f4477adebfa093f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:55 +0000
Subject: [PATCH 24/29] fix: views of an empty event tree didn't know their
 root

---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 9a6ba4a..b33c99b 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -430,7 +430,7 @@ class EventTree:
 
         while parent is not None and parent.parent is not None:
             parent = parent.parent
-        self.root = parent or self
+        self.root = self if parent is None else parent
 
     def __contains__(self, id: EventEnum) -> bool:
         """Whether the key :attr:`id` exists in the list."""
-- 
2.43.0


From dc7a8484d9ae4a1061fc8b8b98508affb65d61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:55 +0000
Subject: [PATCH 25/29] fix: setting the pan or volume of an old channel wrote
 the value to two events

---
 pyflp/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index be6bb73..ec8a06d 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1266,6 +1266,7 @@ class Channel(EventModel):
         for id in (ChannelID._PanWord, ChannelID._PanByte):
             if id in self.events.ids:
                 self.events.first(id).value = value
+                return
 
     @property
     def volume(self) -> int | None:
@@ -1294,6 +1295,7 @@ class Channel(EventModel):
         for id in (ChannelID._VolWord, ChannelID._VolByte):
             if id in self.events.ids:
                 self.events.first(id).value = value
+                return
 
     # If the channel is not zipped, underlying event is not stored.
     @property
-- 
2.43.0


From 9bc87fab2e787da9426a0b8c78b37280e3e7d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:19 +0000
Subject: [PATCH 26/29] fix: a layer's children which come after it weren't
 found while iterating the rack

---
 pyflp/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ec8a06d..a42e395 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1569,6 +1569,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
+        channels: list[Channel] = []
         ch_dict: dict[int, Channel] = {}
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
@@ -1594,7 +1595,8 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+        yield from channels  # A layer's children can come after it
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From a061be172adc1ebde5b1099a143638320547c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:01 +0000
Subject: [PATCH 27/29] fix: an EQ parameter the file doesn't store can't be
 read or set any more with a KeyError

---
 pyflp/mixer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 4103976..981c77d 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -196,9 +196,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet(self._prop)
         ins._kw[self._prop]["msg"] = value
 
 
-- 
2.43.0


From 53c712442b38d67b0b8d38cb6b18a24b7a4916b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:01 +0000
Subject: [PATCH 28/29] fix: the dock of an insert whose flags aren't stored is
 None instead of an error

---
 pyflp/mixer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 981c77d..391f4ba 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -453,6 +453,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
-- 
2.43.0


From ab6a681e174b1c140d3035b555272127dff6e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:01 +0000
Subject: [PATCH 29/29] fix: VST options the file doesn't store read as None
 and can't be set silently

---
 pyflp/plugin.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ac4101a..7d2e71e 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -475,9 +476,12 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
+                elif e["data"][self._prop] is None:
+                    break
                 else:
                     e["data"][self._prop] = value
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -488,7 +492,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -498,11 +505,14 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
 
         for e in event["events"]:
             if e["id"] == self._id:
+                if e["data"][self._prop] is None:
+                    break
                 if value:
                     e["data"][self._prop] |= self._flag
                 else:
                     e["data"][self._prop] &= ~self._flag
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0

