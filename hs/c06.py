"""C06: constructor guards of events and the size they report."""
from pvc.harness import Unit
from hs import frames, spec

RANGES = {"BoolEvent": (0, 64), "U8Event": (0, 64), "I8Event": (0, 64), "U16Event": (64, 128), "I16Event": (64, 128),
          "U32Event": (128, 192), "I32Event": (128, 192), "F32Event": (128, 192), "U16TupleEvent": (128, 192), "ColorEvent": (128, 192)}


def fixed(h, cls):
    from pyflp import _events as E
    from pyflp.exceptions import EventIDOutOfRange, InvalidEventChunkSize
    lo, hi = RANGES[cls]
    i = h.int("id", 0, 255)
    n = spec.width(lo)
    length = h.choice("payload length", [n, 0, 1, 2, 3, 4, 5, 8, None])
    data = h.blob("payload", 9) if length is None else h.bytes("payload", length)
    if cls == "F32Event" and length == 4:
        h.assume((data[3] & 127) < 127)
    if cls == "BoolEvent" and length == 1:
        h.assume(data[0] <= 1)
    ok_id = h.and_(i >= lo, i < hi)
    try:
        ev = getattr(E, cls)(E.EventEnum(i), data)
    except Exception as e:
        h.prove("only a wrong ID or length is refused", h.not_(h.and_(ok_id, len(data) == n)), lambda: repr(e))
        if not ok_id:
            h.prove("a wrong ID raises EventIDOutOfRange", isinstance(e, EventIDOutOfRange), lambda: repr(e))
        else:
            h.prove("a wrong length raises InvalidEventChunkSize", isinstance(e, InvalidEventChunkSize), lambda: repr(e))
        return
    h.prove("an ID out of range is refused", ok_id)
    h.prove("a payload of the wrong length is refused", len(data) == n)
    raw = bytes(ev)
    h.prove("keeps its ID", ev.id == i)
    h.proveeq("serialises to ID and payload", raw, i.to_bytes(1, "little") + data)
    h.proveeq("reports the size it serialises to", ev.size, len(raw))


def text(h, cls):
    from pyflp import _events as E
    from pyflp.exceptions import EventIDOutOfRange
    i = h.int("id", 0, 255)
    enc = "ascii" if cls == "AsciiEvent" else "utf-16-le"
    s = h.text("text", (enc,))
    data = s.encode(enc) + "\0".encode(enc)
    h.assume(len(data) < 1 << 21)
    ok = h.or_(h.and_(i >= 192, i < 208), i == 231, i == 239, i == 241)
    try:
        ev = getattr(E, cls)(E.EventEnum(i), data)
    except Exception as e:
        h.prove("only an ID that is no text ID is refused", h.not_(ok), lambda: repr(e))
        h.prove("a wrong ID raises EventIDOutOfRange", isinstance(e, EventIDOutOfRange), lambda: repr(e))
        return
    h.prove("an ID that is no text ID is refused", ok)
    raw = bytes(ev)
    h.proveeq("serialises to ID, length, payload", raw, i.to_bytes(1, "little") + spec.varint(len(data)) + data)
    h.proveeq("reports the size it serialises to", ev.size, len(raw))


def raw_data(h):
    """events without ID restriction: IDs below 192 still have their fixed width"""
    from pyflp import _events as E
    from pyflp.exceptions import InvalidEventChunkSize
    i = h.int("id", 0, 255)
    length = h.choice("payload length", [1, 2, 4, 0, 3, None])
    data = h.blob("payload", 5, 1 << 22) if length is None else h.bytes("payload", length)
    w = h.ite(i < 64, 1, h.ite(i < 128, 2, h.ite(i < 192, 4, len(data))))
    try:
        ev = E.UnknownDataEvent(E.EventEnum(i), data)
    except Exception as e:
        h.prove("only a wrong length is refused", h.not_(w == len(data)), lambda: repr(e))
        h.prove("a wrong length raises InvalidEventChunkSize", isinstance(e, InvalidEventChunkSize))
        return
    h.prove("a payload of the wrong length is refused", w == len(data))
    raw = bytes(ev)
    if i < 192:
        h.proveeq("serialises to ID and payload", raw, i.to_bytes(1, "little") + data)
    else:
        h.proveeq("serialises to ID, length, payload", raw, i.to_bytes(1, "little") + spec.varint(len(data)) + data)
    h.proveeq("reports the size it serialises to", ev.size, len(raw))


def struct_size(h, cls):
    from pyflp._events import EventEnum
    from hs.c09 import payload
    id, mode, fields = spec.LAYOUTS[cls]
    parts, data = payload(h, fields)
    ev = spec.event_class(cls)(EventEnum(id), data)
    raw = bytes(ev)
    h.proveeq("serialises to ID, length, payload", raw, bytes([id]) + spec.varint(len(data)) + data)
    h.proveeq("reports the size it serialises to", ev.size, len(raw))


def list_size(h, cls, n):
    from pyflp._events import EventEnum
    from hs.c11 import records
    fs, recs, data = records(h, cls, n, True)
    ev = spec.event_class(cls)(EventEnum(spec.LIST_LAYOUTS[cls][0]), data)
    raw = bytes(ev)
    h.proveeq("serialises to ID, length, payload", raw, bytes([spec.LIST_LAYOUTS[cls][0]]) + spec.varint(len(data)) + data)
    h.proveeq("reports the size it serialises to", ev.size, len(raw))


def units(tier):
    F = ["EventBase.__init__", "EventBase.__bytes__", "EventBase.size", "EventEnum._missing_"]
    us = [Unit("fixed-" + c, fixed, {"cls": c}, F + [c], max_s=200, audit=60) for c in RANGES]
    us += [Unit("text-" + c, text, {"cls": c}, F + [c, "StrEventBase"], max_s=200, audit=60) for c in ("AsciiEvent", "UnicodeEvent")]
    us.append(Unit("raw", raw_data, {}, F + ["UnknownDataEvent"], max_s=200, audit=60))
    us += [Unit("struct-" + c, struct_size, {"cls": c}, F + [c], max_s=100, audit=10) for c in spec.LAYOUTS]
    us += [Unit("list-" + c, list_size, {"cls": c, "n": 2}, F + [c], "bounded", max_s=100, audit=10, note="2 records") for c in spec.LIST_LAYOUTS]
    us.append(Unit("lengths", frames.lengths, {}, F, "bounded", note="run-time check of payloads of up to 2 MiB", sym=False, audit=40))
    return us
