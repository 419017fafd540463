"""C07: scalar, pair, colour and float events."""
from pvc.harness import Unit
from hs import spec


def _events():
    from pyflp import _events as E
    return E


IDS = {"bool": 0, "u8": 11, "i8": 22, "u16": 64, "i16": 80, "u32": 156, "i32": 142, "f32": 140, "u16x2": 132, "color": 128}


def decode_int(h, kind):
    E = _events()
    cls = getattr(E, spec.FIXED[kind][0])
    n = spec.FIXED[kind][1]
    id = E.EventEnum(IDS[kind])
    data = h.bytes("payload", n)
    ev = cls(id, data)
    h.prove("reads as the little-endian value", spec.signed_eq(h, ev.value, data, kind[0] == "i"), lambda: repr(ev.value))
    h.proveeq("serialises to id + payload", bytes(ev), bytes([IDS[kind]]) + data)


def assign_int(h, kind):
    E = _events()
    cls = getattr(E, spec.FIXED[kind][0])
    n = spec.FIXED[kind][1]
    lo, hi = spec.INT_RANGE[kind]
    id = E.EventEnum(IDS[kind])
    ev = cls(id, h.bytes("payload", n))
    v = h.anyint("value")
    ev.value = v
    fits = h.and_(v >= lo, v <= hi)
    try:
        raw = bytes(ev)
    except Exception:
        h.prove("only values that do not fit are refused", h.not_(fits))
        return
    h.prove("a value that does not fit is refused", fits)
    h.proveeq("reads back what was assigned", ev.value, v)
    h.proveeq("id byte", raw[0], IDS[kind])
    h.prove("stored little-endian", spec.signed_eq(h, v, raw[1:], kind[0] == "i"), lambda: repr(raw))
    h.proveeq("width", len(raw), 1 + n)
    ev2 = cls(id, raw[1:])
    h.proveeq("a reloaded event has the assigned value", ev2.value, v)


def boolean(h):
    E = _events()
    data = h.bytes("payload", 1)
    ev = E.BoolEvent(E.EventEnum(0), data)
    h.prove("reads as truth of the byte", h.eq(ev.value, data[0] != 0))
    v = h.bool("value")
    ev.value = v
    raw = bytes(ev)
    h.proveeq("reads back", ev.value, v)
    h.prove("serialises to 0/1", h.and_(len(raw) == 2, raw[0] == 0, h.eq(raw[1] == 1, v), h.or_(raw[1] == 0, raw[1] == 1)))
    if data[0] == 0 or data[0] == 1:
        e2 = E.BoolEvent(E.EventEnum(0), data)
        h.proveeq("0/1 payload survives", bytes(e2), bytes([0]) + data)


def float32(h):
    E = _events()
    data = h.bytes("payload", 4)
    nan = h.and_((data[3] & 127) == 127, data[2] >= 128)
    h.assume(h.not_(nan))
    ev = E.F32Event(E.EventEnum(140), data)
    import struct
    h.proveeq("reads as the IEEE-754 single", ev.value, struct.unpack("<f", data)[0])
    h.proveeq("serialises to id + payload", bytes(ev), bytes([140]) + data)
    other = h.bytes("other", 4)
    h.assume(h.not_(h.and_((other[3] & 127) == 127, other[2] >= 128)))
    v = struct.unpack("<f", other)[0]
    ev.value = v
    h.proveeq("reads back", ev.value, v)
    h.proveeq("stores the assigned single", bytes(ev), bytes([140]) + other)


def pair(h):
    E = _events()
    data = h.bytes("payload", 4)
    ev = E.U16TupleEvent(E.EventEnum(132), data)
    h.prove("is a pair", isinstance(ev.value, tuple) and len(ev.value) == 2)
    h.prove("first is the low word", ev.value[0] == spec.le(data[:2]))
    h.prove("second is the high word", ev.value[1] == spec.le(data[2:]))
    h.proveeq("serialises to id + payload", bytes(ev), bytes([132]) + data)


def assign_pair(h):
    E = _events()
    ev = E.U16TupleEvent(E.EventEnum(132), h.bytes("payload", 4))
    x, y = h.anyint("x"), h.anyint("y")
    ev.value = (x, y)
    fits = h.and_(x >= 0, x <= 65535, y >= 0, y <= 65535)
    try:
        raw = bytes(ev)
    except Exception:
        h.prove("only values that do not fit are refused", h.not_(fits))
        return
    h.prove("a value that does not fit is refused", fits)
    h.prove("stored little-endian, first word first", h.and_(len(raw) == 5, raw[0] == 132, spec.le(raw[1:3]) == x, spec.le(raw[3:5]) == y))
    ev2 = E.U16TupleEvent(E.EventEnum(132), raw[1:])
    h.proveeq("a reloaded event has the assigned value", ev2.value, (x, y))


def colour(h):
    E = _events()
    from pyflp.types import RGBA
    data = h.bytes("payload", 4)
    ev = E.ColorEvent(E.EventEnum(128), data)
    v = ev.value
    for i, n in enumerate(("red", "green", "blue", "alpha")):
        b = data[i]
        h.prove(n + " is byte %d / 255" % i, getattr(v, n) == b / 255)
    h.proveeq("serialises to id + payload", bytes(ev), bytes([128]) + data)
    other = h.bytes("other", 4)
    ev.value = RGBA(other[0] / 255, other[1] / 255, other[2] / 255, other[3] / 255)
    h.proveeq("stores the assigned colour", bytes(ev), bytes([128]) + other)
    h.proveeq("RGBA.from_bytes inverts bytes()", bytes(RGBA.from_bytes(other)), other)


def assign_colour(h):
    """components between two bytes go to the nearest one, those outside of 0 to 1 are refused"""
    E = _events()
    from pyflp.types import RGBA
    v = [0.0, 0.25, 0.5, 1.0]
    i = h.choice("component", range(4))
    x = h.choice("value", (0.001, 0.0018, 0.002, 0.1, 1 / 3, 0.499, 0.5, 0.501, 0.75, 0.9, 0.998, 0.999, 0.9999, 0, 1,
                           1.002, 1.003, 256 / 255, 257 / 255, 1.5, 2.0, 255.0, 256, 1000.0, -0.002, -0.003, -1 / 255, -0.5, -1.0, -256 / 255, -2.0,
                           float("inf"), float("nan"), -float("inf")))
    v[i] = x
    ev = E.ColorEvent(E.EventEnum(128), h.bytes("payload", 4))
    ev.value = RGBA(*v)
    try:
        raw = bytes(ev)
    except Exception:
        h.prove("only values that do not fit are refused", not (0 <= x <= 1))
        return
    h.prove("a value that does not fit is refused", -0.5 / 255 <= x <= 255.5 / 255, lambda: repr((v, raw)))
    h.prove("five bytes", len(raw) == 5)
    for k in range(4):
        h.prove("stored as the nearest byte", abs(raw[1 + k] - v[k] * 255) <= 0.5, lambda: repr((v, raw)))


def units(tier):
    us = []
    F = ["EventBase.__init__", "EventBase.__bytes__"]
    for k in ("u8", "i8", "u16", "i16", "u32", "i32"):
        us.append(Unit("decode-" + k, decode_int, {"kind": k}, F + [spec.FIXED[k][0]]))
        us.append(Unit("assign-" + k, assign_int, {"kind": k}, F + [spec.FIXED[k][0]]))
    us.append(Unit("bool", boolean, {}, F + ["BoolEvent"]))
    us.append(Unit("f32", float32, {}, F + ["F32Event"]))
    us.append(Unit("pair", pair, {}, F + ["U16TupleEvent"]))
    us.append(Unit("assign-pair", assign_pair, {}, F + ["U16TupleEvent"]))
    us.append(Unit("colour", colour, {}, F + ["ColorEvent", "RGBA.from_bytes", "RGBA.__bytes__"]))
    us.append(Unit("assign-colour", assign_colour, {}, F + ["ColorEvent", "RGBA.__bytes__"], "bounded", note="34 values in each component"))
    return us
