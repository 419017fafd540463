"""C09: field layout and edit isolation of structured events; shared machinery for C10."""
from pvc.harness import borrow, Unit
from hs import spec


def payload(h, fields, full=(), pre="f"):
    """symbolic payload parts; the transcendental adapters get their whole domain only for the fields in ``full``"""
    light = None
    if any(r in ("log2", "lognorm", "height", "bbt") for _, r in fields):
        light = h.choice("light", (0, 1))
    parts = [spec.field_bytes(h, "%s.%s" % (pre, n), r, None if n in full else light) for n, r in fields]
    return parts, join(parts)


def join(parts):
    data = b""
    for p in parts:
        data = data + p
    return data


def present_fields(cls, variant):
    id, mode, fields = spec.LAYOUTS[cls]
    if variant == "short":
        return [f for f in fields if not f[1].endswith("?")]
    return list(fields)


def isolate(h, cls, variant, edits):
    from pyflp._events import EventEnum
    id, mode, allf = spec.LAYOUTS[cls]
    fields = present_fields(cls, variant)
    i = h.choice("edited", [e for e in edits if e < len(fields)])
    n, r = fields[i]
    parts, data = payload(h, fields, full=() if r == "height" else (n,))
    C = spec.event_class(cls)
    ev = C(EventEnum(id), data)
    for (m, q), b in zip(fields, parts):
        h.prove("field %s reads from its documented place" % m, spec.reads_as(h, ev[m], b, q), lambda: repr((m, ev[m], b)))
    h.proveeq("unedited payload is kept", strip(bytes(ev)), data)
    # edit one field
    nb = spec.field_bytes(h, "new." + n, r)
    parts2 = list(parts)
    parts2[i] = nb
    donor = C(EventEnum(id), join(parts2))
    ev[n] = donor[n]
    h.proveeq("editing %s changes exactly its bytes" % n, strip(bytes(ev)), join(parts2))
    h.prove("edited field reads back", spec.reads_as(h, ev[n], nb, r), lambda: repr((n, ev[n], nb)))
    for j, (m, q) in enumerate(fields):
        if j != i:
            h.prove("other field %s is untouched by %s" % (m, n), spec.reads_as(h, ev[m], parts[j], q))


def strip(raw):
    """payload part of a framed length-prefixed event (length prefix checked by C04/C06)"""
    k = 1
    while raw[k] >= 128:
        k += 1
    return raw[k + 1:]


def no_new_field(h, cls):
    from pyflp._events import EventEnum
    id, mode, fields = spec.LAYOUTS[cls]
    parts, data = payload(h, fields)
    ev = spec.event_class(cls)(EventEnum(id), data)
    before = bytes(ev)
    for key in ("nope", "", fields[0][0] + "x"):
        e = h.raises(lambda: ev.__setitem__(key, 0))
        h.prove("assigning a field that does not exist is refused", isinstance(e, KeyError))
        h.prove("and creates nothing", key not in ev)
    h.proveeq("and changes no byte", bytes(ev), before)


VARIANTS = {c: (["long", "short"] if any(r.endswith("?") for _, r in f[2]) else ["long"]) for c, f in spec.LAYOUTS.items()}


def units(tier):
    us = []
    for c in spec.LAYOUTS:
        F = ["StructEventBase.__init__", "StructEventBase.__setitem__", "EventBase.__init__", "EventBase.__bytes__", c + ".STRUCT"]
        for v in VARIANTS[c]:
            n = len(present_fields(c, v))
            k = 4 if n > 12 else n
            for g in range(0, n, k):
                us.append(Unit("isolate-%s-%s-%d" % (c, v, g), isolate, {"cls": c, "variant": v, "edits": list(range(g, min(n, g + k)))},
                               F, max_s=200, audit=12))
        us.append(Unit("no-new-field-%s" % c, no_new_field, {"cls": c}, F, max_s=100))
    us += borrow("c27", tier, "vst-option-", "slot-notebook") + borrow("c11", tier, "automation-1", "automation-2")
    return us
