"""C10: optional trailing fields: payloads of older FL versions keep their shorter length."""
from pvc.harness import Unit
from hs import spec
from hs.c09 import payload, join, strip


def truncated(h, cls, ks):
    from pyflp._events import EventEnum
    from pyflp.exceptions import PropertyCannotBeSet
    id, mode, allf = spec.LAYOUTS[cls]
    k = h.choice("fields present", ks)
    fields = allf[:k]
    absent = [f for f in allf[k:] if f[1] != "tail"]
    parts, data = payload(h, fields)
    C = spec.event_class(cls)
    ev = C(EventEnum(id), data)
    for (n, r), b in zip(fields, parts):
        h.prove("present field %s is readable" % n, spec.reads_as(h, ev[n], b, r), lambda: repr((n, ev[n], b)))
    for n, r in absent:
        h.prove("absent field %s reads as nothing" % n, ev[n] is None, lambda: repr((n, ev[n])))
    h.proveeq("saving keeps exactly the original payload", strip(bytes(ev)), data)
    # absent fields refuse assignment and change nothing
    for n, r in absent:
        e = h.raises(lambda: ev.__setitem__(n, True))
        h.prove("assigning the absent field %s raises PropertyCannotBeSet" % n, isinstance(e, PropertyCannotBeSet), lambda: repr((n, e)))
        h.prove("absent field %s stays absent" % n, ev[n] is None)
    h.proveeq("refused assignments change no byte", strip(bytes(ev)), data)
    # the last present field stays editable and the length is kept
    if k:
        n, r = fields[-1]
        nb = spec.field_bytes(h, "new." + n, r)
        parts2 = parts[:-1] + [nb]
        donor = C(EventEnum(id), join(parts2))
        ev[n] = donor[n]
        h.proveeq("editing the last present field keeps the shorter layout", strip(bytes(ev)), join(parts2))


def between(h, cls):
    """a payload ending inside a field: what is complete is readable, the rest reads as nothing, loading never fails"""
    from pyflp._events import EventEnum
    id, mode, allf = spec.LAYOUTS[cls]
    cand = [i for i, (n, r) in enumerate(allf) if r != "tail" and spec.fwidth(r) > 1]
    k = h.choice("cut field", cand)
    fields = allf[:k]
    cut = h.choice("bytes of it", range(1, 4))
    w = spec.fwidth(allf[k][1])
    h.assume(cut < w)
    parts, data = payload(h, fields)
    data = data + h.bytes("partial", cut)
    ev = spec.event_class(cls)(EventEnum(id), data)
    for (n, r), b in zip(fields, parts):
        h.prove("present field %s is readable" % n, spec.reads_as(h, ev[n], b, r), lambda: repr((n, ev[n], b)))
    h.prove("the incomplete field reads as nothing", ev[allf[k][0]] is None, lambda: repr(ev[allf[k][0]]))


def tail(h, cls):
    from pyflp._events import EventEnum
    id, mode, fields = spec.LAYOUTS[cls]
    parts, data = payload(h, fields)
    ev = spec.event_class(cls)(EventEnum(id), data)
    h.proveeq("bytes past the known fields are preserved", strip(bytes(ev)), data)
    n, r = h.choice("edit", [f for f in fields if f[1] in ("u32", "flag", "i32", "e:u8")][:6])
    nb = spec.field_bytes(h, "new." + n, r)
    i = [f[0] for f in fields].index(n)
    parts2 = list(parts)
    parts2[i] = nb
    donor = spec.event_class(cls)(EventEnum(id), join(parts2))
    ev[n] = donor[n]
    h.proveeq("and survive an edit", strip(bytes(ev)), join(parts2))


def units(tier):
    us = []
    for c, (id, mode, fields) in spec.LAYOUTS.items():
        F = ["StructEventBase.__init__", "StructEventBase.__setitem__", "EventBase.__bytes__", c + ".STRUCT"]
        if mode == spec.OPT:
            ks = list(range(len(fields) + 1))
            if fields[-1][1] == "tail":
                ks = ks[:-1]
            for g in range(0, len(ks), 8):
                us.append(Unit("truncated-%s-%d" % (c, g), truncated, {"cls": c, "ks": ks[g:g + 8]}, F, max_s=200))
            us.append(Unit("cut-%s" % c, between, {"cls": c}, F, max_s=200))
        if fields[-1][1] == "tail":
            us.append(Unit("tail-%s" % c, tail, {"cls": c}, F, max_s=200))
    return us
