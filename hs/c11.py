"""C11: list events: one record per stride, edits stay in their record."""
from pvc.harness import Unit, borrow
from hs import spec
from hs.c09 import join, strip

# documented item properties: attribute -> (record field, representation)
ITEM_PROPS = {
    "NotesEvent": ("pattern", "Note", [("fine_pitch", "fine_pitch"), ("group", "group"), ("length", "length"), ("midi_channel", "midi_channel"),
                   ("mod_x", "mod_x"), ("mod_y", "mod_y"), ("pan", "pan"), ("position", "position"), ("rack_channel", "rack_channel"),
                   ("release", "release"), ("velocity", "velocity")]),
    "ControllerEvent": ("pattern", "Controller", [("channel", "channel"), ("position", "position"), ("value", "value")]),
    "PlaylistEvent": ("arrangement", "PLItemBase", [("group", "group"), ("length", "length"), ("position", "position")]),
}


def rec_fields(cls, new):
    return [(n, r.rstrip("?")) for n, r in spec.LIST_LAYOUTS[cls][1] if new or not r.endswith("?")]


def records(h, cls, n, new):
    fs = rec_fields(cls, new)
    recs = [[spec.field_bytes(h, "r%d.%s" % (i, f), r) for f, r in fs] for i in range(n)]
    return fs, recs, join([join(p) for p in recs])


def listing(h, cls, n, new):
    from pyflp._events import EventEnum
    fs, recs, data = records(h, cls, n, new)
    ev = spec.event_class(cls)(EventEnum(spec.LIST_LAYOUTS[cls][0]), data)
    h.proveeq("one record per stride", len(ev), n)
    items = list(ev)
    h.proveeq("iteration yields every record once", len(items), n)
    for i in range(n):
        for (f, r), b in zip(fs, recs[i]):
            h.prove("record field %s reads from its place" % f, spec.reads_as(h, items[i][f], b, r), lambda: repr((i, f, items[i][f], b)))
    h.proveeq("serialises to the same bytes", strip(bytes(ev)), data)


def edit(h, cls, n, new):
    import importlib
    from pyflp._events import EventEnum
    mod, model, props = ITEM_PROPS[cls]
    M = getattr(importlib.import_module("pyflp." + mod), model)
    id = EventEnum(spec.LIST_LAYOUTS[cls][0])
    C = spec.event_class(cls)
    fs, recs, data = records(h, cls, n, new)
    i = h.choice("record", range(n))
    attr, f = h.choice("property", props)
    j = [x[0] for x in fs].index(f)
    ev = C(id, data)
    item = M(ev[i], i, ev)
    h.prove("property %s reads its record" % attr, spec.reads_as(h, getattr(item, attr), recs[i][j], fs[j][1]))
    nb = spec.field_bytes(h, "new", fs[j][1])
    donor = M(C(id, join([nb if k == j else b for k, b in enumerate(recs[i])]))[0], 0, None)
    setattr(item, attr, getattr(donor, attr))
    recs[i][j] = nb
    h.proveeq("editing %s changes its bytes in its record only" % attr, strip(bytes(ev)), join([join(p) for p in recs]))
    h.prove("and reads back", spec.reads_as(h, getattr(item, attr), nb, fs[j][1]))
    # second edit of another item
    k = h.choice("record 2", range(n))
    other = M(ev[k], k, ev)
    nb2 = spec.field_bytes(h, "new2", fs[j][1])
    donor2 = M(C(id, join([nb2 if q == j else b for q, b in enumerate(recs[i])]))[0], 0, None)
    setattr(other, attr, getattr(donor2, attr))
    recs[k][j] = nb2
    h.proveeq("a second edit of %s stays in its record" % attr, strip(bytes(ev)), join([join(p) for p in recs]))


def many_records(h, name, fields):
    """any number of records with these fields: (bytes, count)"""
    stride = sum(spec.fwidth(r) for _, r in fields)
    if h.sym:
        from pvc import blocks
        return blocks.make(h, name, stride)
    given = getattr(h, "inputs", {})
    if name not in given and name + ".records" in given:
        n = h.used[name + ".records"] = given[name + ".records"]
        if h.mode == "RANDOM" and n < 300:
            return join([join([spec.field_bytes(h, "%s.%d.%s" % (name, q, f), r) for f, r in fields]) for q in range(n)]), n
        return b"\0" * (stride * min(n, 40000)), min(n, 40000)
    if h.mode == "RANDOM":
        n = h.r.choice((0, 0, 1, 2, 3, 6, 7, 14, 15, 29, 40))
        b = join([join([spec.field_bytes(h, "%s.%d.%s" % (name, q, f), r) for f, r in fields]) for q in range(n)])
        return h._note(name, b), n
    b = h._get(name, b"")
    return b, len(b) // stride


def surrounded(h, cls, new):
    """PRE record POST"""
    fs = rec_fields(cls, new)
    pre, n = many_records(h, "pre", fs)
    rec = [spec.field_bytes(h, "rec." + f, r) for f, r in fs]
    post, m = many_records(h, "post", fs)
    if cls == "PlaylistEvent" and not new:
        h.assume((32 * (n + 1 + m)) % 60 != 0)
    return fs, pre, n, rec, post, m


def done(h):
    if h.sym:
        h.prove("the records are read to the end", not h.c.recs_open)


def listing_any(h, cls, new):
    from pyflp._events import EventEnum
    fs, pre, n, rec, post, m = surrounded(h, cls, new)
    data = pre + join(rec) + post
    ev = spec.event_class(cls)(EventEnum(spec.LIST_LAYOUTS[cls][0]), data)
    done(h)
    h.prove("one record per stride", len(ev) == n + 1 + m, lambda: repr((len(ev), n, m)))
    item = ev[n]
    for (f, r), b in zip(fs, rec):
        h.prove("record field %s reads from its place" % f, spec.reads_as(h, item[f], b, r), lambda: repr((f, item[f], b)))
    h.proveeq("the payload is kept", strip(bytes(ev)), data)


def edit_any(h, cls, new):
    import importlib
    from pyflp._events import EventEnum
    mod, model, props = ITEM_PROPS[cls]
    M = getattr(importlib.import_module("pyflp." + mod), model)
    id = EventEnum(spec.LIST_LAYOUTS[cls][0])
    C = spec.event_class(cls)
    fs, pre, n, rec, post, m = surrounded(h, cls, new)
    attr, f = h.choice("property", props)
    j = [x[0] for x in fs].index(f)
    ev = C(id, pre + join(rec) + post)
    done(h)
    item = M(ev[n], n, ev)
    h.prove("property %s reads its record" % attr, spec.reads_as(h, getattr(item, attr), rec[j], fs[j][1]))
    nb = spec.field_bytes(h, "new", fs[j][1])
    donor = M(C(id, join([nb if k == j else b for k, b in enumerate(rec)]))[0], 0, None)
    setattr(item, attr, getattr(donor, attr))
    rec2 = [nb if k == j else b for k, b in enumerate(rec)]
    h.proveeq("editing %s changes its bytes in its record only" % attr, strip(bytes(ev)), pre + join(rec2) + post)
    h.prove("and reads back", spec.reads_as(h, getattr(item, attr), nb, fs[j][1]))


def twice(h, cls, new):
    """several models of one record, edited in turn: no edit undoes another"""
    import importlib
    from pyflp._events import EventEnum
    mod, model, props = ITEM_PROPS[cls]
    M = getattr(importlib.import_module("pyflp." + mod), model)
    id = EventEnum(spec.LIST_LAYOUTS[cls][0])
    C = spec.event_class(cls)
    fs, pre, n, rec, post, m = surrounded(h, cls, new)
    ev = C(id, pre + join(rec) + post)
    done(h)
    items = [M(ev[n], n, ev), M(ev[n], n, ev)]
    at = h.choice("property", range(len(props)))
    for k, who in enumerate((0, 0, 1, 0, 1)):
        attr, f = props[(at + (k in (2, 3))) % len(props)]
        j = [x[0] for x in fs].index(f)
        nb = spec.field_bytes(h, "new%d" % k, fs[j][1])
        rec = [nb if q == j else b for q, b in enumerate(rec)]
        donor = M(C(id, join(rec))[0], 0, None)
        setattr(items[who], attr, getattr(donor, attr))
        h.proveeq("edit %d, of %s, changes its bytes only" % (k, attr), strip(bytes(ev)), pre + join(rec) + post)
        h.prove("and reads back", spec.reads_as(h, getattr(items[who], attr), nb, fs[j][1]))


def routing_any(h):
    from pyflp._events import EventEnum
    fs = [("", "flag")]
    pre, n = many_records(h, "pre", fs)
    b = spec.field_bytes(h, "flag", "flag")
    post, m = many_records(h, "post", fs)
    ev = spec.event_class("InsertRoutingEvent")(EventEnum(235), pre + b + post)
    done(h)
    h.prove("one flag per byte", len(ev) == n + 1 + m)
    h.prove("flag reads its byte", spec.reads_as(h, ev[n], b, "flag"))
    h.proveeq("the payload is kept", strip(bytes(ev)), pre + b + post)
    nb = spec.field_bytes(h, "new", "flag")
    ev[n] = (nb[0] == 1)
    h.proveeq("editing one flag changes its byte only", strip(bytes(ev)), pre + nb + post)


def routing(h, n):
    from pyflp._events import EventEnum
    parts = [spec.field_bytes(h, "r%d" % i, "flag") for i in range(n)]
    ev = spec.event_class("InsertRoutingEvent")(EventEnum(235), join(parts))
    h.proveeq("one flag per byte", len(ev), n)
    vals = list(ev)
    for i in range(n):
        h.prove("flag reads its byte", spec.reads_as(h, vals[i], parts[i], "flag"))
    h.proveeq("serialises to the same bytes", strip(bytes(ev)), join(parts))
    if n:
        k = h.choice("edited", range(n))
        nb = spec.field_bytes(h, "new", "flag")
        ev[k] = (nb[0] == 1)
        parts[k] = nb
        h.proveeq("editing one flag changes its byte only", strip(bytes(ev)), join(parts))


def automation(h, n):
    """points of an automation clip: any values and tensions, a few offsets"""
    import struct
    from pyflp._events import EventEnum
    from pyflp.channel import Automation
    from pyflp.exceptions import PropertyCannotBeSet
    from hs import build as B
    head = h.bytes("head", 17)
    pts = []
    first = h.choice("first", (0, 4))
    for k in range(n):
        off = struct.pack("<d", (0.25, 96.0, 0.5, 1.0, 0.0)[(k + first) % 5])
        if h.sampling:
            off = struct.pack("<d", h.int("offset%d" % k, 0, 1 << 20) / 256)
        pts.append([off, spec.field_bytes(h, "val%d" % k, "f64"), spec.field_bytes(h, "ten%d" % k, "f32"), h.bytes("u%d" % k, 4)])
    tail = h.blob("tail", 0, 200)
    data = lambda: head + n.to_bytes(4, "little") + join([join(p) for p in pts]) + tail
    evs = [B.version(), B.event(64, b"\0\0"), B.event(234, data(), cls="AutomationEvent"), B.event(61, b"\1")]
    raw = [bytes(e) for e in evs]
    h.proveeq("the payload is kept", raw[2], spec.frame(234, data()))
    clip = Automation(B.tree(evs), channels={}, group=None)
    got = list(clip)
    h.proveeq("one point per record", sum(1 for _ in got), n)
    x = 0.0
    for g, p in zip(got, pts):
        x += struct.unpack("<d", p[0])[0]
        h.prove("position is the sum of the offsets", g.position == x, lambda: repr((g.position, x)))
        h.prove("value", spec.reads_as(h, g.value, p[1], "f64"))
        h.prove("tension", spec.reads_as(h, g.tension, p[2], "f32"))
    if not n:
        return
    i = h.choice("point", range(n))
    h.prove("the position cannot be set", isinstance(h.raises(lambda: setattr(got[i], "position", 1.0)), PropertyCannotBeSet))
    h.proveeq("and nothing changes", bytes(evs[2]), raw[2])
    for k, (attr, j, r) in enumerate([h.choice("property%d" % q, (("value", 1, "f64"), ("tension", 2, "f32"))) for q in ((0, 1) if n == 2 or h.sampling else (0,))]):
        nb = spec.field_bytes(h, "new%d" % k, r)
        i = i if k == 0 else h.choice("point 2", range(n))
        setattr(got[i], attr, struct.unpack("<d" if r == "f64" else "<f", nb)[0])
        pts[i][j] = nb
        h.proveeq("editing %s of a point changes its bytes only" % attr, bytes(evs[2]), spec.frame(234, data()))
        h.prove("and reads back", spec.reads_as(h, getattr(got[i], attr), nb, r))
    h.prove("no other event changes", all(h.eq(bytes(e), b) is True for e, b in zip(evs[:2] + evs[3:], raw[:2] + raw[3:])))


def units(tier):
    us = []
    top = 3 if tier == "quick" else 6
    F = ["ListEventBase.__init__", "ItemModel.__setitem__", "ItemModel.__getitem__", "StructProp._get", "StructProp._set", "EventBase.__bytes__"]
    for c in spec.LIST_LAYOUTS:
        for new in ((False, True) if c == "PlaylistEvent" else (False,)):
            sfx = c + ("-new" if new else "")
            us.append(Unit("any-" + sfx, listing_any, {"cls": c, "new": new}, F + [c + ".STRUCT"], note="any number of records, all contents", max_s=120))
            if c in ITEM_PROPS:
                us.append(Unit("edit-any-" + sfx, edit_any, {"cls": c, "new": new}, F + [c + ".STRUCT"], note="any number of records, all contents", max_s=120))
                us.append(Unit("twice-any-" + sfx, twice, {"cls": c, "new": new}, F + [c + ".STRUCT"], note="two models of one record, five edits, any number of records", max_s=120))
            for n in range(top):
                if c == "PlaylistEvent" and not new and n == 0:
                    continue
                us.append(Unit("list-%s-%d" % (sfx, n), listing, {"cls": c, "n": n, "new": new}, F + [c + ".STRUCT"], "bounded",
                               note="%d records, all contents" % n))
                if n and c in ITEM_PROPS and n <= 3:
                    us.append(Unit("edit-%s-%d" % (sfx, n), edit, {"cls": c, "n": n, "new": new}, F + [c + ".STRUCT"], "bounded",
                                   note="%d records, all contents, every pair of edited records" % n, max_s=120))
    for n in (0, 1, 2, 3):
        us.append(Unit("automation-%d" % n, automation, {"n": n}, ["AutomationEvent.STRUCT", "Automation.__iter__", "AutomationPoint.__setitem__"], "bounded",
                       note="%d points, all values and tensions, a few offsets" % n, max_s=120))
    us += [Unit("automation-%d" % n, automation, {"n": n}, ["AutomationEvent.STRUCT", "Automation.__iter__"], "bounded", note="run-time check with %d points" % n, sym=False) for n in (7, 40)]
    us.append(Unit("any-routing", routing_any, {}, F + ["InsertRoutingEvent.STRUCT"], note="any number of flags"))
    for n in range(top):
        us.append(Unit("routing-%d" % n, routing, {"n": n}, F + ["InsertRoutingEvent.STRUCT"], "bounded", note="%d flags" % n))
    us += borrow("c24", tier, "items-new-0-2-")
    return us
