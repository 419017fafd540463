"""C14: model properties read and write exactly their own event or field."""
import importlib
from pvc.harness import borrow, Unit
from hs import attrs, build as B, frames as F, spec
from hs.c09 import join

FN = ["PropBase.__get__", "PropBase.__set__", "PropBase._get_event", "EventProp._get", "EventProp._set", "StructProp._get", "StructProp._set", "NestedProp.__get__",
      "EventTree.first", "EventTree.__contains__", "EventTree.subtree"]
NOISE = (61, 125, 190, 202, 252)      # IDs the library does not know


class Fix:
    """a harness with fixed answers: well-formed payloads whose content does not matter"""

    sampling = False

    def __init__(self, k=0):
        self.k = k

    def int(self, name, lo, hi):
        return lo

    def bytes(self, name, n):
        return bytes((self.k + 1 + j) % 256 for j in range(n))

    def blob(self, name, lo=0, hi=None):
        return bytes((self.k + j) % 256 for j in range(max(lo, 3)))

    def text(self, name, codecs=(), maxlen=None, nonul=True):
        return "text %d" % self.k

    def choice(self, name, seq):
        return list(seq)[0]


def model(name, tree):
    mod, cls = name.split(".")
    C = getattr(importlib.import_module("pyflp." + mod), cls)
    if name == "project.Project":
        from pyflp.project import FileFormat
        return C(tree, channel_count=1, format=FileFormat(0), ppq=96)
    if name == "mixer.Insert":
        return C(tree, iid=0, max_slots=10)
    return C(tree)


def sbytes(h, pre, cls, field, upto=None):
    """payload of a structured event: the field's bytes are arbitrary, the rest fixed in proofs (arbitrary when sampling); parts, index"""
    if cls == "AutomationEvent":
        v = h.bytes(pre + ".v", 4)
        return [bytes(range(4, 8)), v, bytes(range(9)), bytes(4), b"tail"], 1
    fields = spec.LAYOUTS[cls][2]
    j = [n for n, r in fields].index(field)
    parts = []
    for n, (f, r) in enumerate(fields[:upto]):
        g = h if n == j or h.sampling else Fix(n)
        light = None if n == j else 0
        parts.append(spec.field_bytes(g, "%s.%s" % (pre, f), r, light))
    return parts, j


def rep(cls, field):
    if cls == "AutomationEvent":
        return "i32"
    return dict(spec.LAYOUTS[cls][2])[field]


def reads(h, cls, field, v, b):
    if cls == "TrackEvent" and field == "color":
        return h.and_(*[h.eq(x, y / 255) for x, y in zip((v.red, v.green, v.blue, v.alpha), [b[k] for k in range(4)])])
    return spec.reads_as(h, v, b, rep(cls, field))


def payload(h, pre, id, field):
    """(payload, parts, index of the field) of an event carrying the property"""
    if field is None:
        return F.payload(h, id, pre, lite=True), None, None
    parts, j = sbytes(h, pre, spec.kind(id), field)
    return join(parts), parts, j


def others(h, name, a, ids):
    """events around the property's own: unknown IDs and the other events of the same model, fixed content"""
    table = attrs.EVENT_MODELS.get(name, {})
    more = sorted({i for x in table.values() for i in x[1]} - set(ids))
    es = []
    for k, i in enumerate(list(NOISE) + more):
        g = h if h.sampling else Fix(k)
        es.append(B.event(i, F.payload(g, i, "other%d" % k, lite=True)))
    return es


def access(h, name, attr_names, single=False):
    """read, write, read back; first event wins; everything else keeps its bytes"""
    table = (attrs.SINGLE_MODELS if single else attrs.EVENT_MODELS)[name]
    attr = h.choice("property", attr_names)
    k, ids, field, default = table[attr]
    cands = []
    if len(ids) > 1:
        present = h.choice("present", ((0,), (1,), (0, 1), (1, 0)))
    else:
        present = (0,) if single else h.choice("present", ((0,), (0, 0)))
    before = [] if single else others(h, name, attr, ids)
    cut = 0 if single else h.choice("place", (0, len(before)) if (not h.sampling) else range(len(before) + 1))
    data = [payload(h, "ev%d" % n, ids[p], field) for n, p in enumerate(present)]
    mine = [B.event(ids[p], d[0]) for p, d in zip(present, data)]
    evs = before[:cut] + mine + before[cut:]
    own = cut + [n for n, p in enumerate(present) if p == min(present)][0]
    src = own - cut
    tree = B.tree(evs)
    m = model(name, tree)
    raw = [bytes(e) for e in evs]
    v = getattr(m, attr)
    cls = spec.kind(ids[present[src]])
    if field is None:
        h.prove("%s reads its first documented event" % attr, h.eq(v, B.event(ids[present[src]], data[src][0]).value), lambda: repr((attr, v)))
    else:
        h.prove("%s reads its documented field" % attr, reads(h, cls, field, v, data[src][1][data[src][2]]), lambda: repr((attr, v)))
    h.prove("reading changes nothing", same(h, tree, evs, raw))
    # write another representable value
    nd, nparts, j = payload(h, "new", ids[present[src]], field)
    if field is None:
        value = B.event(ids[present[src]], nd).value
        want = bytes(B.event(ids[present[src]], nd))
    else:
        parts = list(data[src][1])
        parts[j] = nparts[j]
        want = spec.frame(ids[present[src]], join(parts))
        donor = B.event(ids[present[src]], join(parts))
        value = donor[field]
        if cls == "TrackEvent" and field == "color":
            from pyflp.types import RGBA
            value = RGBA(*[nparts[j][q] / 255 for q in range(4)])
    setattr(m, attr, value)
    raw[own] = want
    h.prove("writing %s changes exactly its value" % attr, same(h, tree, evs, raw), lambda: repr((attr, bytes(evs[own]), want)))
    w = getattr(m, attr)
    if field is None:
        h.prove("%s reads back" % attr, h.eq(w, value), lambda: repr((attr, w, value)))
    else:
        h.prove("%s reads back" % attr, reads(h, cls, field, w, nparts[j]), lambda: repr((attr, w, value)))


def same(h, tree, evs, raw):
    got = list(tree)
    if len(got) != len(evs) or any(a is not b for a, b in zip(got, evs)):
        return False
    return h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)])


def reading(h, what, attr, m, id, field, d):
    v = getattr(m, attr)
    if field is None:
        h.prove(what, h.eq(v, B.event(id, d[0]).value), lambda: repr((attr, v)))
    else:
        h.prove(what, reads(h, spec.kind(id), field, v, d[1][d[2]]), lambda: repr((attr, v)))


def absent(h, name, attr_names, single=False):
    """no documented event: the default; writing is refused and changes nothing"""
    from pyflp.exceptions import PropertyCannotBeSet
    table = (attrs.SINGLE_MODELS if single else attrs.EVENT_MODELS)[name]
    attr = h.choice("property", attr_names)
    k, ids, field, default = table[attr]
    evs = [] if single else others(h, name, attr, ids)
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    default = None if k == "F" else default
    h.prove("%s reads as its default" % attr, getattr(m, attr) is default or h.eq(getattr(m, attr), default), lambda: repr(getattr(m, attr)))
    v = h.choice("value", (0, 1, True, "x", None, 2.5))
    h.prove("%s cannot be set" % attr, isinstance(h.raises(lambda: setattr(m, attr, v)), PropertyCannotBeSet))
    h.prove("and nothing changes", same(h, tree, evs, raw))
    h.prove("and it still reads as its default", getattr(m, attr) is default or h.eq(getattr(m, attr), default))
    if single:
        return
    # events that come and go: the model sees them at once
    for id in ids[::-1]:
        d = payload(h if h.sampling else Fix(7), "late%d" % id, id, field)
        e = B.event(id, d[0])
        tree.append(e)
        evs.append(e)
        raw.append(spec.frame(id, d[0]))
        if k != "F":
            reading(h, "%s reads an event that was added" % attr, attr, m, id, field, d)
        else:
            h.prove("%s reads an event that was added" % attr, isinstance(getattr(m, attr), bool))
        h.prove("and nothing else changes", same(h, tree, evs, raw))
    for id in ids:
        h.prove("the event is taken out", tree.pop(evs[-1].id) is evs[-1])
        evs.pop()
        raw.pop()
    h.prove("%s reads as its default again" % attr, getattr(m, attr) is default or h.eq(getattr(m, attr), default))
    h.prove("%s cannot be set again" % attr, isinstance(h.raises(lambda: setattr(m, attr, v)), PropertyCannotBeSet))
    h.prove("and nothing changes", same(h, tree, evs, raw))


def short(h, name, attr_names, single=False):
    """the event is there but too short to have the field"""
    from pyflp.exceptions import PropertyCannotBeSet
    table = (attrs.SINGLE_MODELS if single else attrs.EVENT_MODELS)[name]
    attr = h.choice("property", attr_names)
    k, ids, field, default = table[attr]
    cls = spec.kind(ids[0])
    j = [n for n, r in spec.LAYOUTS[cls][2]].index(field)
    upto = h.choice("fields", sorted({0, j // 2, j}))
    parts = []
    for n, (f, r) in enumerate(spec.LAYOUTS[cls][2][:upto]):
        parts.append(spec.field_bytes(h if h.sampling else Fix(n), "s.%s" % f, r, 0))
    evs = [B.event(ids[0], join(parts))]
    if not single:
        evs = others(h, name, attr, ids) + evs
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    h.prove("%s reads as nothing" % attr, getattr(m, attr) is None)
    v = h.choice("value", (0, 1, True))
    if cls == "TrackEvent" and field == "color":
        from pyflp.types import RGBA
        v = RGBA(0, 0, 0, 0)
    h.prove("%s cannot be set" % attr, isinstance(h.raises(lambda: setattr(m, attr, v)), PropertyCannotBeSet))
    h.prove("and nothing changes", same(h, tree, evs, raw))


def nested(h, name):
    """a nested model sees exactly its documented events, as the same objects"""
    attr = h.choice("property", sorted(attrs.NESTED[name]))
    cls, ids = attrs.NESTED[name][attr]
    every = sorted({i for _, x in attrs.NESTED[name].values() for i in x} | set(NOISE) | {64, 128, 203, 212, 213, 138, 139, 140})
    reps = [i for i in every for _ in range(2)]
    if h.sampling:
        reps = [h.choice("id%d" % k, every) for k in range(h.int("n", 0, 30))]
    evs = [B.event(i, F.payload(Fix(k), i, "e%d" % k, lite=True)) for k, i in enumerate(reps)]
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    n = getattr(m, attr)
    h.prove("%s has its documented kind" % attr, type(n).__name__ == cls)
    got, want = list(n.events), [e for e in evs if e.id in ids]
    h.prove("%s sees exactly its documented events" % attr, len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: repr(([e.id for e in got], ids)))
    h.prove("making it changes nothing", same(h, tree, evs, raw))


# ------------------------------------------------------------------ computed properties
def levels(h, attr):
    """pan / volume: the levels event, else the old 16-bit one, else the old byte"""
    from pyflp.exceptions import PropertyCannotBeSet
    name = h.choice("model", ("channel.Channel", "channel.Sampler", "channel.Layer"))
    w, b = {"pan": (73, 3), "volume": (72, 2)}[attr]
    have = h.choice("have", ((219, w, b), (219, w), (219,), (w, b), (b, w), (w,), (b,), (), (w, w)))
    evs = [B.event(i, F.payload(Fix(i), i, "n%d" % i, lite=True)) for i in (64, 75 - w + 70, 5 - b)]
    data = []
    for k, i in enumerate(have):
        d = payload(h, "e%d" % k, i, attr if i == 219 else None)
        data.append(d)
        evs.append(B.event(i, d[0]))
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    order = [i for i in (219, w, b) if i in have]
    if not order:
        h.prove("nothing stored reads as nothing", getattr(m, attr) is None)
        h.prove("and cannot be set", isinstance(h.raises(lambda: setattr(m, attr, 1)), PropertyCannotBeSet))
        h.prove("and nothing changes", same(h, tree, evs, raw))
        return
    src = have.index(order[0])
    i = have[src]
    own = 3 + src
    d = data[src]
    kind = "i32" if (i, attr) == (219, "pan") else "u32" if i == 219 else spec.kind(i)
    fb = d[1][d[2]] if i == 219 else d[0]
    h.prove("%s reads its own value" % attr, spec.spec_int(h, getattr(m, attr), fb, kind))
    v = h.int("new", *spec.INT_RANGE[kind])
    setattr(m, attr, v)
    nb = v.to_bytes(len(fb), "little", signed=kind[0] == "i")
    if i == 219:
        parts = list(d[1])
        parts[d[2]] = nb
        nb = join(parts)
    raw[own] = spec.frame(i, nb)
    h.prove("writing %s changes exactly its value" % attr, same(h, tree, evs, raw), lambda: repr([bytes(e) for e in evs]))
    h.proveeq("%s reads back" % attr, getattr(m, attr), v)


def zipped(h):
    evs = [B.event(64, b"\1\0")]
    n = h.choice("events", (0, 1, 2))
    vals = [h.int("z%d" % k, 0, 1) for k in range(n)]
    evs += [B.event(15, v.to_bytes(1, "little")) for v in vals]
    m = model(h.choice("model", ("channel.Channel", "channel.Sampler")), B.tree(evs))
    h.proveeq("zipped reads its event, or False", m.zipped, (vals[0] == 1) if n else False)


def display_name(h):
    have = h.choice("have", ((), (203,), (192,), (201,), (203, 201), (201, 192), (203, 192, 201)))
    evs = [B.event(64, b"\1\0")]
    text = {}
    for i in have:
        text[i] = h.choice("t%d" % i, ("", "name", "other"))
        evs.append(B.event(i, B.vtext(text[i])))
    m = model("channel.Channel", B.tree(evs))
    name = text.get(203, text.get(192))
    h.proveeq("the display name is the name, or else the internal name", m.display_name, name or text.get(201))


def timestamp(h):
    import datetime
    import struct
    if h.choice("have", (True, False)):
        a = h.choice("created", (0.0, 44562.5, 43831.123456, 1.0))
        b = h.choice("spent", (0.0, 0.25, 10.000001, 365.5))
        evs = [B.event(237, struct.pack("<dd", a, b))]
        p = model("project.Project", B.tree(evs))
        h.prove("the creation time counts days from 30 Dec 1899", p.created_on == datetime.datetime(1899, 12, 30) + datetime.timedelta(days=a))
        h.prove("the time spent is in days", p.time_spent == datetime.timedelta(days=b))
        h.proveeq("and reading changes nothing", bytes(evs[0]), spec.frame(237, struct.pack("<dd", a, b)))
    else:
        p = model("project.Project", B.tree([]))
        h.prove("no timestamp: nothing", p.created_on is None and p.time_spent is None)


SEPARATED = {"envelopes": (218, "Envelope", ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")), "lfos": (218, "SamplerLFO", ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")),
             "tracking": (228, "Tracking", ("volume", "keyboard"))}


def separated(h):
    """dictionaries of models, one per event in file order"""
    attr = h.choice("property", sorted(SEPARATED))
    id, cls, keys = SEPARATED[attr]
    n = h.choice("events", range(len(keys) + 1))
    evs = [B.event(64, b"\1\0")]
    for k in range(n):
        evs.append(B.event(id, F.payload(Fix(k), id, "e%d" % k, lite=True)))
        evs.append(B.event(61, b"\1"))
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model("channel.Sampler", tree)
    d = getattr(m, attr)
    if not n:
        h.prove("no event: nothing", d is None)
        return
    h.prove("one entry per event, named in the documented order", list(d) == list(keys[:n]), lambda: repr(list(d)))
    for k, key in enumerate(list(d)[:n]):
        h.prove("of the documented kind", type(d[key]).__name__ == cls)
        es = list(d[key].events)
        h.prove("on its own event", len(es) == 1 and es[0] is evs[1 + 2 * k])
    h.prove("reading changes nothing", same(h, tree, evs, raw))


def muted(h):
    """a documented property of playlist items"""
    from pyflp._events import EventEnum
    from pyflp.arrangement import PLItemBase
    ev = spec.event_class("PlaylistEvent")(EventEnum(233), bytes(32))
    item = PLItemBase(ev[0], 0, ev)
    h.prove("muted can be read", h.raises(lambda: item.muted) is None)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def units(tier):
    us = []
    for tab, single in ((attrs.EVENT_MODELS, False), (attrs.SINGLE_MODELS, True)):
        for name in tab:
            rw = sorted(a for a, x in tab[name].items() if x[0] != "F")
            everything = sorted(tab[name])
            sh = sorted(a for a, x in tab[name].items() if x[0] == "S" and spec.kind(x[1][0]) in spec.LAYOUTS and spec.LAYOUTS[spec.kind(x[1][0])][1] == spec.OPT)
            fl = sorted(a for a, x in tab[name].items() if x[0] == "F" and x[2])
            for k, c in enumerate(chunks(rw, 5)):
                us.append(Unit("%s-%d" % (name, k), access, {"name": name, "attr_names": c, "single": single}, FN, max_s=120, audit=12 * len(c)))
            us.append(Unit("%s-absent" % name, absent, {"name": name, "attr_names": everything, "single": single}, FN, audit=len(everything)))
            if sh + fl:
                us.append(Unit("%s-short" % name, short, {"name": name, "attr_names": sh + fl, "single": single}, FN, audit=len(sh + fl)))
    for name in attrs.NESTED:
        us.append(Unit("%s-nested" % name, nested, {"name": name}, FN, audit=40))
    for a in ("pan", "volume"):
        us.append(Unit("channel-%s" % a, levels, {"attr": a}, ["Channel.pan", "Channel.volume"], audit=60))
    us.append(Unit("zipped", zipped, {}, ["Channel.zipped"]))
    us.append(Unit("display-name", display_name, {}, ["Channel.display_name"]))
    us.append(Unit("timestamp", timestamp, {}, ["Project.created_on", "Project.time_spent"], level="bounded", note="a few stored times"))
    us.append(Unit("separated", separated, {}, ["Sampler.envelopes", "Sampler.lfos", "_SamplerInstrument.tracking"], level="bounded", note="documented numbers of events"))
    us.append(Unit("playlist-muted", muted, {}, ["PLItemBase.muted"]))
    us += borrow("c27", tier, "vst-option-", "channel-", "slot-")
    us += borrow("c25", tier, "own-1-", "slots-1")
    us += borrow("c11", tier, "edit-any-", "automation-1", "automation-2") + borrow("c21", tier, "") + borrow("c23", tier, "patterns-1-")
    us += borrow("c17", tier, "read-t", "int-t-v4", "int-cf-v4") + borrow("c18", tier, "set-version-str-4", "no-version", "ppq", "channel-count", "data-path", "sample-path")
    us += borrow("c19", tier, "absent", "inside-20") + borrow("c20", tier, "set-number", "read-stored")
    return us
