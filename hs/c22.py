"""C22: the channel rack presents each channel once, with its own data and kind."""
from pvc.harness import Unit, filler
from hs import build as B, frames as F, spec
from hs.c14 import Fix

CHANNEL_IDS = frozenset([0, 2, 3, 15, 20, 21, 22, 32, 64, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 94, 97, 131, 132, 135, 138, 139, 140, 142, 143, 144, 145,
                         153, 192, 196, 209, 215, 218, 219, 221, 228, 229, 234])
PLUGIN_IDS = frozenset([128, 155, 201, 203, 212, 213])
OWN = sorted((CHANNEL_IDS | PLUGIN_IDS) - {64, 21, 145, 94, 196, 201, 203, 192})     # what else a channel may store
FOREIGN = (61, 125, 190, 202, 252, 10, 156, 65, 224, 99, 233, 238)             # events of other parts of a project
TYPES = {0: "Sampler", 2: "Instrument", 3: "Layer", 4: "Instrument", 5: "Automation"}
FN = ["Project.channels", "ChannelRack.__iter__", "ChannelRack.__len__", "ChannelRack.automations", "ChannelRack.layers", "ChannelRack.samplers",
      "ChannelRack.instruments", "ChannelRack.groups", "Layer.__iter__", "Layer.__len__", "Channel.group", "EventTree.divide", "EventTree.separate"]


def ev(i, k, h=None):
    h, pre = (h, "") if h else filler(Fix(k))
    return B.event(i, F.payload(h, i, "%sp%d" % (pre, k), lite=True))


def u16(v):
    return v.to_bytes(2, "little")


class Chan:
    pass


def channel(h, k, iid, kids, ngroups, extra):
    """events of one channel and what it is"""
    c = Chan()
    c.iid = iid
    c.start = B.event(64, u16(iid))
    t = h.int("type%d" % k, 0, 255) if h.choice("known%d" % k, (False, True) if (not h.sampling) and len(kids) == 1 else (True,)) is False else h.choice("type%d" % k, (0, 2, 3, 4, 5, 1))
    c.type = t
    c.group = h.choice("group%d" % k, range(ngroups))
    head = [B.event(21, t.to_bytes(1, "little")), B.event(145, c.group.to_bytes(4, "little"))]
    c.internal = h.choice("internal%d" % k, (None, "", "Fruity Wrapper") + ((" ",) if h.sampling else ()))
    c.sample = h.choice("sample%d" % k, (True, False))
    if c.internal is not None:
        head.append(B.event(201, B.vtext(c.internal)))
    if c.sample:
        head.append(B.event(196, B.vtext("C:\\kick.wav")))
    c.children = []
    if t == 3:
        c.children = [h.choice("child%d.%d" % (k, j), kids) for j in range(h.choice("children%d" % k, (0, 1, 2)) if kids else 0)]
        head += [B.event(94, u16(v)) for v in c.children]
    c.name = h.choice("name%d" % k, (None, "name %d" % k))
    if c.name is not None:
        head.append(B.event(h.choice("nameid%d" % k, (203, 192)), B.vtext(c.name)))
    for j, i in enumerate(extra):
        head.append(ev(i, 10 * k + j))
    c.events = [c.start] + head
    return c


def kind_of(h, c):
    if c.internal == "" and c.sample and TYPES.get(int(c.type)) == "Instrument":
        return "Sampler"
    return TYPES.get(int(c.type), "Channel")


def layout(h, chans, groups, mix):
    """the project's events: rack, patterns in between, mixer with plugins at the end"""
    evs = [B.version(), ev(11, 1), ev(10, 2)] + groups
    evs += [ev(65, 3), ev(224, 4)]
    for k, c in enumerate(chans):
        evs += c.events
        if (not h.sampling):
            evs += [ev(252, 5), ev(65, 6)]
    if mix:
        evs += [ev(99, 7), ev(233, 8), ev(236, 9), ev(128, 10), ev(212, 11), ev(201, 12), ev(203, 13), ev(147, 14)]
    return evs


def same(a, b):
    a = list(a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check(h, chans, groups, evs, p=None, rack=None):
    p = p or B.project(evs, channel_count=len(chans))
    rack = rack or p.channels
    h.proveeq("one channel per channel start", len(rack), len(chans))
    got = list(rack)
    h.proveeq("iteration yields one channel per channel start", len(got), len(chans))
    for c, g in zip(chans, got):
        own = [e for e in c.events if e.id in CHANNEL_IDS or e.id in PLUGIN_IDS]
        h.prove("a channel has exactly the events from its start to the next one", same(g.events, own), lambda: repr(([e.id for e in g.events], [e.id for e in own])))
        h.proveeq("its number", g.iid, c.iid)
        h.prove("its class follows its type", type(g).__name__ == kind_of(h, c), lambda: repr((type(g), c.type, c.internal, c.sample)))
        h.proveeq("its name", g.name, c.name)
        h.prove("its group is the one its number points to", same(g.group.events, [groups[c.group]]))
        if kind_of(h, c) == "Layer":
            h.proveeq("a layer counts its children", len(g), len(c.children))
    # children also while iterating (not only once all channels are known)
    for c, g in zip(chans, p.channels):
        if type(g).__name__ == "Layer":
            kids = list(g)
            h.proveeq("a layer has the channels it lists", [k.iid for k in kids], c.children)
            for j, x in zip(c.children, kids):
                h.prove("as channels of this rack", same(x.events, [e for e in chans[[q.iid for q in chans].index(j)].events if e.id in CHANNEL_IDS or e.id in PLUGIN_IDS]))
    for attr, cls in (("automations", "Automation"), ("layers", "Layer"), ("samplers", "Sampler"), ("instruments", "Instrument")):
        want = [c.iid for c in chans if kind_of(h, c) == cls]
        h.proveeq("%s yields the channels of that kind" % attr, [x.iid for x in getattr(p.channels, attr)], want)
    h.prove("the groups are those of the rack", len(list(rack.groups)) == len(groups) and all(same(x.events, [y]) for x, y in zip(rack.groups, groups)))


def renumber(h):
    """the rack follows what the events say now: types, groups, numbers, children, names"""
    groups = [B.event(231, B.vtext("group %d" % k)) for k in range(2)]
    chans = []
    for k, t in enumerate((3, 0, 4)):
        c = Chan()
        c.iid, c.type, c.group, c.internal, c.sample, c.name = k, t, k % 2, None if k < 2 else "x", k == 2, "name %d" % k
        c.children = [2, 1] if t == 3 else []
        c.events = [B.event(64, u16(k)), B.event(21, bytes([t])), B.event(145, c.group.to_bytes(4, "little"))]
        c.events += ([B.event(201, B.vtext("x"))] if k == 2 else []) + ([B.event(196, B.vtext("C:\\kick.wav"))] if c.sample else [])
        c.events += [B.event(94, u16(v)) for v in c.children] + [B.event(203, B.vtext(c.name))]
        chans.append(c)
    evs = layout(h, chans, groups, True)
    p = B.project(evs, channel_count=3)
    r = p.channels
    check(h, chans, groups, evs, p, r)
    first = lambda c, i: [e for e in c.events if e.id == i][0]
    for k in range(2):
        what = h.choice("what%d" % k, ("numbers", "types", "group", "children", "name", "plugin"))
        if what == "numbers":
            a, b = h.choice("pair%d" % k, ((1, 2), (0, 1)))
            chans[a].iid, chans[b].iid = chans[b].iid, chans[a].iid
            for c in chans:
                first(c, 64).value = c.iid
        elif what == "types":
            c = chans[h.choice("at%d" % k, (1, 2))]
            c.type = h.choice("type%d" % k, (0, 2, 4, 5))
            first(c, 21).value = c.type
        elif what == "group":
            c = chans[h.choice("at%d" % k, (0, 2))]
            c.group = 1 - c.group
            first(c, 145).value = c.group
        elif what == "children":
            chans[0].children = h.choice("kids%d" % k, ([1, 2], [0, 0], [1, 1]))
            for e, v in zip([e for e in chans[0].events if e.id == 94], chans[0].children):
                e.value = v
        elif what == "name":
            chans[1].name = "other"
            first(chans[1], 203).value = "other"
        else:
            chans[2].internal = ""
            first(chans[2], 201).value = ""
        check(h, chans, groups, evs, p, r)


def numbers(h, kinds):
    """every number a channel may have, every child a layer may list"""
    group = [B.event(231, B.vtext("group"))]
    chans = []
    for k, t in enumerate(kinds):
        c = Chan()
        c.iid = h.u16("iid%d" % k)
        for x in chans:
            h.assume(h.not_(h.eq(c.iid, x.iid)))
        c.type, c.group, c.internal, c.sample, c.name = t, 0, None, False, "name %d" % k
        chans.append(c)
    for k, c in enumerate(chans):
        c.kids = [h.choice("child%d.%d" % (k, j), range(len(chans))) for j in range(2)] if c.type == 3 else []
        c.events = [B.event(64, c.iid.to_bytes(2, "little")), B.event(21, bytes([c.type])), B.event(145, bytes(4)), B.event(203, B.vtext(c.name))]
        c.events += [B.event(94, chans[j].iid.to_bytes(2, "little")) for j in c.kids]
    evs = layout(h, chans, group, True)
    p = B.project(evs, channel_count=len(chans))
    h.proveeq("one channel per channel start", len(p.channels), len(chans))
    got = list(p.channels)
    h.proveeq("iteration yields one channel per channel start", len(got), len(chans))
    for c, g in zip(chans, got):
        h.prove("a channel has exactly the events from its start to the next one", same(g.events, c.events))
        h.proveeq("its number", g.iid, c.iid)
        h.prove("its class follows its type", type(g).__name__ == kind_of(h, c))
        if c.type == 3:
            kids = list(g)
            h.proveeq("a layer counts its children", len(g), len(c.kids))
            h.proveeq("a layer has the channels it lists", len(kids), len(c.kids))
            for j, x in zip(c.kids, kids):
                h.prove("as channels of this rack", same(x.events, chans[j].events))


def many(h):
    """racks of hundreds of channels, groups and children, with any numbers"""
    n = h.choice("n", (20, 130, 300))
    ng = h.choice("groups", (1, 20, 70, 300))
    groups = [B.event(231, B.vtext("group %d" % k)) for k in range(ng)]
    chans = []
    at, step = h.int("from", 0, 65535), h.choice("step", (1, 7, 255, 257, 4099))
    for k in range(n):
        c = Chan()
        c.iid = (at + k * step) % 65536
        c.type = (3 if k < 2 else 0, 2, 3, 4, 5)[k % 5 if k % 7 else 0]
        c.group, c.internal, c.sample, c.name = (k * 3) % ng, None, False, "name %d" % k
        chans.append(c)
    for k, c in enumerate(chans):
        c.children = [chans[(k * 5 + j * 3) % n].iid for j in range((n if k == 0 else 3))] if c.type == 3 else []
        c.events = [B.event(64, u16(c.iid)), B.event(21, bytes([c.type])), B.event(145, c.group.to_bytes(4, "little")), B.event(203, B.vtext(c.name))]
        c.events += [B.event(94, u16(v)) for v in c.children]
    check(h, chans, groups, layout(h, chans, groups, True))


def rack(h, n, extra, focus=0):
    ng = h.choice("groups", (1, 2)) if n < 2 else 2
    groups = [B.event(231, B.vtext("group %d" % k)) for k in range(ng)]
    iids = list(range(n))
    if n == 2:
        iids = h.choice("numbers", ([0, 1], [1, 0], [1, 1]))
    chans = [channel(h if k == focus else Lite(h), k, iids[k], sorted({i for i in iids if iids.count(i) == 1}) or [], ng, extra) for k in range(n)]
    check(h, chans, groups, layout(h, chans, groups, h.choice("mixer", (True, False)) if n < 2 else True))


class Lite:
    """fewer choices for the channels around the one in focus"""

    def __init__(self, h):
        self.h, self.sym, self.mode, self.sampling = h, h.sym, h.mode, h.sampling

    def choice(self, name, seq):
        seq = list(seq)
        if name.startswith("type"):
            return self.h.choice(name, (3, 0))
        if name.startswith("child") and not name.startswith("children"):
            return self.h.choice(name, seq)
        return seq[-1] if name.startswith("group") else seq[1] if name.startswith(("internal", "children")) else seq[0]

    def int(self, name, lo, hi):
        return self.h.int(name, lo, hi)


def anyrack(h):
    n = h.int("n", 1, 9)
    ng = h.int("groups", 1, 4)
    groups = [B.event(231, B.vtext("group %d" % k)) for k in range(ng)]
    iids = list(range(n))
    for k in range(n - 1, 0, -1):
        j = h.int("shuffle%d" % k, 0, k)
        iids[k], iids[j] = iids[j], iids[k]
    kids = list(iids)
    for k in range(n - 1):
        if h.int("same%d" % k, 0, 9) == 0:          # two channels with one number
            kids = [i for i in kids if i not in (iids[k], iids[n - 1])]
            iids[k] = iids[n - 1]
    chans = []
    for k in range(n):
        c = channel(h, k, iids[k], kids, ng, [h.choice("x%d.%d" % (k, j), OWN[:]) for j in range(h.int("nx%d" % k, 0, 3))])
        # foreign events anywhere between
        for j in range(h.int("f%d" % k, 0, 3)):
            c.events.insert(h.int("fat%d.%d" % (k, j), 1, len(c.events)), ev(h.choice("fid%d.%d" % (k, j), FOREIGN), 50 + j))
        chans.append(c)
    check(h, chans, groups, layout(h, chans, groups, h.bool("mixer")))


def anysize(h, m, kinds):
    """any number of events of the channels, of other parts and of mixer plugins around the ones that decide"""
    from hs.world import Gap, World
    group = [B.event(231, B.vtext("group %d" % k)) for k in range(2)]
    n = 3 if kinds else h.choice("ids", range(len(OWN)))
    own, other, plug = OWN[n], FOREIGN[n % len(FOREIGN)], sorted(PLUGIN_IDS - {201})[n % 5]
    inside = sorted({own, plug}) + [other]
    items = [B.version(), Gap(other), group[0], Gap(other), group[1], Gap(other)]
    chans = []
    for k in range(m):
        c = Chan()
        c.iid = k
        c.type = t = h.choice("type%d" % k, ((0, 2, 3, 4, 5) if k == 0 else (3, 2)) if kinds else (0,))
        c.group = h.choice("group%d" % k, range(2)) if k == 0 and kinds else 1
        c.internal, c.sample = h.choice("inst%d" % k, ((None, True), ("", True), ("", False), ("Fruity Wrapper", True), (" ", True))) if t in (2, 4) and k == 0 else (None, False)
        c.children = list(range(m))[::-1] if t == 3 else []
        head = [B.event(21, bytes([t])), B.event(145, c.group.to_bytes(4, "little"))]
        head += [B.event(201, B.vtext(c.internal))] if c.internal is not None else []
        head += [B.event(196, B.vtext("C:\\kick.wav"))] if c.sample else []
        head += [B.event(94, u16(v)) for v in c.children]
        c.items = [B.event(64, u16(k)), Gap(*inside)] + head + [Gap(*inside, *((21, 145) if kinds else ()))]
        chans.append(c)
        items += c.items
    items += [B.event(236, bytes(12)), Gap(other, plug), B.event(147, bytes(4))]
    w = World(h, items)
    p = w.project(channel_count=m)
    rack = p.channels
    want = CHANNEL_IDS | PLUGIN_IDS
    h.proveeq("one channel per channel start", len(rack), m)
    got = [x for x in rack]
    h.proveeq("iteration yields one channel per channel start", len(got), m)
    for c, g in zip(chans, got):
        w.lists("a channel has exactly the events from its start to the next one", g.events, c.items, want)
        h.proveeq("its number", g.iid, c.iid)
        h.prove("its class follows its type", type(g).__name__ == kind_of(h, c), lambda: repr((type(g), c.type, c.internal, c.sample)))
        h.prove("its group is the one its number points to", same(g.group.events, [group[c.group]]))
        if kind_of(h, c) == "Layer":
            kids = [x for x in g]
            h.proveeq("a layer counts its children", len(g), len(c.children))
            h.proveeq("a layer has the channels it lists", [k.iid for k in kids], c.children)
            for j, x in zip(c.children, kids):
                w.lists("as channels of this rack", x.events, chans[j].items, want)
    for attr, cls in (("automations", "Automation"), ("layers", "Layer"), ("samplers", "Sampler"), ("instruments", "Instrument")):
        h.proveeq("%s yields the channels of that kind" % attr, [x.iid for x in getattr(p.channels, attr)], [c.iid for c in chans if kind_of(h, c) == cls])
    gs = [x for x in rack.groups]
    h.prove("the groups are those of the rack", len(gs) == 2 and all(same(x.events, [y]) for x, y in zip(gs, group)))
    w.untouched("iterating")


def empty(h):
    from pyflp.exceptions import NoModelsFound
    evs = [B.version(), ev(11, 1), ev(10, 2), ev(236, 9), ev(201, 12)]
    p = B.project(evs)
    h.prove("counting no channels raises", isinstance(h.raises(lambda: len(p.channels)), NoModelsFound))


def units(tier):
    N = "at most 2 channels in the proof (larger racks by sampling); all 256 channel types"
    us = [Unit("rack-1-%s" % "-".join(map(str, x)), rack, {"n": 1, "extra": x}, FN, level="bounded", note=N, audit=20) for x in ((), (128, 215), (219, 0), (213, 212))]
    us += [Unit("rack-2-%d" % k, rack, {"n": 2, "extra": (128,), "focus": k}, FN, level="bounded", note=N, audit=20, max_s=120) for k in (0, 1)]
    us.append(Unit("racks", anyrack, {}, FN, level="bounded", note="random racks of up to 9 channels", sym=False, audit=600 if tier == "quick" else 6000))
    us += [Unit("any-%d-%s" % (m, "kinds" if i else "ids"), anysize, {"m": m, "kinds": i}, FN, note="any number of events around %d channels" % m, audit=20, max_s=240) for m, i in ((1, False), (2, False), (1, True), (2, True))]
    us.append(Unit("renumber", renumber, {}, FN, level="bounded", note="three channels, two edits of what decides", audit=20, max_s=120))
    us += [Unit("numbers-%s" % "-".join(map(str, t)), numbers, {"kinds": t}, FN, note="all channel numbers", audit=20, max_s=120) for t in ((3, 0), (0, 3), (2, 3, 5))]
    us.append(Unit("many", many, {}, FN, level="bounded", note="racks of 20 to 300 channels", sym=False, audit=16))
    us.append(Unit("empty", empty, {}, FN))
    return us
