"""C24: arrangements, tracks and playlist items are attributed correctly."""
from pvc.harness import Unit
from hs import build as B, spec
from hs.c11 import rec_fields
from hs.c14 import Fix
from hs.c22 import ev, same, u16
from hs.c23 import marker

FN = ["Project.arrangements", "Arrangements.__iter__", "Arrangements.__len__", "Arrangements.__getitem__", "Arrangements.current", "Arrangements.max_tracks",
      "Arrangement.tracks", "Arrangement.timemarkers", "Track.__iter__", "Track.__len__", "ChannelPLItem.channel", "PatternPLItem.pattern", "PLItemBase.offsets",
      "EventTree.subtrees", "EventTree.divide", "EventTree.group", "PlaylistEvent.__init__"]
FOREIGN = (61, 125, 190, 202, 252, 10, 156, 231, 193)
NEW, OLD = "20.8.4.2576", "12.4.2.33"


class Item:
    """one playlist record: which track and what it plays, the rest as given"""

    def __init__(self, h, k, new, top, track, chan, pat, base, free):
        self.track, self.chan, self.pat = track, chan, pat
        self.fs = rec_fields("PlaylistEvent", new)
        v = {"track_rvidx": top - track, "pattern_base": base, "item_index": chan if pat is None else pat + base}
        self.parts = [v[f].to_bytes(2, "little") if f in v else spec.field_bytes(h if free else Fix(k), "i%d.%s" % (k, f), r) for f, r in self.fs]

    def at(self, f):
        return [x for x, _ in self.fs].index(f)

    def put(self, f, b):
        self.parts[self.at(f)] = b

    @property
    def data(self):
        return B.sum_(self.parts)


class Arr:
    def __init__(self, k, name, markers, tracks, items):
        self.new = B.event(99, u16(k))
        self.name, self.items = name, items
        self.pl = B.event(233, B.sum_([i.data for i in items])) if items is not None else None
        self.markers = [marker(10 * k + j) for j in range(markers)]
        self.tracks = [[B.event(238, (j + 1).to_bytes(4, "little") + bytes(8))] + ([B.event(239, B.vtext("track %d" % j))] if named else []) for j, named in enumerate(tracks)]
        self.events = [self.new] + ([B.event(241, B.vtext(name))] if name is not None else []) + ([self.pl] if self.pl else [])
        for m in self.markers:
            self.events += m
        for t in self.tracks:
            self.events += t


def project(h, arrs, ver, chans, pats, cur=0, foreign=()):
    evs = [B.version(ver), ev(10, 1), ev(17, 1), ev(18, 2), B.event(231, B.vtext("All"))]
    for i in pats:
        evs += [B.event(65, u16(i)), B.event(193, B.vtext("pattern %d" % i))] + marker(50 + i)
    for i in chans:
        evs += [B.event(64, u16(i)), B.event(21, b"\5"), B.event(145, bytes(4)), B.event(203, B.vtext("channel %d" % i))]
    for n, a in enumerate(arrs):
        es = list(a.events)
        for at, i in foreign:
            es.insert(min(at, len(es)), ev(i, at))
        evs += es
    evs += [B.event(100, cur.to_bytes(2, "little")), ev(217, 1), ev(29, 1), ev(236, 2), ev(147, 3)]
    return B.project(evs, channel_count=len(chans)), evs


def items_of(a, t):
    return [x for x in a.items or [] if x.track == t]


def check_items(h, p, a, tracks, free=()):
    chans, pats = {c.iid: c for c in p.channels}, {x.iid: x for x in p.patterns}
    for t, tr in enumerate(tracks):
        want = items_of(a, t)
        got = list(tr)
        h.proveeq("a track holds the items its number designates, each once", len(got), len(want))
        h.proveeq("and counts them", len(tr), len(want))
        for w, g in zip(want, got):
            h.prove("a channel clip up to the pattern base, above it a pattern clip", type(g).__name__ == ("ChannelPLItem" if w.pat is None else "PatternPLItem"), lambda: repr((type(g), w.chan, w.pat)))
            if w.pat is None:
                h.prove("linked to the channel with that number", same(g.channel.events, list(chans[w.chan].events)))
            else:
                h.prove("linked to the pattern with that number", same(g.pattern.events, list(pats[w.pat].events)))
            for f in ("position", "length", "group"):
                h.prove("with the record's own %s" % f, spec.reads_as(h, getattr(g, f), w.parts[w.at(f)], dict(w.fs)[f]))
            o = g.offsets
            h.prove("with the record's own offsets", h.and_(spec.reads_as(h, o[0], w.parts[w.at("start_offset")], "f32"), spec.reads_as(h, o[1], w.parts[w.at("end_offset")], "f32")))
            h.prove("items by position", type(tr[want.index(w)]) is type(g) and h.eq(tr[want.index(w)].position, g.position))


def check(h, p, evs, arrs, ver):
    raw = [bytes(e) for e in evs]
    h.proveeq("one arrangement per start", len(p.arrangements), len(arrs))
    got = list(p.arrangements)
    h.proveeq("each listed once", len(got), len(arrs))
    h.proveeq("number of tracks the version supports", p.arrangements.max_tracks, 500 if ver == NEW else 199)
    for n, (a, g) in enumerate(zip(arrs, got)):
        h.prove("an arrangement has exactly the events from its start to the next one", same(g.events, a.events), lambda: repr(([e.id for e in g.events], [e.id for e in a.events])))
        h.proveeq("its number", g.iid, a.new.value)
        h.proveeq("its name", g.name, a.name)
        ms = list(g.timemarkers)
        h.proveeq("its time markers are the ones inside it", len(ms), len(a.markers))
        for m, w in zip(ms, a.markers):
            h.prove("with their own events", {id(e) for e in m.events} == {id(e) for e in w})
        ts = list(g.tracks)
        h.proveeq("its tracks are the ones inside it", len(ts), len(a.tracks))
        for t, w in zip(ts, a.tracks):
            h.prove("each track with its own events", same(t.events, w))
        check_items(h, p, a, ts)
        h.prove("found by its position", same(p.arrangements[n].events, a.events))
        if a.name is not None:
            h.prove("found by its name", same(p.arrangements[a.name].events, [x for x in arrs if x.name == a.name][0].events))
    h.prove("reading changes nothing", same(p.events, evs) and [bytes(e) for e in evs] == raw)
    return got


def anitem(h, k, ver, new, top, ntracks, chans, pats, free):
    """an item on any track (or on none of the listed ones), playing any channel or pattern"""
    base = h.u16("base%d" % k) if free else 20480
    if free:
        h.assume(base >= max(chans))
        h.assume(base + max(pats) <= 65535)
    if h.choice("kind%d" % k, ("channel", "pattern")) == "channel":
        chan, pat = h.choice("channel%d" % k, chans), None
    else:
        chan, pat = None, h.choice("pattern%d" % k, pats)
    return Item(h, k, new, top, h.choice("track%d" % k, range(ntracks + 1)), chan, pat, base, free)


def items(h, ver, new, n, ntracks, edited=None):
    """all item contents; every distribution over the tracks; edits"""
    top = 499 if ver == NEW else 198
    chans, pats = (0, 3), (1, 4)
    its = [anitem(h, k, ver, new, top, ntracks, chans if k == 0 else chans[1:], pats if k == 0 else pats[:1], free=k == 0) for k in range(n)]
    a = Arr(0, "a", 1, [True] * ntracks, its)
    other = Arr(1, "b", 1, [False] * ntracks, [Item(h, 9, new, top, 0, 0, None, 20480, False)])
    arrs = [a, other] if h.choice("first", (True, False)) else [other, a]
    p, evs = project(h, arrs, ver, chans, pats)
    A = list(p.arrangements)[arrs.index(a)]
    ts = list(A.tracks)
    check_items(h, p, a, ts)
    edit_item(h, p, evs, arrs, a, ts, chans, pats, its if edited is None else its[edited:edited + 1])


def edit_item(h, p, evs, arrs, a, ts, chans, pats, its):
    """reassign what one item plays, or move it"""
    if not its:
        return
    raw = [bytes(e) for e in evs]
    w = h.choice("item", its)
    if w.track >= len(ts):
        return
    g = list(ts[w.track])[[x is w for x in items_of(a, w.track)].index(True)]
    base = w.parts[w.at("pattern_base")]
    how = h.choice("edit", ("link", "offsets", "position"))
    if how == "link":
        if w.pat is None:
            c = h.choice("to", chans)
            g.channel = {x.iid: x for x in p.channels}[c]
            w.put("item_index", u16(c))
            h.proveeq("the new channel is shown", g.channel.iid, c)
        else:
            c = h.choice("to", pats)
            g.pattern = {x.iid: x for x in p.patterns}[c]
            w.put("item_index", (int.from_bytes(base, "little") + c).to_bytes(2, "little"))
            h.proveeq("the new pattern is shown", g.pattern.iid, c)
    elif how == "position":
        v = h.u32("new")
        g.position = v
        w.put("position", v.to_bytes(4, "little"))
    else:
        bs = [h.bytes("s", 4), h.bytes("e", 4)]
        donor = spec.event_class("PlaylistEvent")(a.pl.id, B.sum_([b if f not in ("start_offset", "end_offset") else bs[f == "end_offset"] for (f, r), b in zip(w.fs, w.parts)]))
        g.offsets = (donor[0]["start_offset"], donor[0]["end_offset"])
        w.put("start_offset", bs[0])
        w.put("end_offset", bs[1])
    for q, e in enumerate(evs):
        if e is a.pl:
            raw[q] = spec.frame(233, B.sum_([i.data for i in a.items]))
    h.prove("editing an item changes only that part of its record", h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)]))
    check_items(h, p, a, list(list(p.arrangements)[arrs.index(a)].tracks)) if how != "link" else None


def far(h, ver):
    """every reversed index: on the track it designates or on none"""
    top = 499 if ver == NEW else 198
    x = h.u16("rvidx")
    n = 3
    it = Item(h, 0, False, top, 0, 0, None, 20480, False)
    it.put("track_rvidx", x.to_bytes(2, "little"))
    p, evs = project(h, [Arr(0, "a", 0, [False] * n, [it])], ver, (0,), (1,))
    ts = list(list(p.arrangements)[0].tracks)
    for t, tr in enumerate(ts):
        h.prove("an item is on the track its reversed index designates and on no other", h.implies(h.eq(x, top - t), len(tr) == 1), lambda: repr((t, len(tr))))
        h.prove("an item is on no other track", h.implies(h.not_(h.eq(x, top - t)), len(tr) == 0), lambda: repr((t, len(tr))))


def renumber(h):
    """what the items play follows the numbers the channels, patterns and records have now"""
    chans, pats = (0, 3), (1, 4)
    its = [Item(h, 0, False, 499, 0, h.choice("channel", chans), None, 20480, False), Item(h, 1, False, 499, 1, None, h.choice("pattern", pats), 20480, False)]
    a = Arr(0, "a", 0, [True] * 3, its)
    p, evs = project(h, [a], NEW, chans, pats)
    A, B_ = list(p.arrangements)[0], p.arrangements
    keep, first = [B_, A], list(A.tracks)
    check_items(h, p, a, first)
    for k in range(2):
        what = h.choice("what%d" % k, ("channels", "patterns", "items", "tracks"))
        if what in ("channels", "patterns"):
            i, n = (64, chans) if what == "channels" else (65, pats)
            for e in evs:
                if e.id == i:
                    e.value = n[1] if e.value == n[0] else n[0]
        elif what == "items":
            c, q = h.choice("channel%d" % k, chans), h.choice("pattern%d" % k, pats)
            its[0].chan, its[1].pat = c, q
            its[0].put("item_index", u16(c))
            its[1].put("item_index", u16(20480 + q))
            a.pl[0]["item_index"] = c
            a.pl[1]["item_index"] = 20480 + q
        else:
            for j, x in enumerate(its):
                x.track = (x.track + 1) % 3
                x.put("track_rvidx", u16(499 - x.track))
                a.pl[j]["track_rvidx"] = 499 - x.track
        check_items(h, p, a, list(A.tracks))
        check_items(h, p, a, list(list(B_)[0].tracks))


def relink(h):
    """any number a channel or pattern may have"""
    top = 499
    chans, pats = (0, 3), (1, 4)
    its = [Item(h, 0, False, top, 0, h.choice("channel", chans), None, 20480, False), Item(h, 1, False, top, 0, None, h.choice("pattern", pats), 20480, False)]
    a = Arr(0, "a", 0, [True], its)
    p, evs = project(h, [a], NEW, chans, pats)
    raw = [bytes(e) for e in evs]
    g = list(list(list(p.arrangements)[0].tracks)[0])
    n, m = h.u16("number"), h.int("number 2", 0, 65535 - 20480)
    c, q = list(p.channels)[0], list(p.patterns)[0]
    c.events.first(64).value = n
    q.events.first(65).value = m
    for x in h.choice("order", ((0,), (1,), (0, 1), (1, 0))):
        if x:
            g[1].pattern = q
            its[1].put("item_index", (20480 + m).to_bytes(2, "little"))
            h.prove("the new pattern is shown", same(g[1].pattern.events, list(q.events)))
        else:
            g[0].channel = c
            its[0].put("item_index", n.to_bytes(2, "little"))
            h.prove("the new channel is shown", same(g[0].channel.events, list(c.events)))
        for e, r in zip(evs, raw):
            if e is a.pl:
                r = spec.frame(233, B.sum_([i.data for i in its]))
            elif e.id in (64, 65):
                continue
            h.proveeq("reassigning updates only that item's index", bytes(e), r)


def numbers(h, n):
    """every number a channel or pattern may have, every pattern base"""
    base = h.u16("base")
    chans, pats = [], []
    for k in range(n):
        for l, c in ((chans, h.u16("channel%d" % k)), (pats, h.int("pattern%d" % k, 1, 65535))):
            for x in l:
                h.assume(h.not_(h.eq(x, c)))
            l.append(c)
            h.assume(c <= base if l is chans else c + base <= 65535)
    evs = [B.version(NEW), B.event(231, B.vtext("All"))]
    own = {}
    for k, i in enumerate(pats):
        own["pattern", k] = [B.event(65, i.to_bytes(2, "little")), B.event(193, B.vtext("pattern %d" % k))]
        evs += own["pattern", k]
    for k, i in enumerate(chans):
        own["channel", k] = [B.event(64, i.to_bytes(2, "little")), B.event(21, b"\5"), B.event(145, bytes(4)), B.event(203, B.vtext("channel %d" % k))]
        evs += own["channel", k]
    plays = [(h.choice("kind%d" % j, ("channel", "pattern")), h.choice("which%d" % j, range(n))) for j in range(2)]
    its = [Item(h, j, False, 499, j, chans[k] if what == "channel" else None, None if what == "channel" else pats[k], base, False) for j, (what, k) in enumerate(plays)]
    a = Arr(0, "a", 0, [True, False], its)
    evs += a.events + [B.event(100, u16(0))]
    p = B.project(evs, channel_count=n)
    ts = list(list(p.arrangements)[0].tracks)
    h.proveeq("its tracks are the ones inside it", len(ts), 2)
    for j, t in enumerate(ts):
        h.proveeq("a track holds the items its number designates, each once", len(t), 1)
        g = list(t)[0]
        h.prove("a channel clip up to the pattern base, above it a pattern clip", type(g).__name__ == ("ChannelPLItem" if plays[j][0] == "channel" else "PatternPLItem"))
        h.prove("linked to the channel or pattern with that number", same(getattr(g, plays[j][0]).events, own[plays[j]]))


def many(h):
    """hundreds of arrangements, tracks, markers, channels and patterns, thousands of items"""
    top = 499
    nt = h.choice("tracks", (3, 300, 500))
    ni = h.choice("items", (5, 1501, 3001)) if nt < 500 else 40
    na = h.choice("arrangements", (1, 3)) if ni > 40 or nt > 3 else h.choice("few", (40, 150, 300))
    at, step = h.int("from", 0, 16000), h.choice("step", (1, 7, 31))
    chans, pats = tuple(at + k * step for k in range(40)), tuple(at + 1 + k * step for k in range(40))
    arrs = []
    for k in range(na):
        its = []
        for j in range(ni if k == 0 else 3):
            t = (j * 7 + k) % (nt + 2)
            its.append(Item(h, j, False, top, t, None if j % 2 else chans[j % 40], pats[j % 40] if j % 2 else None, (20480, 30000)[j % 3 == 0], False))
        arrs.append(Arr(k, "a%d" % k, 200 if k == 1 or na == 1 else 0, [j % 3 == 0 for j in range(nt if k == 0 else 2)], its))
    cur = h.int("cur", 0, na - 1)
    p, evs = project(h, arrs, NEW, chans, pats, cur)
    got = list(p.arrangements)
    h.proveeq("one arrangement per start", len(p.arrangements), na)
    h.proveeq("each listed once", len(got), na)
    for a, g in zip(arrs, got):
        h.prove("an arrangement has exactly the events from its start to the next one", same(g.events, a.events))
    h.prove("the current arrangement is the one at the stored position", same(p.arrangements.current.events, arrs[cur].events))
    for k in {0, min(1, na - 1)}:
        a, g = arrs[k], got[k]
        ms = list(g.timemarkers)
        h.proveeq("its time markers are the ones inside it", len(ms), len(a.markers))
        for m, w in zip(ms, a.markers):
            h.prove("with their own events", {id(e) for e in m.events} == {id(e) for e in w})
        ts = list(g.tracks)
        h.proveeq("its tracks are the ones inside it", len(ts), len(a.tracks))
        per = {}
        for x in a.items:
            per.setdefault(x.track, []).append(x)
        for j, (t, w) in enumerate(zip(ts, a.tracks)):
            h.prove("each track with its own events", same(t.events, w))
            want = per.get(j, [])
            h.proveeq("a track holds the items its number designates, each once", len(t), len(want))
            for x, y in zip(want, t):
                h.prove("a channel clip up to the pattern base, above it a pattern clip", type(y).__name__ == ("ChannelPLItem" if x.pat is None else "PatternPLItem"))
                h.prove("linked to the channel or pattern with that number", (y.channel.iid == x.chan) if x.pat is None else (y.pattern.iid == x.pat))
                h.prove("with the record's own position", y.position == int.from_bytes(x.parts[x.at("position")], "little"))


VERS = (("20.8.4.2576", 499), ("12.9.1.1", 499), ("12.9.1", 499), ("12.9.0.9999", 198), ("12.9.0", 198), ("12.10.0", 499), ("13.0.0", 499), ("11.9.9", 198), ("9.10.5", 198), ("24.1.1.4", 499))


def versions(h):
    ver, top = h.choice("version", VERS)
    it = Item(h, 0, h.choice("fl21", (True, False)), top, h.choice("track", (0, 1)), 0, None, 20480, False)
    a = Arr(0, "a", 0, [True, False], [it])
    p, evs = project(h, [a], ver, (0,), (1,))
    check_items(h, p, a, list(list(p.arrangements)[0].tracks))
    h.proveeq("as many tracks as the version supports", p.arrangements.max_tracks, top + 1)


def arrangements(h, n):
    names = ("A", "B", None) if n < 2 else ("A", None)
    arrs = []
    for k in range(n):
        its = [None, [], [Item(h, k, False, 499, 1, 0, None, 20480, False)]][h.choice("playlist%d" % k, (0, 1, 2) if n < 2 else (0, 2) if n < 3 else (2,))]
        arrs.append(Arr(k, h.choice("name%d" % k, names), h.choice("markers%d" % k, (0, 1, 2) if n < 2 else (0, 1)), h.choice("tracks%d" % k, ((True,), (False, True)) if n < 3 else ((False, True),)), its))
    foreign = h.choice("foreign", ((), ((1, 252), (3, 10), (4, 217)))[:2] if n < 3 else ((),))
    cur = h.choice("current", range(n)) if n > 1 else 0
    p, evs = project(h, arrs, NEW, (0,), (1,), cur, [f for f in foreign if f[1] != 217])
    check(h, p, evs, arrs, NEW)
    h.prove("the current arrangement is the one at the stored position", same(p.arrangements.current.events, arrs[cur].events))


def current(h, n):
    from pyflp.exceptions import ModelNotFound
    arrs = [Arr(k, "n%d" % k, 1, (False,), None) for k in range(n)]
    v = h.u16("selected")
    p, evs = project(h, arrs, NEW, (0,), (1,), v)
    if v >= n:
        h.prove("a position without arrangement raises", isinstance(h.raises(lambda: p.arrangements.current), ModelNotFound))
        return
    for k in range(n):
        if v == k:
            h.prove("the current arrangement is the one at the stored position", same(p.arrangements.current.events, arrs[k].events))


def files(h):
    ver = h.choice("version", (NEW, OLD, "12.9.1.1", "12.9.0.1"))
    top = 499 if ver in (NEW, "12.9.1.1") else 198
    new = h.bool("fl21")
    chans, pats = tuple(range(h.int("chans", 1, 5))), tuple(range(1, h.int("pats", 1, 5) + 1))
    arrs = []
    for k in range(h.int("n", 1, 5)):
        tracks = [h.bool("named%d.%d" % (k, j)) for j in range(h.int("tracks%d" % k, 1, 12))]
        its = [anitem(h, 100 * k + j, ver, new, top, len(tracks), chans, pats, h.bool("free%d.%d" % (k, j))) for j in range(h.int("items%d" % k, 0, 8))] if h.bool("playlist%d" % k) else None
        arrs.append(Arr(k, h.choice("name%d" % k, ("A", "B", "C", None)), h.int("markers%d" % k, 0, 4), tracks, its))
    cur = h.int("cur", 0, len(arrs) - 1)
    p, evs = project(h, arrs, ver, chans, pats, cur, [(h.int("at%d" % j, 1, 20), h.choice("f%d" % j, FOREIGN)) for j in range(h.int("foreign", 0, 3))])
    got = check(h, p, evs, arrs, NEW if top == 499 else OLD)
    k = h.int("edited", 0, len(arrs) - 1)
    edit_item(h, p, evs, arrs, arrs[k], list(got[k].tracks), chans, pats, arrs[k].items)
    h.prove("the current arrangement is the one at the stored position", same(p.arrangements.current.events, arrs[cur].events))


def empty(h):
    from pyflp.exceptions import NoModelsFound
    p = B.project([B.version(), ev(17, 1), ev(65, 2)] + marker(1) + [ev(29, 3)])
    h.prove("counting no arrangements raises", isinstance(h.raises(lambda: len(p.arrangements)), NoModelsFound))
    h.prove("no selection stored: nothing", p.arrangements.current is None)


def anysize(h, n, old=False):
    """any number of events of the arrangements, tracks and other parts around the ones that decide"""
    from hs.world import Gap, World
    q = h.choice("ids", range(len(FOREIGN)) if n == 1 else (0, 1))
    other = (FOREIGN[:7] + (193, 224))[q]
    top = 499
    items = [B.version(NEW), Gap(61), B.event(231, B.vtext("All")), B.event(65, u16(2)), Gap(other, 33, 34, 148, 205), B.event(64, u16(0)), B.event(21, b"\5"), B.event(145, bytes(4)), Gap(other)]
    arrs = []
    for k in range(n):
        its = [Item(h, 5 * k + j, True, top, t, 0 if j % 2 else None, None if j % 2 else 2, 20480, False) for j, t in enumerate((0, 1, 0)[:2 + q % 2])]
        a = Arr(k, "a%d" % k, 1, (True, False)[:2 - k], its)
        a.parts = [a.new, Gap(other), a.events[1], Gap(other, 241), a.pl, Gap(other)]
        for e in a.markers[0]:
            a.parts.append(e)
        a.parts.append(Gap(other))
        a.tr = []
        for t in a.tracks:
            x = t + [Gap(other, 239)]
            a.tr.append(x)
            a.parts += x
        arrs.append(a)
        items += a.parts
    items += [B.event(100, u16(n - 1)), Gap(other)]
    w = World(h, items)
    p = w.project()
    own = {99, 241, 233, 238, 239}
    h.proveeq("one arrangement per start", len(p.arrangements), n)
    got = [x for x in p.arrangements]
    h.proveeq("each listed once", len(got), n)
    for k, (a, g) in enumerate(zip(arrs, got)):
        w.lists("an arrangement has exactly the events from its start to the next one", g.events, a.parts, own)
        h.proveeq("its number", g.iid, k)
        h.proveeq("its name", g.name, a.name)
        ms = [m for m in g.timemarkers]
        h.prove("its time markers are the ones inside it", len(ms) == 1 and {id(e) for e in ms[0].events} == {id(e) for e in a.markers[0]})
        ts = [t for t in g.tracks]
        h.proveeq("its tracks are the ones inside it", len(ts), len(a.tracks))
        for t, x in zip(ts, a.tr):
            w.lists("each track with its own events", t.events, x, {238, 239})
        for j, t in enumerate(ts):
            want = items_of(a, j)
            gs = [x for x in t]
            h.proveeq("a track holds the items its number designates, each once", len(gs), len(want))
            for x, y in zip(gs, want):
                h.prove("a channel clip up to the pattern base, above it a pattern clip", type(x).__name__ == ("ChannelPLItem" if y.pat is None else "PatternPLItem"))
                h.prove("linked to the channel or pattern with that number", x.channel.iid == 0 if y.pat is None else x.pattern.iid == 2)
                h.prove("with the record's own position", spec.reads_as(h, x.position, y.parts[y.at("position")], "u32"))
        w.lists("found by its position", p.arrangements[k].events, a.parts, own)
        w.lists("found by its name", p.arrangements[a.name].events, a.parts, own)
    w.lists("the current one", p.arrangements.current.events, arrs[-1].parts, own)
    w.untouched("iterating")


def units(tier):
    N = "at most 2 arrangements, 2 tracks, 2 items in the proof (all contents of one item arbitrary); larger projects by sampling"
    us = [Unit("items-%s-%d-%d" % ("new" if v == NEW else "old", new, n), items, {"ver": v, "new": bool(new), "n": n, "ntracks": 2}, FN, level="bounded", note=N, audit=10)
          for v, new, n in ((NEW, 0, 1), (NEW, 1, 1), (OLD, 0, 1))]
    us += [Unit("items-new-0-2-%d" % k, items, {"ver": NEW, "new": False, "n": 2, "ntracks": 2, "edited": k}, FN, level="bounded", note=N, audit=10, max_s=120) for k in (0, 1)]
    us.append(Unit("relink", relink, {}, FN, note="all channel and pattern numbers", audit=20))
    us.append(Unit("renumber", renumber, {}, FN, level="bounded", note="two items, two renumberings", audit=20))
    us += [Unit("track-index-%d" % k, far, {"ver": v}, FN, level="bounded", note="3 tracks, all reversed indexes", audit=10) for k, v in enumerate((NEW, OLD))]
    us += [Unit("numbers-%d" % n, numbers, {"n": n}, FN, note="all channel and pattern numbers, all pattern bases", audit=20, max_s=120) for n in (1, 2)]
    us.append(Unit("many", many, {}, FN, level="bounded", note="up to 500 tracks, 3001 items, 300 arrangements", sym=False, audit=16))
    us.append(Unit("versions", versions, {}, FN, audit=30))
    us += [Unit("arrangements-%d" % n, arrangements, {"n": n}, FN, level="bounded", note=N, audit=10) for n in (1, 2, 3)]
    us += [Unit("current-%d" % n, current, {"n": n}, FN, level="bounded", note=N, audit=10) for n in (1, 2)]
    us.append(Unit("files", files, {}, FN, level="bounded", note="random projects of up to 5 arrangements, 12 tracks and 8 items each", sym=False, audit=400 if tier == "quick" else 4000))
    us.append(Unit("empty", empty, {}, FN))
    us += [Unit("any-%d" % n, anysize, {"n": n}, FN, note="any number of events around %d arrangements with their tracks" % n, audit=30, max_s=240) for n in (1, 2)]
    return us
