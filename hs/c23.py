"""C23: patterns gather all of their events, however the file splits them."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c09 import join
from hs.c11 import done, records, surrounded
from hs.c14 import Fix
from hs.c22 import ev, same, u16

PATTERN = (26, 150, 160, 161, 162, 164, 193)
MARKER = (33, 34, 148, 205)
FOREIGN = (61, 125, 190, 202, 252, 10, 156, 64, 128, 236)
FN = ["Project.patterns", "Patterns.__iter__", "Patterns.__len__", "Patterns.current", "Pattern.iid", "Pattern.notes", "Pattern.controllers", "Pattern.timemarkers",
      "EventTree.subtree", "EventTree.group"]


def marker(k):
    return [B.event(148, (k * 7 + 1).to_bytes(4, "little")), B.event(33, bytes([(k + 1) % 256])), B.event(34, b"\4"), B.event(205, B.vtext("m%d" % k))]


class Pat:
    def __init__(self, iid):
        self.iid, self.events, self.starts, self.markers = iid, [], [], []


def build(h, blocks, tail):
    """blocks: (iid, item kinds); returns (project events, patterns in order of first appearance)"""
    evs, pats = [B.version(), ev(10, 1), ev(30, 2), ev(67, 3)], {}
    n = 0
    for iid, items in blocks:
        p = pats.setdefault(iid, Pat(iid))
        s = B.event(65, u16(iid))
        evs.append(s)
        p.events.append(s)
        p.starts.append(s)
        for it in items:
            n += 1
            if it == "marker":
                es = marker(n)
                p.markers.append(es)
            else:
                es = [ev(it, n)]
            evs += es
            p.events += [e for e in es if e.id in PATTERN + MARKER + (223, 224)]
    if tail:
        evs += [ev(99, 1), ev(241, 2)] + marker(90) + [ev(233, 3)] + marker(91) + [ev(100, 4)]
    return evs, list(pats.values())


def check(h, evs, pats, p=None, coll=None):
    raw = [bytes(e) for e in evs]
    p = p or B.project(evs)
    h.proveeq("as many patterns as distinct numbers", len(coll or p.patterns), len(pats))
    got = list(coll or p.patterns)
    h.proveeq("each listed once", len(got), len(pats))
    for x, g in zip(pats, got):
        h.prove("a pattern has exactly the events after its start markers, in order of first appearance", same(g.events, x.events), lambda: repr(([e.id for e in g.events], [e.id for e in x.events])))
        h.proveeq("its number", g.iid, x.iid)
        ms = list(g.timemarkers)
        h.proveeq("its time markers", len(ms), len(x.markers))
        for m, w in zip(ms, x.markers):
            h.prove("with their own events", {id(e) for e in m.events} == {id(e) for e in w})
        for a, i in (("notes", 224), ("controllers", 223)):
            own = [e for e in x.events if e.id == i]
            items = list(getattr(g, a))
            h.proveeq("%s: each stored record once" % a, len(items), len(own[0]) if own else 0)
    h.prove("reading changes nothing", same(p.events, evs) and [bytes(e) for e in evs] == raw)
    return p, got


ITEMS = ("marker", 224, 223, 193, 150, 26, 252)


def patterns(h, n, k):
    blocks = [(h.choice("iid%d" % b, (1, 2, 3)[:n]), [h.choice("it%d.%d" % (b, j), ITEMS[:4] + ITEMS[6:] if n * k < 3 else ITEMS[:2]) for j in range(k)]) for b in range(n)]
    evs, pats = build(h, blocks, h.choice("arrangement", (True, False)))
    p, got = check(h, evs, pats)
    if not got:
        return
    edit(h, evs, pats, got, h.choice("which", range(len(pats))))


def edit(h, evs, pats, got, w):
    raw = [bytes(e) for e in evs]
    v = h.u16("new")
    got[w].iid = v
    for q, e in enumerate(evs):
        if any(e is s for s in pats[w].starts):
            raw[q] = spec.frame(65, v.to_bytes(2, "little"))
    h.prove("changing a pattern's number updates all its start markers and nothing else", h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)]))
    h.proveeq("and reads back", got[w].iid, v)


def renumber(h):
    """the patterns follow the numbers their starts have now"""
    evs, _ = build(h, [(1, [224, "marker"]), (2, [193]), (1, [150]), (3, [224])], h.choice("arrangement", (True, False)))
    p = B.project(evs)
    coll = p.patterns
    check(h, evs, _, p, coll)
    starts = [e for e in evs if e.id == 65]
    for k in range(2):
        s = h.choice("start%d" % k, range(4))
        starts[s].value = h.choice("number%d" % k, (1, 2, 3, 9))
        pats, cur = {}, None
        for e in evs:
            if e.id == 99:
                break
            if e.id == 65:
                cur = pats.setdefault(e.value, Pat(e.value))
                cur.starts.append(e)
            if cur is not None and e.id in PATTERN + MARKER + (65, 223, 224):
                cur.events.append(e)
        for x in pats.values():
            q = [e for e in x.events if e.id in MARKER]
            x.markers = [q[j:j + 4] for j in range(0, len(q), 4)]
        check(h, evs, list(pats.values()), p, coll)


def numbers(h, blocks):
    """every number a pattern may have"""
    ns = []
    for k in range(max(blocks) + 1):
        v = h.int("iid%d" % k, 1, 65535)
        for x in ns:
            h.assume(h.not_(h.eq(v, x)))
        ns.append(v)
    evs = [B.version(), ev(10, 1), B.event(67, ns[h.choice("selected", range(len(ns)))].to_bytes(2, "little"))]
    sel = evs[-1]
    pats = [Pat(v) for v in ns]
    for n, k in enumerate(blocks):
        es = [B.event(65, ns[k].to_bytes(2, "little")), ev((193, 224, 150)[n % 3], n)]
        pats[k].starts.append(es[0])
        pats[k].events += es
        evs += es
    p = B.project(evs)
    h.proveeq("as many patterns as distinct numbers", len(p.patterns), len(pats))
    got = list(p.patterns)
    h.proveeq("each listed once", len(got), len(pats))
    for x, g in zip(pats, got):
        h.prove("a pattern has exactly the events after its start markers, in order of first appearance", same(g.events, x.events), lambda: repr(([e.id for e in g.events], [e.id for e in x.events])))
        h.proveeq("its number", g.iid, x.iid)
    cur = p.patterns.current
    h.prove("the current pattern is the one whose number is stored", cur is not None and h.eq(cur.iid, sel.value))


def many(h):
    """hundreds of patterns and markers, with any numbers"""
    n, step, at = h.choice("n", (30, 200, 1200)), h.choice("step", (1, 7, 254, 256, 4099)), h.int("from", 0, 65534)
    ns = [(at + k * step) % 65535 + 1 for k in range(n)]
    blocks = [(i, [224] + ["marker"] * (150 if k == 1 else k % 2)) for k, i in enumerate(ns)] + [(i, [193]) for i in ns[::h.choice("order", (1, -1))]]
    evs, pats = build(h, blocks, True)
    k = h.int("which", 0, n - 1)
    evs[3].value = ns[k]
    p, got = check(h, evs, pats)
    cur = p.patterns.current
    h.prove("the current pattern is the one whose number is stored", cur is not None and same(cur.events, pats[k].events))
    edit(h, evs, pats, got, k)


def current(h, n):
    iids = [(1,), (1, 2), (2, 1, 3)][n - 1]
    blocks = [(i, [193]) for i in iids] + [(i, [224]) for i in iids]
    evs, pats = build(h, blocks, True)
    have = h.choice("stored", (True, False))
    sel = h.u16("selected")
    evs = [e for e in evs if e.id != 67]
    if have:
        evs.insert(3, B.event(67, sel.to_bytes(2, "little")))
    p = B.project(evs)
    cur = p.patterns.current
    if not have:
        h.prove("no selection stored: nothing", cur is None)
        return
    for x in pats:
        if sel == x.iid:
            h.prove("the current pattern is the one whose number is stored", cur is not None and same(cur.events, x.events))
            return
    h.prove("no pattern with the stored number: nothing", cur is None)


def contents(h, n, attr):
    """notes and controllers: one item per stored record, in order, with the record's values"""
    cls, id = {"notes": ("NotesEvent", 224), "controllers": ("ControllerEvent", 223)}[attr]
    fs, recs, data = records(h, cls, n, False)
    evs = [B.version(), B.event(65, u16(1)), B.event(id, data), B.event(65, u16(2)), ev(id, 3)]
    p = B.project(evs)
    got = list(getattr(list(p.patterns)[0], attr))
    h.proveeq("%s: each stored record once" % attr, len(got), n)
    for g, rec in zip(got, recs):
        for (f, r), b in zip(fs, rec):
            if not f.startswith("_") and f not in ("key", "flags"):
                h.prove("%s of each record, in order" % f, spec.reads_as(h, getattr(g, f), b, r))


def any_contents(h, attr):
    """any number of records"""
    cls, id = {"notes": ("NotesEvent", 224), "controllers": ("ControllerEvent", 223)}[attr]
    fs, pre, n, rec, post, m = surrounded(h, cls, False)
    evs = [B.version(), B.event(65, u16(1)), B.event(id, pre + join(rec) + post), B.event(65, u16(2)), ev(id, 3)]
    done(h)
    p = B.project(evs)
    got = list(getattr(list(p.patterns)[0], attr))
    h.prove("%s: each stored record once" % attr, len(got) == n + 1 + m)
    if h.sym:
        from pvc.blocks import Many
        at = [x for x in got if type(x) is not Many]
        h.prove("one item for the record", sum(1 for _ in at) == 1)
        g = at[0]
    else:
        g = got[n]
    for (f, r), b in zip(fs, rec):
        if not f.startswith("_") and f not in ("key", "flags"):
            h.prove("%s of each record, in order" % f, spec.reads_as(h, getattr(g, f), b, r))
    new = spec.field_bytes(h, "new", "u32")
    g.position = spec.le(new)
    j = [x[0] for x in fs].index("position")
    h.proveeq("an edit reaches its own record", bytes(evs[2]), spec.frame(id, pre + join([new if q == j else b for q, b in enumerate(rec)]) + post))


def anypatterns(h):
    top = h.choice("numbers", (3, 6, 60, 65535))
    blocks = [(h.int("iid%d" % b, 1, top), [h.choice("it%d.%d" % (b, j), ITEMS + FOREIGN) for j in range(h.int("n%d" % b, 0, 5))]) for b in range(h.int("blocks", 1, h.choice("many", (6, 12, 40))))]
    evs, pats = build(h, blocks, h.bool("arrangement"))
    p, got = check(h, evs, pats)
    edit(h, evs, pats, got, h.int("which", 0, len(pats) - 1))


def anysize(h, m):
    """any number of events of the patterns and of other parts around the start markers"""
    from hs.world import Gap, World
    n = h.choice("ids", range(max(len(PATTERN), len(FOREIGN)))) if m == 1 else 1
    own, other = PATTERN[n % len(PATTERN)], FOREIGN[n % len(FOREIGN)]
    inside = (own, 224, other)
    items = [B.version(), Gap(other), B.event(67, u16(h.choice("selected", (1, 2, 9)))), Gap(other)]
    pats = {}
    for b in range(m):
        i = h.choice("iid%d" % b, (2, 1, 3)[:b + 1])
        p = pats.setdefault(i, Pat(i))
        s = B.event(65, u16(i))
        p.starts.append(s)
        more = [s, Gap(*inside)]
        if b == m - 1:
            es = marker(b)
            p.markers.append(es)
            more += es + [Gap(*inside)]
        p.events += more
        items += more
    items += [B.event(99, u16(0)), Gap(other, *MARKER), B.event(241, b"a\0\0\0"), Gap(own, *MARKER[:1])]
    pats = list(pats.values())
    last = [p for p in pats if any(x is y for x in p.starts[-1:] for y in [s])][0]
    last.events.append(items[-1])          # pattern events anywhere, markers only before the first arrangement
    w = World(h, items)
    p = w.project()
    want = set(PATTERN + (65, 223, 224))
    h.proveeq("as many patterns as distinct numbers", len(p.patterns), len(pats))
    got = [x for x in p.patterns]
    h.proveeq("each listed once", len(got), len(pats))
    for x, g in zip(pats, got):
        w.lists("a pattern has exactly the events after its start markers, in order of first appearance", g.events, x.events, want)
        h.proveeq("its number", g.iid, x.iid)
        ms = [q for q in g.timemarkers]
        h.proveeq("its time markers", len(ms), len(x.markers))
        for a, b in zip(ms, x.markers):
            h.prove("with their own events", {id(e) for e in a.events} == {id(e) for e in b})
    w.untouched("iterating")
    cur = p.patterns.current
    sel = [x for x in pats if x.iid == items[2].value]
    if sel:
        w.lists("the current pattern is the one whose number is stored", cur.events, sel[0].events, want)
    else:
        h.prove("no pattern with the stored number: nothing", cur is None)
    k = h.choice("which", range(len(pats)))
    v = h.u16("new")
    got[k].iid = v
    h.proveeq("and reads back", got[k].iid, v)
    w.untouched("changing a pattern's number updates its start markers only", [(e, spec.frame(65, v.to_bytes(2, "little"))) for e in pats[k].starts])


def empty(h):
    from pyflp.exceptions import NoModelsFound
    p = B.project([B.version(), ev(30, 1), ev(67, 2), ev(99, 3)] + marker(1))
    h.prove("counting no patterns raises", isinstance(h.raises(lambda: len(p.patterns)), NoModelsFound))


def units(tier):
    N = "at most 3 blocks in the proof, longer files by sampling; numbers and contents arbitrary"
    us = [Unit("patterns-%d-%d" % (n, k), patterns, {"n": n, "k": k}, FN, level="bounded", note=N, audit=0) for n, k in ((1, 0), (1, 2), (2, 1), (2, 2), (3, 0), (3, 1))]
    us += [Unit("current-%d" % n, current, {"n": n}, FN, audit=20) for n in (1, 2, 3)]
    us += [Unit("%s-%d" % (a, n), contents, {"n": n, "attr": a}, FN, level="bounded", note="at most 2 records", audit=20) for a in ("notes", "controllers") for n in (0, 1, 2)]
    us += [Unit("any-" + a, any_contents, {"attr": a}, FN, note="any number of records", audit=20) for a in ("notes", "controllers")]
    us.append(Unit("files", anypatterns, {}, FN, level="bounded", note="random files of up to 40 blocks", sym=False, audit=600 if tier == "quick" else 6000))
    us += [Unit("any-%d" % m, anysize, {"m": m}, FN, note="any number of events around %d start markers" % m, audit=30, max_s=240) for m in (1, 2, 3)]
    us.append(Unit("renumber", renumber, {}, FN, level="bounded", note="four blocks, two renumberings", audit=20, max_s=120))
    us += [Unit("numbers-%s" % "".join(map(str, b)), numbers, {"blocks": b}, FN, note="all pattern numbers", audit=20, max_s=120) for b in ((0,), (0, 1), (0, 1, 0), (0, 1, 0, 1), (0, 1, 2, 1, 0))]
    us.append(Unit("many", many, {}, FN, level="bounded", note="30 to 1200 patterns", sym=False, audit=10))
    us.append(Unit("empty", empty, {}, FN))
    return us
