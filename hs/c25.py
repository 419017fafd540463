"""C25: mixer parameters, slots and EQ bands belong to the right insert."""
from pvc.harness import Unit
from hs import build as B, spec
from hs.c14 import Fix
from hs.c22 import ev, same, u16

FN = ["MixerParamsEvent.__init__", "Project.mixer", "Mixer._insert_trees", "Mixer.__iter__", "Mixer.__len__", "Mixer.max_inserts", "Mixer.max_slots", "Insert.__iter__",
      "Insert.__len__", "Insert.iid", "Insert.dock", "Insert.eq", "_InsertEQProp.__get__", "_InsertEQBandProp.__get__", "_InsertEQBandProp.__set__",
      "_MixerParamProp.__get__", "_MixerParamProp.__set__", "EventTree.divide"]

OWN = {"volume": 192, "pan": 193, "stereo_separation": 194}
for _n, _b in enumerate(("low", "mid", "high")):
    OWN.update({"eq.%s.gain" % _b: 208 + _n, "eq.%s.freq" % _b: 216 + _n, "eq.%s.reso" % _b: 224 + _n})
SLOT = {"enabled": 0, "mix": 1}
INSERT_IDS = (95, 147, 149, 154, 204, 235, 236)
PLUGIN_IDS = (128, 155, 201, 203, 212, 213)
FOREIGN = (61, 125, 190, 202, 252, 10, 156, 231, 193)


def get(o, path):
    for a in path.split("."):
        o = getattr(o, a)
    return o


def put(o, path, v):
    *p, a = path.split(".")
    for x in p:
        o = getattr(o, x)
    setattr(o, a, v)


class Rec:
    def __init__(self, h, k, id, addr, msg, free):
        g = h if free else Fix(k)
        self.id, self.addr, self.msg = id, addr, msg
        self.head = g.bytes("r%d.u4" % k, 4)
        self.u1 = g.bytes("r%d.u1" % k, 1)

    @property
    def data(self):
        return B.sum_([self.head, self.id.to_bytes(1, "little"), self.u1, self.addr.to_bytes(2, "little"), self.msg.to_bytes(4, "little", signed=True)])

    def insert(self):
        return (self.addr >> 6) & 0x7F

    def slot(self):
        return self.addr & 0x3F


def insert(k, nslots, ids=(204, 149, 95, 235), plugin=(201, 212, 203, 155, 128, 213)):
    es = [ev(236, k)] + [ev(i, 10 * k + n) for n, i in enumerate(ids)]
    slots = []
    for j in range(nslots):
        s = [B.event(98, u16(j))] + ([ev(i, 20 * k + n + j) for n, i in enumerate(plugin)] if j == 0 else [])
        slots.append(s)
        es += s
    es += [B.event(154, bytes([k, 0, 0, 0])), B.event(147, bytes([k + 1, 0, 0, 0]))]
    return es, slots


def project(recs, inserts, ver="20.8.4.2576", foreign=()):
    # a channel with a plugin before the mixer, events of other parts after it
    evs = [B.version(ver), ev(10, 1), B.event(231, B.vtext("All")), B.event(64, u16(0)), B.event(21, b"\2"), B.event(201, B.vtext("x")), ev(212, 1), B.event(203, B.vtext("ch")), ev(155, 1), ev(128, 1), B.event(145, bytes(4)), ev(29, 1)]
    for es, _ in inserts:
        for at, i in foreign:
            es = es[:at] + [ev(i, at)] + es[at:]
        evs += es
    pe = B.event(225, B.sum_([r.data for r in recs])) if recs is not None else None
    if pe is not None:
        evs.append(pe)
    return B.project(evs), evs, pe


def last(h, recs, id, i, slot=None):
    """index of the record a parameter is stored in (the last one addressed to it)"""
    at = None
    for n, r in enumerate(recs or []):
        if r.id == id and r.insert() == i and (slot is None or r.slot() == slot):
            at = n
    return at


def check_param(h, p, evs, pe, recs, target, path, at):
    """target(p): the insert or slot; at: the record its parameter is stored in or None"""
    from pyflp.exceptions import PropertyCannotBeSet
    raw = [bytes(e) for e in evs]
    o = target(p)
    if at is None:
        h.prove("a parameter without record reads as nothing", get(o, path) is None, lambda: path)
        new = h.i32("new")
        e = h.raises(lambda: put(o, path, new))
        h.prove("setting a parameter without record is refused", isinstance(e, PropertyCannotBeSet), lambda: repr((path, e)))
        h.prove("and changes nothing", h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)]))
        return
    h.prove("a parameter reads the record addressed to it", h.eq(get(o, path), recs[at].msg), lambda: repr((path, get(o, path), recs[at].msg)))
    new = h.i32("new")
    put(o, path, new)
    recs[at].msg = new
    for q, e in enumerate(evs):
        if e is pe:
            raw[q] = spec.frame(225, B.sum_([r.data for r in recs]))
    h.prove("setting a parameter writes that record only", h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)]), lambda: path)
    h.prove("and reads back", h.eq(get(target(p), path), new))


def nth(i, j=None):
    if j is None:
        return lambda p: list(p.mixer)[i]
    return lambda p: list(list(p.mixer)[i])[j]


def own(h, n, ids):
    """inserts' own parameters: n records with any address"""
    recs = [Rec(h, k, h.choice("id%d" % k, ids), h.u16("addr%d" % k), h.i32("msg%d" % k), True) for k in range(n)]
    p, evs, pe = project(recs, [insert(k, 1) for k in range(2)])
    i = h.choice("insert", (0, 1))
    path = h.choice("param", [a for a, v in OWN.items() if v in ids])
    check_param(h, p, evs, pe, recs, nth(i), path, last(h, recs, OWN[path], i))


def slots(h, n):
    recs = [Rec(h, k, h.choice("id%d" % k, (0, 1, 192) if n < 2 else (0, 1)), h.u16("addr%d" % k), h.i32("msg%d" % k), True) for k in range(n)]
    p, evs, pe = project(recs, [insert(k, 2) for k in range(2)])
    i, j = h.choice("insert", (0, 1) if n < 2 else (1,)), h.choice("slot", (0, 1))
    path = h.choice("param", list(SLOT))
    check_param(h, p, evs, pe, recs, nth(i, j), path, last(h, recs, SLOT[path], i, j))


def anyid(h, i):
    """a record of any ID is the parameter that ID names, and no other"""
    id = h.u8("id")
    recs = [Rec(h, 0, id, (i << 6) | 1, h.i32("msg"), True)]
    p, evs, pe = project(recs, [insert(k, 2) for k in range(i + 1)])
    x = nth(i)(p)
    for path, v in OWN.items():
        g = get(x, path)
        if id == v:
            h.prove("a record is the parameter its ID names", h.eq(g, recs[0].msg), lambda: path)
        else:
            h.prove("and no other", g is None, lambda: repr((path, g)))
    for j in (0, 1):
        s = list(x)[j]
        for path, v in SLOT.items():
            g = get(s, path)
            if id == v and j == 1:
                h.prove("a slot record is the slot parameter its ID names", h.eq(g, recs[0].msg), lambda: path)
            else:
                h.prove("and no other slot parameter", g is None, lambda: repr((path, j, g)))


def far(h, i):
    """inserts further away: only the records addressed to them"""
    kind = h.choice("kind", ("own", "slot"))
    recs = [Rec(h, 0, 192 if kind == "own" else 1, (h.int("top", 0, 7) << 13) | (h.int("ins", max(0, i - 9), 127) << 6) | h.int("at", 0, 63), h.i32("msg"), True)]
    p, evs, pe = project(recs, [insert(k % 50, 1 if k != i else 2, (), ()) for k in range(i + 1)])
    if kind == "own":
        check_param(h, p, evs, pe, recs, nth(i), "volume", last(h, recs, 192, i))
    else:
        check_param(h, p, evs, pe, recs, nth(i, 1), "mix", last(h, recs, 1, i, 1))


def structure(h, n):
    recs = [None, []][h.choice("params", (0, 1))]
    foreign = h.choice("foreign", ((), ((1, 252), (3, 10), (6, 61))))
    ns = [h.choice("slots%d" % k, (1, 2, 3) if n < 3 else (1, 2)) for k in range(n)]
    ids = [h.choice("ids%d" % k, ((), (204, 149, 95, 235)) if n < 3 else ((204, 149),)) for k in range(n)]
    ins = [insert(k, ns[k], ids[k]) for k in range(n)]
    p, evs, pe = project(recs, ins, foreign=foreign)
    check(h, p, evs, ins)


def check(h, p, evs, ins):
    raw = [bytes(e) for e in evs]
    m = p.mixer
    h.proveeq("as many inserts as stored", len(m), len(ins))
    got = list(m)
    h.proveeq("each insert once", len(got), len(ins))
    for k, (g, (es, sl)) in enumerate(zip(got, ins)):
        h.prove("an insert has the events up to its end", same(g.events, es), lambda: repr(([e.id for e in g.events], [e.id for e in es])))
        h.proveeq("numbered from -1 in file order", g.iid, k - 1)
        h.proveeq("its output", g.output, es[-1].value)
        h.proveeq("its input", g.input, es[-2].value)
        h.proveeq("number of slots", len(g), len(sl))
        gs = list(g)
        h.proveeq("each slot once", len(gs), len(sl))
        for j, (a, b) in enumerate(zip(gs, sl)):
            h.prove("a slot has the events from its marker to the next", same(a.events, b), lambda: repr(([e.id for e in a.events], [e.id for e in b])))
            h.proveeq("slot number", a.index, b[0].value)
    h.prove("reading changes nothing", same(p.events, evs) and [bytes(e) for e in evs] == raw)


def dock(h, present):
    if not present:
        es, _ = insert(0, 1)
        p, evs, pe = project(None, [(es[1:], _), insert(1, 1)])
        h.prove("no flags stored: no dock position", list(p.mixer)[0].dock is None)
        return
    n = h.choice("size", (0, 3, 4, 7, 8, 11, 12, 16))
    data = h.bytes("flags", n)
    es, _ = insert(0, 1)
    es[0] = B.event(236, data)
    p, evs, pe = project(None, [insert(1, 1), (es, _)])
    d = list(p.mixer)[1].dock
    if n < 8:
        h.prove("no flags stored: no dock position", d is None, lambda: repr(d))
        return
    w = data[4]
    want = "Middle" if w & 64 != 0 else "Right" if w & 128 != 0 else "Left"
    h.prove("the dock position follows the dock bits", d is not None and d.name == want, lambda: repr((d, want)))


LIMITS = (("20.8.4.2576", 127, 10), ("12.9.1.1", 127, 10), ("12.9.0.1", 127, 10), ("9.0.0", 105, 10), ("24.1.1.1", 127, 10), ("3.3.0", 20, 8), ("4.0.0", 64, 8))


def limits(h):
    """every insert the FL version can have is listed"""
    ver, n, s = h.choice("version", LIMITS)
    k = h.choice("count", (1, 5, n))
    ins = [insert(j % 50, 1, (), ()) for j in range(k)]
    p, evs, pe = project(None, ins, ver=ver)
    got = list(p.mixer)
    h.proveeq("all inserts are listed", len(got), k)
    h.prove("in file order", [g.iid for g in got] == list(range(-1, k - 1)) and all(same(g.events, es) for g, (es, _) in zip(got, ins)))
    h.prove("the limits are those of the version", p.mixer.max_inserts >= n and p.mixer.max_slots >= s, lambda: repr((p.mixer.max_inserts, p.mixer.max_slots)))


def mixers(h):
    n = h.int("n", 1, 8)
    ins = [insert(k, h.int("slots%d" % k, 1, 10), [h.choice("x%d.%d" % (k, j), (204, 149, 95, 235)) for j in range(h.int("nx%d" % k, 0, 4))], [i for j, i in enumerate(PLUGIN_IDS) if h.bool("pl%d.%d" % (k, j))]) for k in range(n)]
    recs = []
    for k in range(h.int("records", 0, 12)):
        i, j = h.int("i%d" % k, 0, n), h.int("j%d" % k, 0, 10)
        recs.append(Rec(h, k, h.choice("id%d" % k, sorted(OWN.values()) + [0, 1, 64, 70, 191, 195, 255]), (i << 6) | j | (h.int("top%d" % k, 0, 7) << 13), h.i32("msg%d" % k), True))
    p, evs, pe = project(recs, ins, foreign=[(h.int("at%d" % j, 1, 5), h.choice("f%d" % j, FOREIGN)) for j in range(h.int("foreign", 0, 3))])
    check(h, p, evs, ins)
    i = h.int("i", 0, n - 1)
    if h.bool("slot?"):
        j = h.int("j", 0, len(ins[i][1]) - 1)
        path = h.choice("param", list(SLOT))
        check_param(h, p, evs, pe, recs, nth(i, j), path, last(h, recs, SLOT[path], i, j))
    else:
        path = h.choice("param", list(OWN))
        check_param(h, p, evs, pe, recs, nth(i), path, last(h, recs, OWN[path], i))


def many(h):
    """full mixers: up to 127 inserts, 64 slots, a record for every parameter of each"""
    n, ns = h.choice("size", ((127, 10), (20, 30), (4, 64), (126, 3)))
    ins = [insert(k % 100, ns if k % 3 == 0 else 1 + k % 10, (204, 149) if k % 2 else (), (201, 203)) for k in range(n)]
    recs = []
    for i in range(n):
        todo = [(v, (i * 5 + v) % 64) for v in OWN.values()] + [(v, j) for j in range(len(ins[i][1])) for v in SLOT.values()]
        recs += [Rec(h, 0, v, (i << 6) | j | ((i % 8) << 13), (v * 7919 + i * 131 + j) * (-1 if j % 2 else 1), False) for v, j in todo if (v + i + j) % 5]
    if h.bool("twice"):
        recs += [Rec(h, 0, r.id, r.addr, r.msg + 1, False) for r in recs[::3]]
    if h.bool("backwards"):
        recs.reverse()
    p, evs, pe = project(recs, ins)
    check(h, p, evs, ins)
    at = {}
    for r in recs:
        at[r.id, r.insert(), r.slot() if r.id < 2 else None] = r
    for i, g in enumerate(p.mixer):
        for path, v in OWN.items():
            r = at.get((v, i, None))
            h.prove("a parameter reads the record addressed to it", get(g, path) == (r.msg if r else None), lambda: repr((i, path)))
        for j, s in enumerate(g):
            for path, v in SLOT.items():
                r = at.get((v, i, j))
                h.prove("a slot parameter reads the record addressed to it", get(s, path) == (r.msg if r else None), lambda: repr((i, j, path)))
    i = h.int("i", 0, n - 1)
    j = h.int("j", 0, len(ins[i][1]) - 1)
    path = h.choice("param", list(SLOT) + list(OWN))
    if path in SLOT:
        check_param(h, p, evs, pe, recs, nth(i, j), path, last(h, recs, SLOT[path], i, j))
    else:
        check_param(h, p, evs, pe, recs, nth(i), path, last(h, recs, OWN[path], i))


def anysize(h, n):
    """any number of events of the inserts, their slots and other parts around the ones that decide"""
    from hs.world import Gap, World
    q = h.choice("ids", range(len(FOREIGN)))
    other, pid, own = FOREIGN[q], PLUGIN_IDS[q % 6], (204, 149, 95, 235, 154)[q % 5]
    items = [B.version(), Gap(other), B.event(231, B.vtext("All")), B.event(64, u16(0)), B.event(21, b"\2"), Gap(pid, other), B.event(145, bytes(4)), Gap(other)]
    ins = []
    for k in range(n):
        x = [ev(236, k), Gap(own, other)]
        sl = []
        for j in range(1 + (k + q) % 2):
            s = [B.event(98, u16(j)), Gap(pid, own, other)]
            sl.append(s)
            x += s
        out = B.event(147, bytes([k + 1, 0, 0, 0]))
        x.append(out)
        ins.append((x, sl, out))
        items += x + [Gap(other)]
    at = h.choice("record of", range(n))
    msg = h.i32("msg")
    rec = Rec(h, 0, 192, at << 6, msg, False)
    items += [B.event(225, rec.data), Gap(other)]
    w = World(h, items)
    p = w.project()
    m = p.mixer
    h.proveeq("as many inserts as stored", len(m), n)
    got = [x for x in m]
    h.proveeq("each insert once", len(got), n)
    want = set(INSERT_IDS + PLUGIN_IDS + (98,))
    for k, (g, (x, sl, out)) in enumerate(zip(got, ins)):
        w.lists("an insert has the events up to its end", g.events, x, want)
        h.proveeq("numbered from -1 in file order", g.iid, k - 1)
        h.proveeq("its output", g.output, out.value)
        h.proveeq("number of slots", len(g), len(sl))
        gs = [y for y in g]
        h.proveeq("each slot once", len(gs), len(sl))
        for a, b in zip(gs, sl):
            w.lists("a slot has the events from its marker to the next", a.events, b, set(PLUGIN_IDS + (98,)))
            h.proveeq("slot number", a.index, b[0].value)
        h.prove("its volume is the record addressed to it", h.eq(g.volume, msg) if k == at else g.volume is None)
    w.untouched("iterating")


def empty(h):
    from pyflp.exceptions import NoModelsFound
    p = B.project([B.version(), ev(29, 1), ev(64, 2), ev(201, 3)])
    h.prove("counting no inserts raises", isinstance(h.raises(lambda: len(p.mixer)), NoModelsFound))
    h.proveeq("no inserts are listed", [x.iid for x in iter(p.mixer)], [])


def units(tier):
    N = "at most 3 inserts and 2 parameter records in the proof (all addresses, contents and record IDs); larger mixers by sampling"
    us = [Unit("own-1-%d" % k, own, {"n": 1, "ids": g}, FN, level="bounded", note=N, audit=10) for k, g in enumerate(((192, 193, 194, 0), (208, 209, 210, 64), (216, 217, 218, 1), (224, 225, 226, 255)))]
    us += [Unit("own-2-%d" % k, own, {"n": 2, "ids": g}, FN, level="bounded", note=N, audit=10) for k, g in enumerate(((192, 193), (208, 218)))]
    us += [Unit("slots-%d" % n, slots, {"n": n}, FN, level="bounded", note=N, audit=10) for n in (1, 2)]
    us += [Unit("any-id-%d" % i, anyid, {"i": i}, FN, level="bounded", note="one record with any ID", audit=20) for i in (0, 1)]
    us += [Unit("address-%d" % i, far, {"i": i}, FN, level="bounded", note="inserts 2, 64 and 126, all addresses from 9 inserts before", audit=10) for i in (2, 64, 126)]
    us += [Unit("structure-%d" % n, structure, {"n": n}, FN, level="bounded", note=N, audit=10) for n in (1, 2, 3)]
    us += [Unit("dock-%d" % k, dock, {"present": bool(k)}, FN, audit=30) for k in (0, 1)]
    us.append(Unit("limits", limits, {}, FN, level="bounded", note="version list", audit=0))
    us.append(Unit("mixers", mixers, {}, FN, level="bounded", note="random mixers of up to 8 inserts, 10 slots each and 12 records", sym=False, audit=500 if tier == "quick" else 5000))
    us += [Unit("any-%d" % n, anysize, {"n": n}, FN, note="any number of events around %d inserts with their slots" % n, audit=30, max_s=240) for n in (1, 2)]
    us.append(Unit("many", many, {}, FN, level="bounded", note="full mixers: up to 127 inserts or 64 slots, thousands of records", sym=False, audit=16))
    us.append(Unit("empty", empty, {}, FN))
    return us
