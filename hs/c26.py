"""C26: looking up an item of a collection by index, name or slice is exact."""
import struct
from pvc.harness import Unit
from hs import build as B
from hs.c22 import ev, same, u16
from hs.c24 import Arr, Item

FN = ["supports_slice.wrapper", "ChannelRack.__getitem__", "Layer.__getitem__", "Patterns.__getitem__", "Arrangements.__getitem__", "Mixer.__getitem__", "Insert.__getitem__",
      "Automation.__getitem__", "Track.__getitem__", "Channel.display_name"]


class Coll:
    """a collection with its expected items: numbers (what an index is compared with), names, and how to recognise an item"""

    def __init__(self, get, numbers, names, is_item, missing, named=True):
        self.get, self.numbers, self.names, self.is_item, self.missing, self.named = get, numbers, names, is_item, missing, named


def by_events(lists):
    return lambda x, k: same(x.events, lists[k])


def rack(names, layer=False):
    """channels with internal numbers that are not their positions"""
    n = len(names)
    iids = [(7 * k + 3) % 11 for k in range(n)]
    lists = []
    for k, (i, nm) in enumerate(zip(iids, names)):
        es = [B.event(64, u16(i)), B.event(21, b"\0"), B.event(145, bytes(4))]
        if nm is not None and k % 2:
            es.append(B.event(201, B.vtext("internal")))
        if nm is not None:
            es.append(B.event(203 if k % 2 else 201, B.vtext(nm)))
        lists.append(es)
    head = [B.version(), B.event(231, B.vtext("g"))]
    if layer:
        kids = list(range(n))[::-1]
        l = [B.event(64, u16(40)), B.event(21, b"\3"), B.event(145, bytes(4))] + [B.event(94, u16(iids[k])) for k in kids]
        p = B.project(head + B.sum_lists(lists[:1] + [l] + lists[1:]))
        get = lambda: [c for c in p.channels if c.iid == 40][0]
        return Coll(get, [iids[k] for k in kids], [None] * n, by_events([lists[k] for k in kids]), "ChannelNotFound", named=False)
    p = B.project(head + B.sum_lists(lists))
    return Coll(lambda: p.channels, iids, ["internal" if nm == "" and k % 2 else nm for k, nm in enumerate(names)], by_events(lists), "ChannelNotFound")


def layer(names):
    return rack(names, True)


def patterns(names):
    lists = [[B.event(65, u16(9 - k))] + ([B.event(193, B.vtext(nm))] if nm is not None else []) + [ev(150, k)] for k, nm in enumerate(names)]
    p = B.project([B.version()] + B.sum_lists(lists))
    return Coll(lambda: p.patterns, list(range(len(names))), names, by_events(lists), "ModelNotFound")


def arrangements(names):
    arrs = [Arr(9 - k, nm, 0, (False,), None) for k, nm in enumerate(names)]
    p = B.project([B.version()] + B.sum_lists([a.events for a in arrs]) + [B.event(100, u16(0))])
    return Coll(lambda: p.arrangements, list(range(len(names))), names, by_events([a.events for a in arrs]), "ModelNotFound")


def mixer(names):
    lists = [[ev(236, k)] + ([B.event(204, B.vtext(nm))] if nm is not None else []) + [B.event(98, u16(0)), B.event(147, bytes([k, 0, 0, 0]))] for k, nm in enumerate(names)]
    p = B.project([B.version()] + B.sum_lists(lists))
    return Coll(lambda: p.mixer, [k - 1 for k in range(len(names))], names, by_events(lists), "ModelNotFound")


def insert(names):
    lists = [[B.event(98, u16(k))] + ([B.event(203, B.vtext(nm))] if nm is not None else []) for k, nm in enumerate(names)]
    other = [ev(236, 1), B.event(98, u16(0)), B.event(203, B.vtext("A")), B.event(147, bytes(4))]
    p = B.project([B.version()] + other + [ev(236, 3), B.event(204, B.vtext("B"))] + B.sum_lists(lists) + [B.event(147, bytes(4))])
    return Coll(lambda: list(p.mixer)[1], list(range(len(names))), names, by_events(lists), "ModelNotFound")


def automation(names):
    n = len(names)
    data = bytes(17) + n.to_bytes(4, "little")
    for k in range(n):
        data += struct.pack("<ddf", 1.0 + k, 0.125 * (k + 1), 0.5) + bytes(4)
    data += b"tail"
    es = [B.event(64, u16(0)), B.event(21, b"\5"), B.event(145, bytes(4)), B.event(234, data)]
    p = B.project([B.version(), B.event(231, B.vtext("g"))] + es)
    return Coll(lambda: list(p.channels)[0], list(range(n)), [None] * n, lambda x, k: x.value == 0.125 * (k + 1), "ModelNotFound", named=False)


COLLS = {"rack": rack, "layer": layer, "patterns": patterns, "arrangements": arrangements, "mixer": mixer, "insert": insert, "automation": automation}
NAMES = ("A", "B", "", None)


def not_found(h, c, e):
    from pyflp import channel, exceptions
    X = channel if c.missing == "ChannelNotFound" else exceptions
    h.prove("anything not found raises the not-found error", isinstance(e, getattr(X, c.missing)), lambda: repr(e))


def index(h, coll, n):
    c = COLLS[coll]([h.choice("name%d" % k, NAMES + ("1", "0")) if k < 1 else "B" for k in range(n)])
    i = h.anyint("index")
    for k, m in enumerate(c.numbers):
        if i == m:
            h.prove("an index returns the item with that number", c.is_item(c.get()[i], k))
            return
    not_found(h, c, h.raises(lambda: c.get()[i]))


def name(h, coll, n):
    names = [h.choice("name%d" % k, NAMES) for k in range(n)]
    c = COLLS[coll](names)
    x = h.choice("text", ("A", "B", "C", "", "internal", "0", "a"))
    if coll == "rack" and x == "internal":
        return
    if x in c.names:
        h.prove("a text returns the first item with that name", c.is_item(c.get()[x], c.names.index(x)))
    else:
        not_found(h, c, h.raises(lambda: c.get()[x]))


def slices(h, coll, n, rng):
    c = COLLS[coll]([None] * n)
    a = h.choice("start", (None,) + rng)
    b = h.choice("stop", (None,) + rng)
    s = h.choice("step", (None, 1, 2, -1, -2))
    got = c.get()[a:b:s]
    want = list(range(n))[a:b:s]
    h.prove("a slice returns the items at those positions in order", len(got) == len(want) and all(c.is_item(g, k) for g, k in zip(got, want)), lambda: repr((a, b, s, len(got), want)))


def track(h, n):
    its = [Item(h, k, False, 499, 0, 0, None, 20480, False) for k in range(n)]
    for k, x in enumerate(its):
        x.put("position", (100 + k).to_bytes(4, "little"))
    a = Arr(0, "a", 0, (True, False), its)
    p = B.project([B.version(), B.event(231, B.vtext("g")), B.event(64, u16(0)), B.event(21, b"\5"), B.event(145, bytes(4))] + a.events + [B.event(100, u16(0))])
    t = list(list(p.arrangements)[0].tracks)[0]
    if h.choice("slice", (True, False)):
        r = tuple(range(-n - 1, n + 2))
        x, y, s = h.choice("start", (None,) + r), h.choice("stop", (None,) + r), h.choice("step", (None, 2, -1))
        h.proveeq("a slice of a track returns the items at those positions in order", [g.position for g in t[x:y:s]], list(range(100, 100 + n))[x:y:s])
        return
    i = h.choice("index", range(-n - 2, n + 3))
    if -n <= i < n:
        h.proveeq("an index returns the item of the track at that position", t[i].position, list(range(100, 100 + n))[i])
    else:
        h.prove("a position without item raises", isinstance(h.raises(lambda: t[i]), IndexError))


def any_(h, coll):
    n = h.int("n", 1, 9)
    names = [h.choice("name%d" % k, ("A", "B", "C", "D", None, "", "1", "-1", "4")) for k in range(n)]
    c = COLLS[coll](names)
    for k in range(4):
        i = h.int("i%d" % k, -12, 12)
        if i in c.numbers:
            h.prove("an index returns the item with that number", c.is_item(c.get()[i], c.numbers.index(i)))
        else:
            not_found(h, c, h.raises(lambda: c.get()[i]))
        if c.named:
            x = h.choice("t%d" % k, ("A", "B", "C", "D", "E", "", "1", "-1", "4"))
            if x in c.names:
                h.prove("a text returns the first item with that name", c.is_item(c.get()[x], c.names.index(x)))
            else:
                not_found(h, c, h.raises(lambda: c.get()[x]))
        bs = [h.int("b%d.%d" % (k, j), -12, 12) if h.bool("set%d.%d" % (k, j)) else None for j in range(3)]
        if bs[2] == 0:
            bs[2] = 3
        want = list(range(n))[bs[0]:bs[1]:bs[2]]
        got = c.get()[bs[0]:bs[1]:bs[2]]
        h.prove("a slice returns the items at those positions in order", len(got) == len(want) and all(c.is_item(g, q) for g, q in zip(got, want)))


# ---- any number of items: the collection's iteration is used through its contract (C22-C25), lookups are proved
def tree(events):
    from pyflp._events import EventTree, IndexedEvent
    return EventTree(init=[IndexedEvent(k, e) for k, e in enumerate(events)])


def model(h, coll, number, name):
    """an item of a collection, as iterating it yields them; number: internal index where lookups use it"""
    from pyflp import arrangement, channel, mixer, pattern
    if coll == "automation":
        return channel.AutomationPoint({}, 0, None)
    if coll in ("rack", "layer"):
        e = B.event(64, u16(0))
        e.value = number
        return channel.Sampler(tree([e, B.event(21, b"\0")] + named(203, name)), channels={}, group=None)
    if coll == "patterns":
        return pattern.Pattern(tree([B.event(65, u16(1))] + named(193, name)))
    if coll == "arrangements":
        return arrangement.Arrangement(tree([B.event(99, u16(1))] + named(241, name)))
    if coll == "mixer":
        return mixer.Insert(tree(named(204, name)), iid=0, max_slots=10)
    return mixer.Slot(tree([B.event(98, u16(0))] + named(203, name)))


def named(i, name):
    if name is None:
        return []
    e = B.event(i, B.vtext("x"))
    e.value = name
    return [e]


def collection(h, coll, items):
    from pyflp import arrangement, channel, mixer, pattern
    base = {"rack": channel.ChannelRack, "layer": channel.Layer, "patterns": pattern.Patterns, "arrangements": arrangement.Arrangements,
            "mixer": mixer.Mixer, "insert": mixer.Insert, "automation": channel.Automation}[coll]
    no = lambda self, *a: h.outside("a lookup that does not iterate over the collection")
    sub = type("Listed", (base,), {"__iter__": lambda self: items(), "__module__": "pyflp.listed", "__getattr__": no, "__len__": no})
    return sub.__new__(sub)


def listed(h, coll, by):
    """``before`` any number of items that do not match, an item, any number of other items"""
    found = h.choice("found", (True, False))
    internal = coll in ("rack", "layer")
    key = h.text("key", nonempty=True) if by == "name" else h.anyint("key") if internal else None
    first = -1 if coll == "mixer" else 0

    def item(q, what, match):
        """match: True, False, or None for either"""
        name = h.text(what + ".name") if q != "unnamed" and coll not in ("layer", "automation") else None
        number = h.int(what + ".number", 0, 65535) if internal else None
        if by == "name" and name is not None and match is not None:
            h.assume(name == key if match else h.not_(name == key))
        if by == "number" and internal and match is not None:
            h.assume(number == key if match else h.not_(number == key))
        try:
            return model(h, coll, number, name)
        except Exception as e:
            h.outside("items are made differently: %r" % e)
    kinds = ("named", "unnamed") if coll not in ("layer", "automation") else ("unnamed",)
    place = by == "number" and not internal
    if h.sym:
        from pvc import gaps
        sp = gaps.Space(h)
        one = item("named", "it", True) if found else None

        def gap(name, match):
            return sp.whole(sp.gap(name, [(q,) for q in kinds], lambda q, j: item(q[0], "%s.%s%d" % (name, q[0], j), match)))
        segs = [gap("before", False)] + ([one] if found else []) + [gap("after", None if found else False)]
        c = collection(h, coll, lambda: gaps.Vals(list(segs), "gen"))
        n = segs[0].count()
        total = n + segs[-1].count() + (1 if found else 0)
    else:
        one = item("named", "it", True) if found else None
        head = [item(h.choice("b%d" % k, kinds), "b%d" % k, False) for k in range(h.int("before", 0, 5))]
        tail = [item(h.choice("a%d" % k, kinds), "a%d" % k, None if found else False) for k in range(h.int("after", 0, 5))]
        items = head + ([one] if found else []) + tail
        c = collection(h, coll, lambda: iter(items))
        n, total = len(head), len(items)
    if place:
        if found:
            key = n + first
        else:
            k = h.number("beyond")
            key = total + first + k if h.choice("side", ("after", "before")) == "after" else first - 1 - k
    from pyflp import channel, exceptions
    missing = channel.ChannelNotFound if internal else exceptions.ModelNotFound
    try:
        got = c[key]
    except missing as e:
        got = e
    except Exception as e:              # with the real items: see the bounded units
        h.outside("lookup of stand-in items: %r" % e)
    if h.sym:
        sp.done()
    if found:
        h.prove("the item found is the one with that %s, any number of others before and after it" % by, got is one, lambda: repr(got))
    else:
        h.prove("anything not found raises the not-found error", isinstance(got, missing), lambda: repr(got))


def units(tier):
    us = []
    for k, (coll, f) in enumerate(COLLS.items()):
        for n in (1, 2, 3, 4):
            us.append(Unit("%s-index-%d" % (coll, n), index, {"coll": coll, "n": n}, FN, level="bounded", note="at most 4 items; every index", audit=10))
        if coll not in ("layer", "automation"):
            us.append(Unit("%s-name" % coll, name, {"coll": coll, "n": 3}, FN, level="bounded", note="at most 3 items; names from a small alphabet", audit=10))
        for n in (1, 2, 3):
            us.append(Unit("%s-slice-%d" % (coll, n), slices, {"coll": coll, "n": n, "rng": tuple(range(-n - 1, n + 2))}, FN, level="bounded", note="at most 3 items; every slice up to one position beyond the ends", audit=10))
        us.append(Unit("%s-any" % coll, any_, {"coll": coll}, FN, level="bounded", note="random collections of up to 9 items", sym=False, audit=100 if tier == "quick" else 1000))
        for by in ("number", "name")[:1 if coll in ("layer", "automation") else 2]:
            us.append(Unit("%s-listed-%s" % (coll, by), listed, {"coll": coll, "by": by}, FN, note="any number of items; iterating the collection is used through its contract (C22-C25)", audit=10))
    us += [Unit("track-%d" % n, track, {"n": n}, FN, level="bounded", note="at most 2 items", audit=10) for n in (0, 2)]
    return us
