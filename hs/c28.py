"""C28: reading never changes what will be saved."""
import enum
import random
import struct
import types
from pvc.harness import Unit, filler
from hs import attrs, build as B, frames as F, spec
from hs.c11 import records
from hs.c14 import Fix, model
from hs.c22 import ev, same, u16
from hs.c23 import marker
from hs.c24 import Arr, Item
from hs.c25 import Rec
from hs.c27 import EFFECTS, GENERATORS

FN = ["PropBase.__get__", "EventProp._get", "StructProp._get", "FlagProp._get", "NestedProp.__get__", "EventModel.__eq__", "ModelReprMixin.__repr__", "EventTree.__iter__",
      "EventTree.__contains__", "EventTree.first", "EventTree.get", "EventTree.count", "EventTree.subtree", "EventTree.divide", "EventTree.group", "EventTree.separate",
      "Project.channels", "Project.patterns", "Project.arrangements", "Project.mixer", "ChannelRack.__iter__", "Patterns.__iter__", "Arrangements.__iter__", "Mixer.__iter__",
      "Insert.__iter__", "Track.__iter__", "Pattern.notes", "Pattern.controllers", "Automation.__iter__", "Layer.__iter__", "PluginProp.__get__", "Insert.eq", "Insert.routes"]
LINKS = ("channel", "pattern", "current", "group", "plugin_of")


# ------------------------------------------------------------------ reading everything
def is_model(v):
    return type(v).__module__.startswith("pyflp") and not isinstance(v, (enum.Enum, tuple, Exception, dict, type)) and not hasattr(v, "id") and not type(v).__module__.endswith("types")


def public(o):
    return [n for n in dir(type(o)) if not n.startswith("_") and not isinstance(getattr(type(o), n, None), (types.FunctionType, type)) and n not in ("INTERNAL_NAME",)]


def read(o, n):
    try:
        return getattr(o, n)
    except Exception as e:
        return Raised(type(e).__name__)


class Raised:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Raised) and o.n == self.n

    def __repr__(self):
        return "raises " + self.n


def safely(f):
    try:
        return f()
    except Exception as e:
        return Raised(type(e).__name__)


def tree_reads(t):
    es = list(t)
    out = [len(t), [e.id for e in es]]
    for i in sorted({e.id for e in es}):
        out.append((i in t, t.count(i), t.first(i) is list(t.get(i))[0], len(list(t.get(i)))))
    return out


def walk(v, path, out, stack=(), text=True):
    """reads everything reachable from v; out: path -> value"""
    if isinstance(v, (types.GeneratorType, map, filter, zip)):
        v = safely(lambda: list(v))
    if is_model(v):
        if type(v) in stack or len(stack) > 9:
            out[path + ("class",)] = type(v).__name__
            return
        stack = stack + (type(v),)
        out[path + ("class",)] = type(v).__name__
        if path and path[-1] in LINKS:
            out[path + ("events",)] = [e.id for e in v.events]
            return
        if hasattr(type(v), "__iter__"):
            items = safely(lambda: list(v))
            out[path + ("len",)] = safely(lambda: len(v))
            if isinstance(items, list):
                for k, x in enumerate(items):
                    walk(x, path + (k,), out, stack, text)
                for k in range(min(3, len(items))):
                    out[path + ("[%d]" % k,)] = type(safely(lambda: v[k])).__name__
                out[path + ("[:]",)] = safely(lambda: len(v[:]))
                for nm in ("", "no such name"):
                    out[path + ("[%s]" % nm,)] = type(safely(lambda: v[nm])).__name__
            else:
                out[path + ("iter",)] = items
        for n in public(v):
            x = read(v, n)
            if isinstance(x, types.MethodType):
                continue
            if type(x).__name__ == "EventTree":
                out[path + (n,)] = safely(lambda: tree_reads(x))
            else:
                walk(x, path + (n,), out, stack, text)
        if text:
            for f in (repr, str):
                s = safely(lambda: f(v))
                if isinstance(s, Raised):
                    out[path + (f.__name__,)] = s
        out[path + ("==",)] = safely(lambda: v == v)
        return
    if isinstance(v, (list, tuple)) and not hasattr(v, "_fields") and any(is_model(x) or isinstance(x, (list, tuple)) for x in v):
        out[path + ("len",)] = len(v)
        for k, x in enumerate(v):
            walk(x, path + (k,), out, stack, text)
        return
    if isinstance(v, dict):
        out[path + ("keys",)] = [str(k) for k in v if not str(k).startswith("_")]
        for k in v:
            if not str(k).startswith("_"):
                walk(v[k], path + (k,), out, stack, text)
        return
    out[path] = v


def again(root, path):
    """the value at the path, read on its own from the root"""
    v = root
    for p in path:
        if isinstance(v, Raised):
            return v
        if isinstance(v, (types.GeneratorType, map, filter, zip)):
            v = list(v)
        if isinstance(p, int):
            v = (v if isinstance(v, (list, tuple)) else list(v))[p]
        elif isinstance(v, dict):
            v = v[p]
        else:
            v = read(v, p)
    if isinstance(v, (types.GeneratorType, map, filter, zip)):
        return safely(lambda: list(v))
    return v


def leaf(v):
    """a comparable form"""
    if isinstance(v, float):
        return struct.pack("<d", v)
    if type(v).__name__ == "RGBA":
        return ("RGBA", v.red, v.green, v.blue, v.alpha)
    if type(v).__name__ == "FLVersion":
        return ("FLVersion", v.major, v.minor, v.patch, v.build)
    if isinstance(v, (list, tuple)):
        return [leaf(x) for x in v]
    return v


def eqv(h, a, b):
    if h.sym:
        if type(a).__name__ == "RGBA":
            return h.and_(*[h.eq(getattr(a, c), getattr(b, c)) for c in ("red", "green", "blue", "alpha")])
        return h.eq(a, b)
    return leaf(a) == leaf(b)


def agree(h, a, b, what):
    h.prove(what + " has the same shape", list(a) == list(b), lambda: repr(set(a) ^ set(b)))
    h.prove(what + " returns equal results", h.and_(*[eqv(h, a[k], b[k]) for k in a]), lambda: repr([(k, a[k], b[k]) for k in a if eqv(h, a[k], b[k]) is False][:3]))


def unchanged(h, tree, evs, raw):
    now = list(tree)
    h.prove("reading keeps the number and order of events", len(now) == len(evs) and all(x is y for x, y in zip(now, evs)))
    h.prove("reading changes no event", h.and_(*[h.eq(bytes(e), r) for e, r in zip(evs, raw)]), lambda: repr([(bytes(e), r) for e, r in zip(evs, raw) if bytes(e) != r][:2]))
    ix = list(tree.indexes)
    h.prove("and no position", ix == list(range(len(evs))), lambda: repr(ix))


def positions(tree):
    return list(tree.indexes)


# ------------------------------------------------------------------ models, symbolic contents
def one_model(h, name, ids, every):
    """one event of the model has any content; everything is read twice"""
    i = h.choice("event", ids)
    twice = h.choice("twice", (False, True))
    evs = []
    for k, j in enumerate(every):
        if j == i:
            evs.append(B.event(j, F.payload(h, j, "ev", lite=True)))
            if twice:
                evs.append(B.event(j, F.payload(h, j, "second", lite=True)))
        else:
            evs.append(ev(j, k))
            if k % 3 == 0:
                evs.append(ev((61, 125, 190, 252)[k % 4], k))
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    one, two = {}, {}
    walk(m, (), one, text=not h.sym)
    unchanged(h, tree, evs, raw)
    walk(m, (), two, text=not h.sym)
    unchanged(h, tree, evs, raw)
    agree(h, one, two, "reading again")


def items(h, kind, n):
    """records of list events with any contents"""
    if kind in ("notes", "controllers"):
        cls, id = {"notes": ("NotesEvent", 224), "controllers": ("ControllerEvent", 223)}[kind]
        rs = [records(F.Pre(h, "r%d" % k), cls, 1, False)[2] for k in range(n)]
        evs = [B.version(), B.event(65, u16(1)), B.event(id, B.sum_(rs))] + marker(1) + [B.event(65, u16(2)), ev(223, 4)]
        get = lambda p: p.patterns
    elif kind == "playlist":
        new = h.choice("new", (True, False))
        top = 499 if new else 198
        its = [Item(h, k, new, top, h.choice("track%d" % k, (0, 1)), 0, h.choice("pat%d" % k, (None, 1)), 20480, True) for k in range(n)]
        a = Arr(0, "a", 1, (True, False), its)
        evs = [B.version("20.8.4.2576" if new else "12.4.2.33"), B.event(231, B.vtext("g")), B.event(65, u16(1)), B.event(64, u16(0)), B.event(21, b"\5"), B.event(145, bytes(4))] + a.events + [B.event(100, u16(0))]
        get = lambda p: p.arrangements
    elif kind == "mixer":
        recs = [Rec(h, k, h.choice("id%d" % k, (192, 193, 194, 0, 1, 208, 226)), h.choice("addr%d" % k, (0, 64, 65)), h.i32("msg%d" % k), True) for k in range(n)]
        evs = [B.version(), ev(236, 1), ev(235, 2), B.event(98, u16(0)), ev(147, 3), ev(236, 4), ev(235, 5), B.event(98, u16(0)), B.event(98, u16(1)), ev(147, 6), B.event(225, B.sum_([r.data for r in recs]))]
        get = lambda p: p.mixer
    elif kind == "automation":
        evs = [B.version(), B.event(231, B.vtext("g")), B.event(64, u16(0)), B.event(21, b"\5"), B.event(145, bytes(4)), B.event(234, F.automation_payload(h, "a", n, 40))]
        get = lambda p: p.channels
    elif kind == "routing":
        evs = [B.version()]
        for k in range(2):
            evs += [ev(236, 1 + k), B.event(235, B.sum_([h.int("route%d.%d" % (k, j), 0, 1).to_bytes(1, "little") for j in range(n)])), B.event(98, u16(0)), ev(147, 3 + k)]
        evs.append(B.event(225, B.sum_([Rec(h, k, 64 + k, 0, h.i32("lvl%d" % k), True).data for k in range(n)])))
        get = lambda p: p.mixer
    p = B.project(evs)
    check(h, p, evs, get)


def check(h, p, evs, get):
    raw = [bytes(e) for e in evs]
    one, two = {}, {}
    walk(get(p), (), one, text=not h.sym)
    unchanged(h, p.events, evs, raw)
    walk(get(p), (), two, text=not h.sym)
    unchanged(h, p.events, evs, raw)
    agree(h, one, two, "reading again")


def plugin(h, where, name):
    models = GENERATORS if where == "channel" else EFFECTS
    cls = F.PLUGINS[name]
    e = B.event(213, F.payload(h, 213, "state", plugin=name, lite=True), cls=spec.event_class(cls))
    es = [B.event(201, B.vtext(name)), B.event(212, F.payload(h, 212, "wrapper", lite=True)), e]
    if where == "channel":
        evs = [B.version(), B.event(231, B.vtext("g")), B.event(64, u16(0)), B.event(21, b"\2"), B.event(145, bytes(4))] + es
        get = lambda p: list(p.channels)[0].plugin
    else:
        evs = [B.version(), ev(236, 1), B.event(98, u16(0))] + es + [ev(147, 1)]
        get = lambda p: list(list(p.mixer)[0])[0].plugin
    p = B.project(evs)
    h.prove("there is a plugin", type(get(p)).__name__ == models[name])
    check(h, p, evs, get)


# ------------------------------------------------------------------ whole projects
def content(i, k, **kw):
    h, pre = filler(Fix(k))
    return spec.frame(i, F.payload(h, i, "%sc%d" % (pre, k), lite=True, **kw))


def full(h, old=False):
    """frames of a project with every kind of part"""
    fr = [B.version_frame("12.4.2.33" if old else "20.8.4.2576"), spec.frame(159, b"\x10\x0a\0\0")]
    fr += [content(i, i) for i in (207, 195, 206, 28, 9, 80, 12, 23, 10, 194, 197, 202, 11, 13, 133, 30, 17, 18, 29)]
    fr += [spec.frame(156, (140123).to_bytes(4, "little")), spec.frame(200, B.vtext("licence", "utf-16-le")), spec.frame(237, struct.pack("<dd", 44562.5, 1.25)), spec.frame(67, u16(2))]
    fr += [content(227, 1), content(226, 2)]
    for k in (1, 2, 5):
        fr += [spec.frame(65, u16(k)), content(193, k), content(150, k), content(224, k), content(223, k), content(26, k), content(164, k)]
        fr += [bytes(e) for e in marker(k)]
    fr += [spec.frame(65, u16(1)), content(223, 9)]
    fr += [spec.frame(231, B.vtext("All")), spec.frame(231, B.vtext("Drums"))]
    own = (0, 2, 3, 15, 20, 22, 32, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 97, 131, 132, 135, 138, 139, 140, 142, 143, 144, 153, 209, 215, 218, 218, 218, 219, 221, 228, 228, 229)
    for k, t in enumerate((0, 2, 2, 3, 4, 5, 0, 2, 2)):
        fr += [spec.frame(64, u16(k)), spec.frame(21, bytes([t]))]
        name = ("", "Fruity Wrapper", "BooBass", "", "", "", "", "Plucked!", "3xOsc")[k]
        fr += [spec.frame(201, B.vtext(name)), content(212, k), content(203, k), content(155, k), content(128, k)]
        if name or t == 2:
            fr.append(content(213, k, plugin=name))
        fr += [content(i, k + j) for j, i in enumerate(own)]
        if t == 0 and k:
            fr.append(spec.frame(196, B.vtext("%FLStudioFactoryData%/kick.wav")))
        if t == 3:
            fr += [spec.frame(94, u16(j)) for j in (0, 4, 2)]
        if t == 5:
            fr.append(content(234, k))
        fr.append(spec.frame(145, (k % 2).to_bytes(4, "little")))
    new = not old
    for k in range(2):
        its = [Item(Fix(j), j, new, 499 if new else 198, (0, 1, 1, 2)[j], (4, 5, 0, 6)[j], (None, 1, 2, None)[j], 20480, False) for j in range(4 - k)]
        a = Arr(k, "arr %d" % k, 2, (True, False, True), its)
        fr += [bytes(e) for e in a.events]
    fr += [spec.frame(100, u16(1))]
    for k in range(3):
        fr += [content(236, k), content(204, k), content(149, k), content(95, k), spec.frame(235, bytes([1, 0, 1]))]
        for j, name in enumerate(("Fruity Balance", "Soundgoodizer", "Fruity Wrapper", "Fruity Send", "unknown", None)[k:]):
            fr.append(spec.frame(98, u16(j)))
            if name is not None:
                fr += [spec.frame(201, B.vtext(name)), content(212, j), content(203, j), content(155, j), content(128, j), content(213, j, plugin=name)]
        fr += [content(154, k), content(147, k)]
    recs = [Rec(Fix(j), j, i, (ins << 6) | s, j * 100, False) for j, (ins, s, i) in enumerate([(a, s, i) for a in (0, 1) for s, i in ((0, 0), (0, 1), (1, 0), (0, 192), (0, 193), (0, 194), (0, 208), (0, 209),
            (0, 210), (0, 216), (0, 217), (0, 218), (0, 224), (0, 225), (0, 226), (0, 64), (0, 65))])]
    fr.append(spec.frame(225, B.sum_([r.data for r in recs])))
    return fr


def whole(h, old):
    """everything a loaded project offers is read, then read again in another order"""
    data = B.flp(full(h, old), channel_count=9)
    p = h.load(data)
    evs = list(p.events)
    raw = [bytes(e) for e in evs]
    h.proveeq("saving before reading", h.save(p, "before.flp"), data)
    one, two = {}, {}
    walk(p, (), one)
    h.prove("the walk reaches all parts", len(one) > 1500, lambda: repr(len(one)))
    unchanged(h, p.events, evs, raw)
    walk(p, (), two)
    unchanged(h, p.events, evs, raw)
    agree(h, one, two, "reading again")
    h.proveeq("saving after reading writes the same bytes", h.save(p, "after.flp"), data)
    r = random.Random(h.int("order", 0, 1 << 30) if h.sampling else 7)
    places = [k for k in one if k and not isinstance(k[-1], int) and k[-1] not in ("class", "len", "keys", "[:]", "==", "repr", "str", "iter", "events") and not str(k[-1]).startswith("[")]
    for _ in range(60):
        k = r.choice(places)
        a, b = one[k], again(p, k)
        h.prove("a read on its own gives the same result", eqv(h, a, b), lambda: repr((k, a, b)))
    unchanged(h, p.events, evs, raw)
    h.proveeq("saving in the end writes the same bytes", h.save(p, "end.flp"), data)


def reload(h):
    """objects read before another read or save stay valid: two handles on the same part agree"""
    data = B.flp(full(h), channel_count=9)
    p = h.load(data)
    pairs = [(list(p.channels), list(p.channels)), (list(p.patterns), list(p.patterns)), (list(p.arrangements), list(p.arrangements)), (list(p.mixer), list(p.mixer))]
    for a, b in pairs:
        h.prove("two reads of a collection give the same items", len(a) == len(b) and all(same(x.events, y.events) for x, y in zip(a, b)))
        h.prove("which compare equal", all(x == y for x, y in zip(a, b)))
        h.prove("and different items of a kind do not", all(not (a[i] == a[j]) for i in range(len(a)) for j in range(i) if type(a[i]) is type(a[j])))
    h.proveeq("and the file stays", h.save(p), data)


def units(tier):
    us = []
    for name, tab in attrs.EVENT_MODELS.items():
        every = sorted({i for x in tab.values() for i in x[1]})
        for k in range(0, len(every), 4):
            us.append(Unit("%s-%d" % (name, k), one_model, {"name": name, "ids": every[k:k + 4], "every": every}, FN, max_s=100, audit=8))
    for name, tab in attrs.SINGLE_MODELS.items():
        every = sorted({i for x in tab.values() for i in x[1]})
        us.append(Unit(name, one_model, {"name": name, "ids": every, "every": every}, FN, max_s=100, audit=8))
    for k in ("notes", "controllers", "playlist", "mixer", "automation", "routing"):
        us.append(Unit(k, items, {"kind": k, "n": 2}, FN, level="bounded", max_s=100, audit=15, note="2 records, all contents"))
    for w, models in (("channel", GENERATORS), ("slot", EFFECTS)):
        for n in models:
            us.append(Unit("%s-%s" % (w, n.replace(" ", "-").lower()), plugin, {"where": w, "name": n}, FN, audit=8, max_s=100))
    for old in (False, True):
        us.append(Unit("whole-%s" % ("old" if old else "new"), whole, {"old": old}, FN, level="bounded", note="one project with every kind of part; random contents and orders when sampling", audit=12, max_s=100))
    us.append(Unit("handles", reload, {}, FN, level="bounded", note="one project with every kind of part", audit=4, max_s=100))
    return us
