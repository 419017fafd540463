"""C17: tempo."""
from pvc.harness import Unit
from hs import build as B

RANGES = [(10000, 522000), (0, 9999), (522001, 999000), (999001, 1048000)]
EVENTS = [(True, False, False), (False, True, True), (False, True, False), (False, False, True), (True, True, True), (True, True, False),
          (True, False, True), (False, False, False)]


def version_event(h, n):
    """a symbolic version with n numbers"""
    v = [h.int("major", 0, 255), h.int("minor", 0, 99), h.int("patch", 0, 99), h.int("build", 0, 9999)][:n]
    if h.sym:
        from pvc.values import SymStr, IntStr
        s = SymStr.mk([x for p in v for x in (".", IntStr(p))][1:])
    else:
        s = ".".join(map(str, v))
    return v, B.event(199, B.vtext(s, "ascii"))


def make(h, evs, nver):
    v, ver = version_event(h, nver)
    new, coarse, fine = evs
    es = [ver, B.event(11, h.bytes("other", 1))]
    ix = {}
    if coarse:
        ix["coarse"] = len(es)
        es.append(B.event(66, h.bytes("coarse", 2)))
    if fine:
        ix["fine"] = len(es)
        es.append(B.event(93, h.bytes("fine", 2)))
    es.append(B.event(80, h.bytes("pitch", 2)))
    if new:
        ix["new"] = len(es)
        es.append(B.event(156, h.bytes("tempo", 4)))
    return v, es, ix, B.project(es)


def ge(h, v, want):
    """version v >= want (first three numbers)"""
    r = True
    for a, b in reversed(list(zip(v[:3], want))):
        r = h.or_(a > b, h.and_(a == b, r))
    return r


def read(h, evs, stored):
    """the stored values are within the range of a table"""
    new, coarse, fine = evs
    es = [B.version()]
    t = h.int("tempo", 0, 1048000)
    c, f = h.u16("coarse"), h.int("fine", 0, 999)
    if coarse:
        es.append(B.event(66, c.to_bytes(2, "little")))
    if fine:
        es.append(B.event(93, f.to_bytes(2, "little")))
    if new:
        es.append(B.event(156, t.to_bytes(4, "little")))
    p = B.project(es)
    before = B.raw(p)
    v = p.tempo
    if new:
        h.prove("thousandths / 1000", v == t / 1000)
    elif coarse and fine:
        cc = h.choice("coarse value", (0, 10, 120, 522, 999, 65535))
        p.events.first(es[1].id).value = cc
        h.prove("coarse + thousandths", p.tempo == cc + f / 1000)
        return
    elif coarse:
        h.proveeq("coarse", v, c)
    elif fine:
        h.prove("thousandths", v == f / 1000)
    else:
        h.prove("no tempo", v is None)
    h.proveeq("reading changes nothing", B.raw(p), before)


def write(h, evs, kind, rng, nver):
    """set an int or a float tempo"""
    from pyflp.exceptions import PropertyCannotBeSet
    v, es, ix, p = make(h, evs, nver)
    before = B.raw(p)
    if kind == "float":
        k = h.int("thousandths", *rng)
        value = k / 1000
    else:
        n = h.anyint("whole")
        h.assume(h.and_(n > -(1 << 1000), n < 1 << 1000))
        k = None
        value = n
    pre142, pre34, pre11 = h.not_(ge(h, v, (1, 4, 2))), h.not_(ge(h, v, (3, 4, 0))), h.not_(ge(h, v, (11, 0, 0)))
    hi = h.ite(h.and_(h.not_(pre142), pre11), 999, 522)
    if kind == "float":
        inside = h.and_(k >= 10000, k <= hi * 1000)
    else:
        inside = h.and_(n >= 10, n <= hi)
    ok = h.and_(any(evs), inside, h.not_(pre34) if kind == "float" else True)
    try:
        p.tempo = value
    except Exception as e:
        h.prove("only an invalid tempo is refused", h.not_(ok), lambda: repr(e))
        if not any(evs):
            h.prove("no tempo event: the dedicated error", isinstance(e, PropertyCannotBeSet))
        elif kind == "float" and pre34:
            h.prove("fractional tempo before 3.4", isinstance(e, (TypeError, ValueError)), lambda: repr(e))
        else:
            h.prove("outside of the limits: ValueError", isinstance(e, ValueError), lambda: repr(e))
        h.proveeq("a refused tempo changes nothing", B.raw(p), before)
        return
    h.prove("an invalid tempo is refused", ok)
    if k is None:
        k = n * 1000
    after = B.raw(p)
    if "new" in ix:
        h.proveeq("stores the thousandths", after[ix["new"]], bytes([156]) + k.to_bytes(4, "little"))
        h.prove("reads back", p.tempo == (value if kind == "float" else k / 1000))
    if "coarse" in ix:
        h.proveeq("stores the whole part", after[ix["coarse"]], bytes([66]) + (k // 1000).to_bytes(2, "little"))
    if "fine" in ix:
        h.proveeq("stores the fractional part", after[ix["fine"]], bytes([93]) + (k % 1000).to_bytes(2, "little"))
    B.same_but(h, "tempo", before, after, set(ix.values()))


LIMITS = (522.0004, 522.001, 999.0004, 999.001, 9.9996, 9.999, 1e30, -120.0, 0.0, float("inf"), float("-inf"), float("nan"), 521.9999999999999, 10.0, 522.0, 999.0)


def limits(h, evs):
    """just inside and outside of the limits, also between two thousandths"""
    v = h.choice("version", ((1, 4, 1), (1, 4, 2), (3, 3, 9), (3, 4, 0), (10, 9, 99), (11, 0, 0), (20, 8, 4)))
    es = [B.version("%d.%d.%d" % v)] + [B.event(i, h.bytes("stored%d" % i, w)) for i, w, has in ((66, 2, evs[1]), (93, 2, evs[2]), (156, 4, evs[0])) if has]
    p = B.project(es)
    before = B.raw(p)
    value = h.choice("tempo", LIMITS)
    hi = 999 if (1, 4, 2) <= v < (11, 0, 0) else 522
    ok = v >= (3, 4, 0) and 10 <= value <= hi
    err = h.raises(lambda: setattr(p, "tempo", value))
    h.prove("refused exactly outside of the limits", (err is None) == ok, lambda: repr((err, value)))
    if err is not None:
        h.proveeq("a refused tempo changes nothing", B.raw(p), before)


def units(tier):
    us = []
    F = ["Project.tempo", "Project.tempo.setter", "Project.version", "FLVersion.__lt__", "EventTree.first", "EventTree.ids"]
    for n, evs in enumerate(EVENTS):
        tag = "".join(c for c, e in zip("tcf", evs) if e) or "none"
        if tag in ("t", "cf", "c", "tcf"):
            us.append(Unit("limits-" + tag, limits, {"evs": evs}, F, "bounded", note="%d values, 7 versions" % len(LIMITS), audit=40))
        us.append(Unit("read-" + tag, read, {"evs": evs, "stored": None}, F, audit=40))
        for nver in ((3, 4) if tag in ('t', 'cf') or tier == 'thorough' else (4,)):
            for i, r in enumerate(RANGES):
                us.append(Unit("float-%s-%d-v%d" % (tag, i, nver), write, {"evs": evs, "kind": "float", "rng": r, "nver": nver}, F, audit=25))
            us.append(Unit("int-%s-v%d" % (tag, nver), write, {"evs": evs, "kind": "int", "rng": None, "nver": nver}, F, audit=50))
    return us
