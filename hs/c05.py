"""C05: a save that cannot serialise the project leaves the target file alone."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c01 import start
from hs.c02 import split

FN = ["save", "EventBase.__bytes__"]


def target(h):
    """the destination: absent, or with any content"""
    old = None
    if h.choice("target exists", (True, False)):
        old = h.blob("old", 0, 1 << 20)
        h.put("out.flp", old)
    return old


def refused(h, p, old):
    import pyflp
    before = h.others()
    e = h.raises(lambda: pyflp.save(p, h.path("out.flp")))
    h.prove("saving raises", e is not None)
    now = h.get("out.flp")
    if old is None:
        h.prove("the target is not created", now is None, lambda: repr(now))
    else:
        h.prove("the target still exists", now is not None)
        h.proveeq("the target keeps its content", now, old)


def spoil(h, ev, i, enc):
    """give the event a value that does not fit"""
    k = spec.kind(i)
    if k in spec.INT_RANGE:
        lo, hi = spec.INT_RANGE[k]
        v = h.anyint("bad")
        h.assume(h.or_(v < lo, v > hi))
        ev.value = v
    elif k == "u16x2":
        v = h.anyint("bad")
        h.assume(h.or_(v < 0, v > 65535))
        ev.value = (1, v) if h.choice("second", (True, False)) else (v, 1)
    elif k == "text":
        ev.value = h.choice("bad", ("caf\u00e9", "\u4e2d", "\U0001f600")) if enc == "ascii" else h.choice("bad", ("\ud800", "a\udfffb"))
    elif k == "data":
        ev.value = h.choice("bad", ("text", 5.5, None))
    elif k in spec.LAYOUTS:
        n, r = [f for f in spec.LAYOUTS[k][2] if f[1] in ("u32", "i32", "u16", "i16", "u8")][-1]
        lo, hi = spec.INT_RANGE[r]
        v = h.anyint("bad")
        h.assume(h.or_(v < lo, v > hi))
        ev[n] = v
    elif k in spec.LIST_LAYOUTS:
        n, r = [f for f in spec.LIST_LAYOUTS[k][1] if f[1] in ("u32", "i32", "u16", "i16", "u8")][-1]
        lo, hi = spec.INT_RANGE[r]
        v = h.anyint("bad")
        h.assume(h.or_(v < lo, v > hi))
        ev[0][n] = v
    else:
        raise ValueError(k)


def bad_event(h, side, i):
    """an event that cannot be serialised, at any position"""
    s, enc = start(side)
    data = F.payload(h, i, "F", enc, lite=True)
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", enc)
    _, p = F.inductive_load(h, s, pre, spec.frame(i, data), post, F.flp)
    at = 2 if h.sym else len(split(s + pre))
    old = target(h)
    spoil(h, B.events(p)[at], i, enc)
    refused(h, p, old)


def first_last(h, i, at):
    """the same without other events around it"""
    s, enc = start("new" if i != 195 else "old")
    if i == 195:
        i = 194
    frames = [F.frame(h, i, "F", enc, lite=True), spec.frame(10, b"\1")]
    if at:
        frames.reverse()
    p = h.load(F.flp(s + frames[0] + frames[1]))
    old = target(h)
    spoil(h, B.events(p)[1 + at], i, enc)
    refused(h, p, old)


def bad_header(h):
    p = h.load(F.flp(B.version_frame() + spec.frame(10, b"\1")))
    old = target(h)
    if h.choice("which", (0, 1)):
        v = h.anyint("channels")
        h.assume(v > 65535)
        p.channel_count = v
    else:
        p.format = h.choice("format", (32768, 70000, -32769))
    refused(h, p, old)


def too_big(h):
    """more event bytes than the size field holds"""
    d = h.blob("payload", 1 << 32, 1 << 40)
    from pyflp._events import EventEnum, UnknownDataEvent
    p = B.project([B.version(), UnknownDataEvent(EventEnum(210), d)])
    old = target(h)
    refused(h, p, old)


KINDS = {1: "u8", 16: "i8", 65: "u16", 80: "i16", 128: "u32", 142: "i32", 131: "u16x2", 194: "text", 210: "data", 209: "struct", 215: "struct", 238: "struct", 224: "list", 225: "list", 233: "list"}


def units(tier):
    us = []
    ids = [i for i in KINDS if not (spec.kind(i) == "i8" and KINDS[i] != "i8")]
    for i in ids:
        if spec.kind(i) in ("color", "bool"):
            continue
        us.append(Unit("event-%d" % i, bad_event, {"side": "new", "i": i}, FN, max_s=100, audit=20))
        for at in (0, 1):
            us.append(Unit("short-%d-%d" % (i, at), first_last, {"i": i, "at": at}, FN, "bounded", note="two other events", audit=20))
    us.append(Unit("event-194-old", bad_event, {"side": "old", "i": 194}, FN))
    us.append(Unit("header", bad_header, {}, FN))
    us.append(Unit("too-big", too_big, {}, FN, audit=0))
    return us
