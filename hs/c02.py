"""C02: the event stream is split into exactly the frames the file contains."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c01 import start, REP

FN = ["parse", "EventEnum.__new__", "EventEnum._missing_", "EventBase.__init__", "EventBase.__bytes__", "EventTree.__init__", "EventTree.__iter__"]
IDS = [i for i in range(256) if i not in (199, 226, 227)]
# IDs no part of the library claims
UNKNOWN = [i for i in IDS if i not in spec.KINDS and i not in (201, 213) and not (192 <= i < 208 and i in (192, 193, 194, 195, 196, 197, 198, 200, 202, 203, 204, 205, 206, 207))]


def reads(h, ev, i, data, enc, name=None):
    """the event stands for that frame"""
    h.prove("the event has the frame's ID", h.eq(int(ev.id), i), lambda: repr((ev.id, i)))
    h.proveeq("the event holds the frame's payload", bytes(ev), spec.frame(i, data))
    k = spec.kind(i)
    if k in ("u8", "u16", "u32"):
        h.prove("unsigned integer of its width", ev.value == spec.le(data), lambda: repr((ev, data)))
    elif k == "data" and i != 213:
        h.proveeq("raw bytes", ev.value, data)


def step(h, side, ids):
    s, enc = start(side)
    i = h.choice("id", ids)
    data = F.payload(h, i, "F", enc)
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", enc)
    f = spec.frame(i, data)
    if h.sym:
        _, p = F.inductive_load(h, s, pre, f, post, F.flp, carried=i == 201)
        evs = B.events(p)
        h.prove("no event is lost or made up", sum(1 for _ in evs) == 4)
        h.prove("events are in file order", evs[1].b is pre and evs[3].b is post)
        ev = evs[2]
    else:
        p = h.load(F.flp(s + pre + f + post))
        fr = split(s + pre + f + post)
        evs = B.events(p)
        h.prove("no event is lost or made up", len(evs) == len(fr), lambda: repr((len(evs), len(fr))))
        for e, (j, d, raw) in zip(evs, fr):
            h.prove("events are in file order", (int(e.id), bytes(e)) == (j, raw), lambda: repr((e, j, raw)))
        ev = evs[len(split(s + pre))]
    reads(h, ev, i, data, enc)
    if spec.kind(i) == "text":
        h.proveeq("text", ev.value + "\0", data.decode(enc))


def split(b):
    """frames of a concrete stream, by the documented rule"""
    out, k = [], 0
    while k < len(b):
        i, a = b[k], k
        k += 1
        n = spec.width(i)
        if n is None:
            n, sh = 0, 0
            while True:
                x = b[k]
                k += 1
                n |= (x & 127) << sh
                sh += 7
                if x < 128:
                    break
        out.append((i, b[k:k + n], b[a:k + n]))
        k += n
    return out


def two(h, first):
    """neighbouring frames do not influence each other"""
    s, enc = start("new")
    j = h.choice("second", REP)
    a, b = F.payload(h, first, "A", enc, lite=True), F.payload(h, j, "B", enc, lite=True)
    evs = B.events(h.load(F.flp(s + spec.frame(first, a) + spec.frame(j, b))))
    h.prove("no event is lost or made up", len(evs) == 3)
    reads(h, evs[1], first, a, enc)
    reads(h, evs[2], j, b, enc)


def prefix(h, i, lo, hi):
    """payloads of every length, with any two frames behind"""
    s, enc = start("new")
    data = h.blob("payload", lo, hi)
    tail = h.bytes("a", 1), h.bytes("b", 2)
    body = s + spec.frame(i, data) + spec.frame(1, tail[0]) + spec.frame(65, tail[1])
    h.assume(len(body) < 1 << 32)
    evs = B.events(h.load(F.flp(body)))
    h.prove("no event is lost or made up", len(evs) == 4)
    h.proveeq("payload", evs[1].value, data)
    reads(h, evs[2], 1, tail[0], enc)
    reads(h, evs[3], 65, tail[1], enc)


def units(tier):
    us = []
    for side in ("new", "old"):
        for k in range(0, len(IDS), 16):
            us.append(Unit("step-%s-%d" % (side, IDS[k]), step, {"side": side, "ids": IDS[k:k + 16]}, FN, max_s=120, audit=20))
    for i in REP:
        us.append(Unit("two-%d" % i, two, {"first": i}, FN, "bounded", note="two frames, all pairs of payload kinds", max_s=120, audit=10))
    for lo, hi in ((0, 127), (128, 16383), (16384, (1 << 21) - 1), (1 << 21, (1 << 28) - 1), (1 << 28, (1 << 31))):
        us.append(Unit("length-%d" % lo, prefix, {"i": 210, "lo": lo, "hi": hi}, FN, audit=20 if lo < 20000 else 0))
    us.append(Unit("lengths", F.lengths, {}, FN, "bounded", note="run-time check of payloads of up to 2 MiB", sym=False, audit=40))
    return us
