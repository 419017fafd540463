"""C04: whatever was edited, the saved file is well-formed and loads back equal."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c01 import start, FORMATS, PPQS, REP
from hs.c09 import join
from hs.c11 import records, rec_fields

FN = ["save", "parse", "EventBase.__bytes__", "EventBase.__eq__", "EventTree.insert", "EventTree.append", "EventTree.pop", "EventTree.__iter__",
      "Project.channel_count", "Project.ppq", "Project.format"]
IDS = [i for i in range(256) if i not in (199, 201, 226, 227)]


def edited(h, ev, i, data, pre, enc):
    """edit the event in one way its kind allows; returns the payload it must have afterwards"""
    C, id = type(ev), ev.id
    k = spec.kind(i)
    if k in spec.FIXED or k in ("text", "data"):
        new = F.payload(h, i, pre, enc)
        ev.value = C(id, new).value
        return new
    if k in spec.LAYOUTS:
        fields = [f for f in spec.LAYOUTS[k][2]]
        parts, off = [], 0
        for n, r in fields:
            w = spec.fwidth(r)
            parts.append(data[off:] if w is None else data[off:off + w])
            off += w or 0
        cand = [j for j, (n, r) in enumerate(fields) if r not in ("tail", "log2", "lognorm", "height", "bbt")]
        j = h.choice(pre + ".field", (cand[0], cand[-1]))
        parts[j] = spec.field_bytes(h, pre + ".new", fields[j][1])
        ev[fields[j][0]] = C(id, join(parts))[fields[j][0]]
        return join(parts)
    if k in spec.LIST_LAYOUTS:
        fs = rec_fields(k, False)
        j = h.choice(pre + ".field", (0, len(fs) - 1))
        w = [spec.fwidth(r) for _, r in fs]
        parts = [data[sum(w[:q]):sum(w[:q + 1])] for q in range(len(w))]
        parts[j] = spec.field_bytes(h, pre + ".new", fs[j][1])
        ev[0][fs[j][0]] = C(id, join(parts))[0][fs[j][0]]
        return join(parts)
    if k == "InsertRoutingEvent":
        nb = spec.field_bytes(h, pre + ".new", "flag")
        ev[0] = nb[0] == 1
        return nb + data[1:]
    if k == "AutomationEvent":
        nb = h.bytes(pre + ".new", 4)
        ev["lfo.amount"] = C(id, data[:4] + nb + data[8:])["lfo.amount"]
        return data[:4] + nb + data[8:]
    return data


def step(h, side, ids):
    """an edited event among any number of others"""
    s, enc = start(side)
    i = h.choice("id", ids)
    data = F.payload(h, i, "F", enc, lite=True)
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", enc)
    f = spec.frame(i, data)
    _, p = F.inductive_load(h, s, pre, f, post, F.flp)
    evs = B.events(p)
    at = 2 if h.sym else len(split(s + pre))
    ev = evs[at]
    new = edited(h, ev, i, data, "E", enc)
    out = h.save(p)
    g = spec.frame(i, new)
    body = s + pre + g + post
    h.assume(len(body) < 1 << 32)
    h.proveeq("header, then the events in order, each framed by its own length", out, F.flp(body))
    q2 = F.inductive_load(h, s, pre, g, post, F.flp)[1]
    evs2 = B.events(q2)
    h.prove("loads back the same number of events", len(evs2) == len(evs))
    h.prove("loads back equal IDs", evs2[at].id == ev.id)
    h.prove("loads back equal values", h.eq(evs2[at] == ev, True), lambda: repr((evs2[at], ev)))


from hs.c02 import split      # noqa: E402


def header(h):
    body = B.version_frame() + F.frame(h, 210, "F", lite=True)
    p = h.load(F.flp(body, h.choice("format0", FORMATS[:2]), h.u16("channels0"), h.choice("ppq0", PPQS[:2])))
    from pyflp.project import FileFormat
    fmt, cc, ppq = h.choice("format", FORMATS), h.u16("channels"), h.choice("ppq", PPQS)
    which = h.choice("set", (0, 1, 2, 3))
    e = [p.format, p.channel_count, p.ppq]
    if which in (0, 3):
        p.format = FileFormat(fmt)
        e[0] = fmt
    if which in (1, 3):
        p.channel_count = cc
        e[1] = cc
    if which in (2, 3):
        p.ppq = ppq
        e[2] = ppq
    out = h.save(p)
    h.proveeq("the header holds the current settings", out, F.flp(body, int(e[0]), e[1], e[2]))
    q = h.load(out, "again.flp")
    h.proveeq("and they load back", [int(q.format), q.channel_count, q.ppq], [int(e[0]), e[1], e[2]])


def structure(h, n):
    """insertions and removals, then save and reload"""
    from pyflp._events import EventEnum, U8Event, U16Event, UnknownDataEvent, UnicodeEvent
    ids = (1, 65, 194, 210)
    model = [B.version_frame()]
    for k in range(n):
        i = h.choice("id%d" % k, ids)
        model.append(F.frame(h, i, "F%d" % k, lite=True))
    p = h.load(F.flp(B.sum_(model)))
    for k in range(2):
        op = h.choice("op%d" % k, ("insert", "append", "remove"))
        if op == "remove":
            if not model:
                h.assume(False)
            j = h.int("at%d" % k, 0, len(model) - 1) if h.sampling else h.choice("at%d" % k, range(len(model)))
            id = B.events(p)[j].id
            pos = sum(1 for e in B.events(p)[:j] if e.id == id)
            p.events.remove(id, pos)
            del model[j]
            continue
        i = h.choice("new%d" % k, ids[:1] if (not h.sampling) and n > 1 else ids)
        data = F.payload(h, i, "N%d" % k, lite=True)
        ev = {1: U8Event, 65: U16Event, 194: UnicodeEvent, 210: UnknownDataEvent}[i](EventEnum(i), data)
        if op == "insert":
            j = h.int("at%d" % k, 0, len(model)) if h.sampling else h.choice("at%d" % k, range(len(model) + 1))
            if j == len(model) and not model:
                h.assume(False)
            p.events.insert(j, ev)
            model.insert(j, spec.frame(i, data))
        else:
            p.events.append(ev)
            model.append(spec.frame(i, data))
    if not model:
        return
    out = h.save(p)
    h.proveeq("the saved file holds the events in project order", out, F.flp(B.sum_(model)))


def twins(h, side, ids):
    """events with the same bytes, and two projects from one file, are independent of each other"""
    s, enc = start(side)
    i = h.choice("id", ids)
    data = F.payload(h, i, "F", enc, lite=True)
    f = spec.frame(i, data)
    m = F.frame(h, 210, "M", enc, lite=True)
    body = s + f + m + f
    h.assume(len(body) < 1 << 32)
    p, q = h.load(F.flp(body)), h.load(F.flp(body), "in2.flp")
    at = len(split(s))
    w = h.choice("which", (0, 2))
    new = edited(h, B.events(p)[at + w], i, data, "E", enc)
    g = spec.frame(i, new)
    h.proveeq("only the edited event changes in the saved file", h.save(p), F.flp(s + (f if w else g) + m + (g if w else f)))
    h.proveeq("another project from the same file is saved as it was", h.save(q, "out2.flp"), F.flp(body))


def again(h, i):
    """saves to one path, onto whatever is there, with edits in between that may keep the length"""
    from pyflp.project import FileFormat
    d0 = F.payload(h, i, "F", lite=True)
    v = B.version_frame()
    p = h.load(F.flp(v + spec.frame(i, d0)))
    fmt, cc, ppq = 0, 1, 96
    d = d0
    there = h.choice("target", ("missing", "same length", "anything"))
    if there == "same length":
        h.put("out.flp", h.bytes("junk", 22) + h.bytes("junk2", len(v)) + spec.frame(i, F.payload(h, i, "J", lite=True)) if h.choice("same", (True, False)) else F.flp(v + spec.frame(i, d0), 0, 2, 192))
    elif there == "anything":
        h.put("out.flp", h.blob("junk", 0, 3000))
    for k in range(3):
        what = h.choice("edit%d" % k, ("nothing", "event", "header") if k < 2 else ("nothing", "header"))
        if what == "event":
            d = edited(h, B.events(p)[1], i, d, "E%d" % k, "utf-16-le")
        elif what == "header":
            cc, ppq = cc + 1, 192 if ppq == 96 else 96
            p.channel_count, p.ppq = cc, ppq
        h.proveeq("the file holds the project as it is now", h.save(p), F.flp(v + spec.frame(i, d), fmt, cc, ppq))


def session(h):
    """long random sessions of edits, saves and reloads (run-time check only)"""
    side = h.choice("side", ("new", "old"))
    s, enc = start(side)
    frames = [(199, None, s)]
    for k in range(h.int("n", 1, 30)):
        i = h.choice("id%d" % k, IDS)
        d = F.payload(h, i, "F%d" % k, enc, lite=True)
        frames.append((i, d, spec.frame(i, d)))
    p = h.load(F.flp(b"".join(f[2] for f in frames)))
    for k in range(h.int("ops", 1, 12)):
        j = h.int("at%d" % k, 1, len(frames)) if len(frames) > 1 else 1
        op = h.choice("op%d" % k, ("edit", "edit", "insert", "remove"))
        if op == "insert" or j == len(frames):
            i = h.choice("nid%d" % k, IDS)
            d = F.payload(h, i, "N%d" % k, enc, lite=True)
            p.events.insert(j, B.event(i, d, text="UnicodeEvent" if side == "new" else "AsciiEvent"))
            frames.insert(j, (i, d, spec.frame(i, d)))
        elif op == "edit":
            i, d, _ = frames[j]
            d = edited(h, B.events(p)[j], i, d, "E%d" % k, enc)
            frames[j] = (i, d, spec.frame(i, d))
        else:
            e = B.events(p)
            p.events.remove(e[j].id, sum(1 for x in e[:j] if x.id == e[j].id))
            del frames[j]
    out = h.save(p)
    h.proveeq("header, then the events in order, each framed by its own length", out, F.flp(b"".join(f[2] for f in frames)))
    a, b = B.events(p), B.events(h.load(out, "again.flp"))
    h.prove("loads back equal", len(a) == len(b) and all(x.id == y.id and x == y for x, y in zip(a, b)), lambda: repr([(x, y) for x, y in zip(a, b) if x != y][:2]))


def units(tier):
    us = []
    for side in ("new", "old"):
        for k in range(0, len(IDS), 16):
            us.append(Unit("step-%s-%d" % (side, IDS[k]), step, {"side": side, "ids": IDS[k:k + 16]}, FN, max_s=120, audit=20))
        ids = IDS if side == "new" else REP
        for k in range(0, len(ids), 32):
            us.append(Unit("twins-%s-%d" % (side, ids[k]), twins, {"side": side, "ids": ids[k:k + 32]}, FN, max_s=120, audit=20))
    for i in (1, 65, 130, 194, 210, 218):
        us.append(Unit("again-%d" % i, again, {"i": i}, FN, "bounded", note="three saves to one path, all contents", max_s=120, audit=30))
    us.append(Unit("header", header, {}, FN, max_s=200))
    for n in (0, 1, 2):
        us.append(Unit("structure-%d" % n, structure, {"n": n}, FN, "bounded", note="%d events besides the version, two operations" % n, max_s=150, audit=60))
    us.append(Unit("session", session, {}, FN, "bounded", note="run-time check of random sessions", sym=False, audit=300))
    us.append(Unit("lengths", F.lengths, {}, FN, "bounded", note="run-time check of payloads of up to 2 MiB", sym=False, audit=40))
    return us
