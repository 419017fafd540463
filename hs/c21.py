"""C21: values packed into one stored number."""
from pvc.harness import Unit
from hs import build as B

SIG = 134217728


def num(h, name, n=4):
    """(stored number, its bytes)"""
    v = h.int(name, 0, (1 << (8 * n)) - 1)
    return v, v.to_bytes(n, "little")


def around(h, es, at, ev):
    """the tested event among other events of the same model"""
    es = list(es)
    es.insert(at, ev)
    return B.tree(es)


def marker(h, name):
    from pyflp.timemarker import TimeMarker, TimeMarkerType
    v, d = num(h, "stored")
    es = [B.event(33, h.bytes("numerator", 1)), B.event(34, h.bytes("denominator", 1))]
    if name:
        es.append(B.event(205, B.vtext("m")))
    t = around(h, es, h.choice("at", (0, 1, 2)), B.event(148, d))
    before = B.raw(t)
    m = TimeMarker(t)
    sig = v >= SIG
    h.proveeq("kind", h.ite(sig, 1, 0), h.ite(m.type == TimeMarkerType.Signature, 1, 0))
    h.prove("kind is one of the two", h.or_(m.type == TimeMarkerType.Signature, m.type == TimeMarkerType.Marker))
    h.proveeq("position", m.position, h.ite(sig, v - SIG, v))
    h.proveeq("reading changes nothing", B.raw(t), before)


def no_marker(h):
    from pyflp.timemarker import TimeMarker
    m = TimeMarker(B.tree([B.event(33, h.bytes("numerator", 1))]))
    h.prove("no position event", m.type is None and m.position is None)


def reverb(h, op):
    from pyflp.channel import Reverb, ReverbType
    v, d = num(h, "stored")
    t = around(h, [B.event(69, h.bytes("fxflags", 2))], h.choice("at", (0, 1)), B.event(139, d))
    i = [n for n, e in enumerate(t) if e.id == 139][0]
    before = B.raw(t)
    r = Reverb(t)
    isb = v >= 65536
    mix = h.ite(isb, v - 65536, v)
    if op == "read":
        h.proveeq("type", h.ite(r.type == ReverbType.B, 1, 0), h.ite(isb, 1, 0))
        h.prove("type is one of the two", h.or_(r.type == ReverbType.B, r.type == ReverbType.A))
        h.proveeq("mix", r.mix, mix)
        h.proveeq("reading changes nothing", B.raw(t), before)
        return
    h.assume(mix < 65536)          # parts that do not overlap; documented mixes are 0-256
    if op == "type":
        new = h.choice("type", ("A", "B"))
        r.type = ReverbType[new]
        h.prove("type reads back", r.type == ReverbType[new])
        h.proveeq("mix stays", r.mix, mix)
        want = mix + (65536 if new == "B" else 0)
    else:
        new = h.int("mix", 0, 65535)
        r.mix = new
        h.proveeq("mix reads back", r.mix, new)
        h.proveeq("type stays", h.ite(r.type == ReverbType.B, 1, 0), h.ite(isb, 1, 0))
        want = new + h.ite(isb, 65536, 0)
    h.proveeq("stored number", B.raw(t)[i], bytes([139]) + want.to_bytes(4, "little"))
    B.same_but(h, "reverb", before, B.raw(t), i)


def no_reverb(h):
    from pyflp.channel import Reverb, ReverbType
    from pyflp.exceptions import PropertyCannotBeSet
    t = B.tree([B.event(69, h.bytes("fxflags", 2))])
    before = B.raw(t)
    r = Reverb(t)
    h.prove("reads as nothing", r.type is None and r.mix is None)
    h.prove("type refused", isinstance(h.raises(lambda: setattr(r, "type", ReverbType.B)), PropertyCannotBeSet))
    h.prove("mix refused", isinstance(h.raises(lambda: setattr(r, "mix", 3)), PropertyCannotBeSet))
    h.proveeq("unchanged", B.raw(t), before)


def delay(h, op):
    from pyflp.channel import Delay
    x, dx = num(h, "x", 2)
    y, dy = num(h, "y", 2)
    t = around(h, [B.event(209, h.bytes("delay", 20), "DelayEvent")], h.choice("at", (0, 1)), B.event(138, dx + dy))
    i = [n for n, e in enumerate(t) if e.id == 138][0]
    before = B.raw(t)
    d = Delay(t)
    h.proveeq("x", d.mod_x, x)
    h.proveeq("y", d.mod_y, y)
    if op != "read":
        new, dn = num(h, "new", 2)
        setattr(d, op, new)
        if op == "mod_x":
            dx, x = dn, new
        else:
            dy, y = dn, new
    h.proveeq("x after", d.mod_x, x)
    h.proveeq("y after", d.mod_y, y)
    h.proveeq("stored", B.raw(t)[i], bytes([138]) + dx + dy)
    B.same_but(h, "delay", before, B.raw(t), i)


def remote(h):
    from pyflp.controller import RemoteController
    n = h.choice("length", (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20))
    data = h.bytes("payload", n)
    t = B.tree([B.event(227, data, "RemoteControllerEvent")])
    before = B.raw(t)
    r = RemoteController(t)
    if n < 6:
        h.prove("absent", r.parameter is None and r.controls_vst is None)
        return
    v = int.from_bytes(data[4:6], "little")
    h.proveeq("parameter", r.parameter, v & 0x7FFF)
    h.proveeq("controls a VST", r.controls_vst, v >= 0x8000)
    h.proveeq("reading changes nothing", B.raw(t), before)


def loop(h, has, op):
    from pyflp.arrangement import Arrangements
    from pyflp.types import FLVersion
    from pyflp.exceptions import PropertyCannotBeSet
    es, at, w = [B.event(17, h.bytes("num", 1))], None, None
    a, b = [], None
    if "old" in has:
        x, dx = num(h, "old start", 2)
        y, dy = num(h, "old end", 2)
        es.append(B.event(152, dx + dy))
        at, w, a, b = len(es) - 1, 2, x, y
    if "sel" in has:
        x, dx = num(h, "start")
        y, dy = num(h, "end")
        es.append(B.event(217, dx + dy, "PLSelectionEvent"))
        at, w, a, b = len(es) - 1, 4, x, y
    t = B.tree(es)
    before = B.raw(t)
    ar = Arrangements(t, channels=None, patterns=None, version=FLVersion(20, 8, 4))
    if op == "read":
        got = ar.loop_pos
        if not has:
            h.prove("no range", got is None)
        else:
            h.prove("a pair", len(got) == 2)
            h.proveeq("start", got[0], a)
            h.proveeq("end", got[1], b)
        h.proveeq("reading changes nothing", B.raw(t), before)
        return
    if not has:
        h.prove("refused", isinstance(h.raises(lambda: setattr(ar, "loop_pos", (1, 2))), PropertyCannotBeSet))
        h.proveeq("unchanged", B.raw(t), before)
        return
    x, dx = num(h, "new start", w)
    y, dy = num(h, "new end", w)
    ar.loop_pos = (x, y)
    got = ar.loop_pos
    h.proveeq("start reads back", got[0], x)
    h.proveeq("end reads back", got[1], y)
    h.proveeq("stored", B.raw(t)[at], (bytes([152]) if w == 2 else bytes([217, 8])) + dx + dy)
    B.same_but(h, "range", before, B.raw(t), at)


def units(tier):
    us = [Unit("marker-%s" % n, marker, {"name": n == "named"}, ["TimeMarker.position", "TimeMarker.type"]) for n in ("named", "unnamed")]
    us.append(Unit("marker-none", no_marker, {}, ["TimeMarker.position", "TimeMarker.type"]))
    for op in ("read", "type", "mix"):
        us.append(Unit("reverb-" + op, reverb, {"op": op}, ["Reverb.type", "Reverb.mix", "Reverb.type.setter", "Reverb.mix.setter"]))
    us.append(Unit("reverb-none", no_reverb, {}, ["Reverb.type", "Reverb.mix"]))
    for op in ("read", "mod_x", "mod_y"):
        us.append(Unit("delay-" + op, delay, {"op": op}, ["Delay.mod_x", "Delay.mod_y"]))
    us.append(Unit("remote", remote, {}, ["RemoteController.parameter", "RemoteController.controls_vst"]))
    for has in ((), ("old",), ("sel",), ("old", "sel")):
        for op in ("read", "set"):
            us.append(Unit("loop-%s-%s" % ("+".join(has) or "none", op), loop, {"has": has, "op": op}, ["Arrangements.loop_pos", "Arrangements.loop_pos.setter"]))
    return us
