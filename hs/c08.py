"""C08: text encoding by version, through load and save."""
from pvc.harness import Unit
from hs import build as B, spec
from hs.c17 import version_event
from hs.c18 import dotted

TEXT_IDS = [i for i in range(192, 208) if i not in (199,)] + list(spec.NEW_TEXT_IDS)


def versions(h, n, side):
    v = [h.int("major", 0, 255), h.int("minor", 0, 999), h.int("patch", 0, 99), h.int("build", 0, 99999)][:n]
    new = h.or_(v[0] > 11, h.and_(v[0] == 11, v[1] >= 5)) if n > 1 else v[0] > 11
    h.assume(new if side == "new" else h.not_(new))
    return v, "utf-16-le" if side == "new" else "ascii"


def load(h, n, side, ids):
    """any version of that side of 11.5, any text ID"""
    v, enc = versions(h, n, side)
    s = h.text("text", (enc,), maxlen=60)
    i = h.choice("id", ids)
    data = B.flp([B.version_frame(dotted(h, v)), spec.frame(i, B.vtext(s, enc))])
    p = h.load(data)
    es = B.events(p)
    h.prove("two events", len(es) == 2)
    h.proveeq("version text is ASCII", es[0].value, dotted(h, v))
    h.proveeq("text", es[1].value, s)
    h.prove("ID", es[1].id == i)
    t = h.text("new text", (enc,), maxlen=60)
    es[1].value = t
    out = h.save(p)
    h.proveeq("saved with one terminator", out, B.flp([B.version_frame(dotted(h, v)), spec.frame(i, B.vtext(t, enc))]))
    h.proveeq("reads back after a reload", B.events(h.load(out, "again.flp"))[1].value, t)


def size(h, side):
    """texts of any length"""
    enc = "utf-16-le" if side == "new" else "ascii"
    s = h.text("text", (enc,))
    f = spec.frame(194, B.vtext(s, enc))
    data = B.flp([B.version_frame("20.0.0" if side == "new" else "9.0.0"), f])
    p = h.load(data)
    h.proveeq("text", B.events(p)[1].value, s)
    h.proveeq("saves the same file", h.save(p), data)


def awkward(h, side):
    """NULs, blanks and marks at the ends and inside of a text belong to it"""
    enc = "utf-16-le" if side == "new" else "ascii"
    marks = ("\ufeff", "\ufffe", "\U0001f600") if side == "new" else ("\x7f", "\x1a")
    s = h.choice("front", ("", "\0", "x\0\0y", " ", "\r\n") + marks) + h.text("text", (enc,), nonempty=True, maxlen=60) \
        + h.choice("end", ("", " ", "\0z", "\r\n", "\t") + marks)
    i = h.choice("id", (194, 197, 239))
    f = spec.frame(i, B.vtext(s, enc))
    data = B.flp([B.version_frame("20.0.0" if side == "new" else "9.0.0"), f])
    p = h.load(data)
    h.proveeq("text", B.events(p)[1].value, s)
    B.events(p)[1].value = s
    out = h.save(p)
    h.proveeq("saves the same file", out, data)
    h.proveeq("reads back", B.events(h.load(out, "again.flp"))[1].value, s)


def later(h):
    """the version in force is the one stored before the text"""
    a, ea = versions_pair(h, "a")
    i = h.choice("id", (192, 194, 207, 239))
    s = h.text("text", (ea,), maxlen=40)
    u = h.text("other", (ea,), maxlen=40)
    data = B.flp([B.version_frame(a), spec.frame(i, B.vtext(s, ea)), spec.frame(10, b"\1"), spec.frame(196, B.vtext(u, ea))])
    es = B.events(h.load(data))
    h.proveeq("text", es[1].value, s)
    h.proveeq("text further on", es[3].value, u)


def versions_pair(h, n):
    v = h.choice("version " + n, ("1.0.0", "3.5.4", "9.9.9", "10.0.9", "11.0.4", "11.4.9", "11.5.0", "11.5.1.7", "11.10.0", "11.100.0", "12.0.0", "12.1.0.3", "20.8.4.2576", "21.0.3.3517", "100.0.0",
                                      "11.4.99.100", "2.11.5", "0.20.0"))
    major, minor = [int(x) for x in v.split(".")[:2]]
    return v, "utf-16-le" if (major, minor) >= (11, 5) else "ascii"


def unversioned(h, first):
    from pyflp.exceptions import VersionNotDetected
    i = h.choice("id", TEXT_IDS)
    fr = [spec.frame(i, h.bytes("payload", 4))]
    if first:
        fr = [spec.frame(10, b"\0")] + fr
    if h.choice("version follows", (False, True)):
        fr.append(B.version_frame())
    err = h.raises(lambda: h.load(B.flp(fr)))
    h.prove("a text before the version is refused", isinstance(err, VersionNotDetected), lambda: repr(err))


def units(tier):
    us = []
    F = ["parse", "save", "AsciiEvent", "UnicodeEvent", "EventBase.__bytes__"]
    for side in ("new", "old"):
        for n in (2, 3, 4):
            us.append(Unit("load-%s-%d" % (side, n), load, {"n": n, "side": side, "ids": TEXT_IDS[:3] if n != 3 else TEXT_IDS}, F))
        us.append(Unit("any-length-" + side, size, {"side": side}, F))
        us.append(Unit("awkward-" + side, awkward, {"side": side}, F))
    us.append(Unit("later", later, {}, F))
    for f in (False, True):
        us.append(Unit("unversioned-%d" % f, unversioned, {"first": f}, ["parse"]))
    return us
