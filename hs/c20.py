"""C20: note keys and names."""
from pvc.harness import Unit
from hs import build as B, spec
from hs.c11 import records

NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")
ALL = [NAMES[k % 12] + str(k // 12) for k in range(132)]
BAD = ["", "C", "C#", "5", "H5", "Cb5", "C11", "B11", "C-1", "c5", "C 5", " C5", "C5 ", "C05", "C#05", "E#5", "B#3", "C##5", "C5C", "5C", "C5.0", "\u266f5",
       "C\u0665", "Db4", "B#", "#5", "C+5", "A#", "A#11", "C1_0", "C1e1", "G#-1", "none", "0", "131", "CC5", "C#C5", "C\n5", "C5\n", "C#\u0661", "B10 ", "B100", "D10#"]


def pattern(h, n=2):
    from pyflp.pattern import Pattern
    fs, recs, data = records(h, "NotesEvent", n, True)
    t = B.tree([B.event(65, b"\1\0"), B.event(224, data)])
    return Pattern(t), fs, recs, t


def put(fs, recs, i, key):
    j = [f for f, _ in fs].index("key")
    recs = [list(r) for r in recs]
    recs[i][j] = key.to_bytes(2, "little")
    return spec.frame(224, _join(recs))


def _join(recs):
    from hs.c09 import join
    return join([join(r) for r in recs])


def read(h):
    p, fs, recs, t = pattern(h, 1)
    k = h.int("key", 0, 131)
    note = list(p.notes)[0]
    note["key"] = k
    h.prove("name and octave", note.key == h_name(h, k))


def h_name(h, k):
    i = k if type(k) is int else k.conc()
    return ALL[i]


def read_stored(h):
    """through the file bytes"""
    from pyflp.pattern import Pattern
    fs, recs, _ = records(h, "NotesEvent", 2, True)
    i = h.choice("note", (0, 1))
    k = h.choice("key", range(132))
    data = put(fs, recs, i, k)
    t = B.tree([B.event(65, b"\1\0"), B.event(224, _payload(data))])
    note = list(Pattern(t).notes)[i]
    h.proveeq("reads as name and octave", note.key, ALL[k])
    h.proveeq("reading changes nothing", B.raw(t)[1], data)


def _payload(frame):
    from hs.c09 import strip
    return strip(frame)


def set_number(h):
    p, fs, recs, t = pattern(h)
    i = h.choice("note", (0, 1))
    v = h.anyint("value")
    before = B.raw(t)
    note = list(p.notes)[i]
    err = h.raises(lambda: setattr(note, "key", v))
    ok = h.and_(v >= 0, v <= 131)
    if err is not None:
        h.prove("only a number outside of 0-131 is refused", h.not_(ok), lambda: repr(err))
        h.prove("ValueError", isinstance(err, ValueError))
        h.proveeq("leaves the note unchanged", B.raw(t), before)
        return
    h.prove("a number outside of 0-131 is refused", ok)
    h.proveeq("stores that key and nothing else", B.raw(t)[1], put(fs, recs, i, v))
    h.proveeq("other events", B.raw(t)[0], before[0])


def set_name(h, lo, hi):
    p, fs, recs, t = pattern(h)
    i = h.choice("note", (0, 1))
    k = h.choice("key", range(lo, hi))
    note = list(p.notes)[i]
    note.key = ALL[k]
    h.proveeq("stores that key and nothing else", B.raw(t)[1], put(fs, recs, i, k))
    h.proveeq("reads back", note.key, ALL[k])


def bad_name(h):
    p, fs, recs, t = pattern(h)
    s = h.choice("text", BAD)
    before = B.raw(t)
    note = list(p.notes)[1]
    err = h.raises(lambda: setattr(note, "key", s))
    h.prove("a text that is no key name is refused", isinstance(err, ValueError), lambda: "%r accepted: %r" % (s, err))
    h.proveeq("leaves the note unchanged", B.raw(t), before)


def any_name(h):
    """random short texts over the alphabet of key names"""
    p, fs, recs, t = pattern(h)
    n = h.int("n", 0, 5)
    s = "".join(h.choice("c%d" % i, "CDEFGABH#b0123456789 -cd.+_\n") for i in range(n))
    before = B.raw(t)
    note = list(p.notes)[0]
    err = h.raises(lambda: setattr(note, "key", s))
    if s in ALL:
        h.prove("accepted", err is None)
        h.proveeq("stores that key and nothing else", B.raw(t)[1], put(fs, recs, 0, ALL.index(s)))
    else:
        h.prove("a text that is no key name is refused", isinstance(err, ValueError), lambda: "%r accepted: %r" % (s, err))
        h.proveeq("leaves the note unchanged", B.raw(t), before)


def short_names(h, first):
    """every text of up to 3 characters of the alphabet of key names"""
    p, fs, recs, t = pattern(h, 1)
    n = h.choice("n", (0, 1, 2))
    s = first + "".join(h.choice("c%d" % i, "CDEFGAB#0123456789") for i in range(n))
    before = B.raw(t)
    note = list(p.notes)[0]
    err = h.raises(lambda: setattr(note, "key", s))
    if s in ALL:
        h.prove("accepted", err is None)
        h.proveeq("stores that key", note["key"], ALL.index(s))
    else:
        h.prove("a text that is no key name is refused", isinstance(err, ValueError), lambda: "%r accepted: %r" % (s, err))
        h.proveeq("leaves the note unchanged", B.raw(t), before)


def units(tier):
    F = ["Note.key", "Note.key.setter", "ItemModel.__setitem__", "Pattern.notes"]
    us = [Unit("read", read, {}, F, note="all 132 keys"),
          Unit("read-stored", read_stored, {}, F, note="all 132 keys", max_s=100),
          Unit("set-number", set_number, {}, F),
          Unit("bad-names", bad_name, {}, F, "bounded", note="%d texts" % len(BAD), audit=80),
          Unit("any-text", any_name, {}, F, sym=False, audit=600)]
    for lo in range(0, 132, 44):
        us.append(Unit("set-name-%d" % lo, set_name, {"lo": lo, "hi": lo + 44}, F, note="all 132 names", max_s=100))
    for c in "CDEFGABH#5":
        us.append(Unit("short-" + c, short_names, {"first": c}, F, "bounded", note="texts of up to 3 characters starting with " + c, max_s=100, audit=20))
    return us
