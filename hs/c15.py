"""C15: a flag property toggles exactly its own bit."""
from pvc.harness import Unit, borrow
from hs import attrs, build as B, spec
from hs.c09 import join
from hs.c14 import model, others, payload, same

FN = ["FlagProp._get", "FlagProp._set", "PropBase.__get__", "PropBase.__set__", "_WrapperProp.__init__"]


def word(parts, j):
    """the flag word's value from its bytes"""
    return spec.le(parts[j])


def toggle(h, name, attr_names, single):
    table = (attrs.SINGLE_MODELS if single else attrs.EVENT_MODELS)[name]
    attr = h.choice("property", attr_names)
    _, (id,), field, mask = table[attr]
    inv, mask = mask < 0, abs(mask)
    d, parts, j = payload(h, "ev", id, field)
    if parts is None:
        parts, j = [d], 0
    around = [] if single else others(h, name, attr, (id,))
    dup = not single and h.choice("duplicate", (False, True))
    evs = around + [B.event(id, d)]
    own = len(evs) - 1
    if dup:
        evs.append(B.event(id, payload(h, "dup", id, field)[0]))
    tree = B.tree(evs)
    raw = [bytes(e) for e in evs]
    m = model(name, tree)
    w = word(parts, j)
    isset = (w & mask) != 0
    h.prove("%s tells whether its bit is set" % attr, h.eq(getattr(m, attr), h.not_(isset) if inv else isset), lambda: repr((attr, getattr(m, attr), w)))
    h.prove("reading changes nothing", same(h, tree, evs, raw))
    n = len(parts[j])
    for k in (0, 1):
        v = h.choice("value%d" % k, (True, False)) if k == 0 or h.sampling else v0
        v0 = v
        setattr(m, attr, v)
        on = v != inv
        w = (w | mask) if on else (w & ((1 << 8 * n) - 1 - mask))
        p = list(parts)
        p[j] = w.to_bytes(n, "little")
        raw[own] = spec.frame(id, join(p))
        h.prove("writing %s changes exactly its bit%s" % (attr, "" if k == 0 else ", and writing again changes nothing"), same(h, tree, evs, raw), lambda: repr((attr, v, bytes(evs[own]), raw[own])))
        h.prove("%s reads back" % attr, h.eq(getattr(m, attr), v))


def slide(h):
    """the slide flag of a note (one record of a list)"""
    from pyflp._events import EventEnum
    from pyflp.pattern import Note
    from hs.c11 import records
    from hs.c09 import strip
    n = h.choice("records", (1, 2))
    fs, recs, data = records(h, "NotesEvent", n, False)
    i = h.choice("record", range(n))
    j = [f for f, _ in fs].index("flags")
    ev = spec.event_class("NotesEvent")(EventEnum(224), data)
    note = Note(ev[i], i, ev)
    w = spec.le(recs[i][j])
    h.prove("slide tells whether its bit is set", h.eq(note.slide, (w & 8) != 0))
    for v in (h.choice("value", (True, False)), h.choice("value2", (True, False))):
        note.slide = v
        w = (w | 8) if v else (w & 0xFFF7)
        recs[i][j] = w.to_bytes(2, "little")
        h.proveeq("writing slide changes exactly its bit", strip(bytes(ev)), join([join(p) for p in recs]))
        h.prove("slide reads back", h.eq(note.slide, v))


def directx(h):
    """bit 16 of a word that has only 16 bits"""
    from hs.c14 import sbytes
    parts, j = sbytes(h, "ev", "WrapperEvent", "flags")
    ev = B.event(212, join(parts))
    m = model("plugin.VSTPlugin", B.tree([ev]))
    h.prove("an unset flag reads as such", h.eq(m.directx, False))
    m.directx = False
    h.proveeq("clearing it changes nothing", bytes(ev), spec.frame(212, join(parts)))
    m.directx = True
    h.prove("a flag that was set can be saved", h.raises(lambda: bytes(ev)) is None)


def units(tier):
    us = []
    for tab, single in ((attrs.EVENT_MODELS, False), (attrs.SINGLE_MODELS, True)):
        for name in tab:
            fl = sorted(a for a, x in tab[name].items() if x[0] == "F")
            for a in fl:
                us.append(Unit("%s.%s" % (name, a), toggle, {"name": name, "attr_names": [a], "single": single}, FN, max_s=100, audit=25))
    us.append(Unit("note-slide", slide, {}, FN + ["ItemModel.__setitem__"], audit=40))
    us.append(Unit("wrapper-directx", directx, {}, FN))
    us += borrow("c27", tier, "vst-flag-")
    return us
