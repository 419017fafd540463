"""C27: plugin data is interpreted by the plugin it belongs to, and only then."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c09 import join, strip
from hs.c14 import Fix
from hs.c22 import ev, same, u16

FN = ["parse", "get_event_by_internal_name", "PluginProp.__get__", "PluginProp.__set__", "PluginProp._get_plugin_events", "_NativePluginProp.__init__", "StructProp._get",
      "StructProp._set", "_VSTPluginProp.__get__", "_VSTPluginProp.__set__", "_VSTPluginProp._get", "_VSTPluginProp._set", "_VSTFlagProp._get", "_VSTFlagProp._set",
      "VSTPlugin.__init__", "VSTPluginEvent.__init__"]

GENERATORS = {"Fruity Wrapper": "VSTPlugin", "BooBass": "BooBass", "Fruit Kick": "FruitKick", "Plucked!": "Plucked"}
EFFECTS = {"Fruity Wrapper": "VSTPlugin", "Fruity Balance": "FruityBalance", "Fruity Blood Overdrive": "FruityBloodOverdrive", "Fruity Center": "FruityCenter",
           "Fruity Fast Dist": "FruityFastDist", "Fruity NoteBook 2": "FruityNotebook2", "Fruity Send": "FruitySend", "Fruity Soft Clipper": "FruitySoftClipper",
           "Fruity Stereo Enhancer": "FruityStereoEnhancer", "Soundgoodizer": "Soundgoodizer"}
UNKNOWN = ("", "3xOsc", "fruity wrapper", "Fruity Wrapper ", "BooBas", "Fruity Balance 2")

# VST options: attribute -> (section, field, bit or None, inverted)
VST = {"fourcc": (51, None), "guid": (52, None), "state": (53, None), "name": (54, None), "plugin_path": (55, None), "vendor": (56, None),
       "midi.input": (1, "input"), "midi.output": (1, "output"), "midi.pb_range": (1, "pb_range"), "compatibility.fast_idle": (2, "fast_idle")}
FLAGS = {"automation.notify_changes": ("flags", -6), "compatibility.buffers_maxsize": ("flags2", 1), "compatibility.fixed_buffers": ("flags", 1),
         "compatibility.process_maximum": ("flags2", 0), "compatibility.reset_on_transport": ("flags", -25), "compatibility.send_loop": ("flags", 11),
         "compatibility.use_time_offset": ("flags", -31), "midi.send_modx": ("flags", 17), "midi.send_pb": ("flags", 0), "midi.send_release": ("flags", -5),
         "processing.allow_sd": ("flags", 29), "processing.bridged": ("flags", 18), "processing.external": ("flags", 21), "processing.keep_state": ("flags", -16),
         "processing.multithreaded": ("flags", 12), "processing.notify_render": ("flags", 2), "processing.process_inactive": ("flags", 3),
         "ui.accept_drop": ("flags", 28), "ui.always_update": ("flags", 23), "ui.dpi_aware": ("flags", 26), "ui.scale_editor": ("flags", 30)}
MIDI = [("input", "i32"), ("output", "i32"), ("pb_range", "u32")]
FLAGSEC = [("_u1", "b9"), ("flags", "u32"), ("flags2", "u32"), ("_u2", "b5"), ("fast_idle", "flag")]


def get(o, path):
    for a in path.split("."):
        o = getattr(o, a)
    return o


def put(o, path, v):
    *p, a = path.split(".")
    for x in p:
        o = getattr(o, x)
    setattr(o, a, v)


# ------------------------------------------------------------------------------------------------ whole files
def frames_of(h, where, names, payload, noise):
    """a file whose plugin state follows those internal names; returns (frames, position of the state)"""
    fr = [B.version_frame(), spec.frame(231, B.vtext("All"))]
    start = [spec.frame(64, u16(0)), spec.frame(21, b"\2"), spec.frame(145, bytes(4))]
    chan2 = [spec.frame(64, u16(1)), spec.frame(21, b"\2"), spec.frame(145, bytes(4))]
    if where == "channel":
        for n in names[:-1]:
            fr += start + [spec.frame(201, B.vtext(n)), spec.frame(203, B.vtext("x"))]
        fr += chan2
        if names:
            fr.append(spec.frame(201, B.vtext(names[-1])))
    else:
        fr += start
        for n in names[:-1]:
            fr += [spec.frame(201, B.vtext(n)), spec.frame(203, B.vtext("x"))]
        fr += [spec.frame(236, bytes(12)), spec.frame(98, u16(0))]
        if names:
            fr.append(spec.frame(201, B.vtext(names[-1])))
    fr += [spec.frame(i, F.payload(Fix(i), i, "n", lite=True)) for i in noise]
    at = len(fr)
    fr.append(spec.frame(213, payload))
    if where == "slot":
        fr.append(spec.frame(147, bytes(4)))
    return fr, at


def host(p, where):
    return list(p.channels)[-1] if where == "channel" else list(list(p.mixer)[0])[0]


def typing(h, where):
    models = GENERATORS if where == "channel" else EFFECTS
    every = dict(GENERATORS, **EFFECTS)
    name = h.choice("name", list(models) + list(UNKNOWN) + [None])
    earlier = h.choice("earlier", (None, "Fruity Wrapper", "3xOsc", "Fruity Balance", "BooBass") if name is not None else (None,))
    noise = h.choice("noise", ((), (212, 155, 128, 203, 0, 97)))
    payload = F.payload(Fix(3), 213, "d", plugin=name) if name in every else h.blob("payload", 0, 1 << 20)
    names = [n for n in (earlier, name) if n is not None]
    fr, at = frames_of(h, where, names, payload, noise)
    p = h.load(B.flp(fr, channel_count=1))
    evs = list(p.events)
    h.proveeq("the state is kept byte for byte", bytes(evs[at]), fr[at])
    o = host(p, where)
    pl = o.plugin
    h.prove("there is a plugin", pl is not None, lambda: repr((where, name)))
    if name in models:
        h.prove("the plugin's model is that of the most recent internal name", type(pl).__name__ == models[name] and pl.INTERNAL_NAME == name, lambda: repr((type(pl), name)))
    else:
        h.prove("an unknown plugin is not taken for another", not any(type(pl).__name__ == m for m in every.values()), lambda: repr((type(pl), name)))
        h.prove("and its state stays raw", h.eq(evs[at].value, payload), lambda: repr(type(evs[at])))
    h.prove("the model holds the plugin's own events", same(pl.events, [e for e in o.events if e.id in (212, 213)]))


def again(h):
    """the internal name stays in force until the next one"""
    every = dict(GENERATORS, **EFFECTS)
    a = h.choice("name", list(every) + list(UNKNOWN))
    b = h.choice("next", (None, "BooBass", "Fruity Wrapper", "3xOsc"))
    ch = lambda k: [spec.frame(64, u16(k)), spec.frame(21, b"\2"), spec.frame(145, bytes(4))]
    raw = h.blob("payload", 0, 1 << 20)
    state = lambda k, n: F.payload(Fix(k), 213, "d%d" % k, plugin=n) if n in every else raw
    fr = [B.version_frame(), spec.frame(231, B.vtext("All"))] + ch(0) + [spec.frame(201, B.vtext(a)), spec.frame(213, state(3, a))] + ch(1) + [spec.frame(213, state(4, a))] + ch(2)
    if b is not None:
        fr.append(spec.frame(201, B.vtext(b)))
    last = a if b is None else b
    fr.append(spec.frame(213, state(5, last)))
    evs = list(h.load(B.flp(fr)).events)
    h.prove("one event per frame", len(evs) == len(fr))
    for e, f, n in [(evs[k], fr[k], n) for k, n in ((6, a), (10, a), (len(fr) - 1, last))]:
        h.prove("state is interpreted by the most recent internal name", (type(e) is spec.event_class(F.PLUGINS[n])) if n in every else h.eq(e.value, raw), lambda: repr((type(e), n)))
        h.proveeq("the state is kept byte for byte", bytes(e), f)


# ------------------------------------------------------------------------------------------------ models
def hosted(h, where, name, data):
    """a project with the plugin in a channel or slot between others; (events, index of the state, getter)"""
    es = [B.event(201, B.vtext(name)), ev(212, 1), B.event(203, B.vtext("n"))] + ([data] if data is not None else []) + [ev(155, 3), ev(128, 4)]
    other = [B.event(201, B.vtext("Fruity Wrapper")), ev(212, 7), B.event(213, F.payload(Fix(9), 213, "o", plugin="Fruity Wrapper"), cls="VSTPluginEvent")]
    ch = lambda k, x: [B.event(64, u16(k)), B.event(21, b"\2"), B.event(145, bytes(4))] + x
    head = [B.version(), B.event(231, B.vtext("All"))]
    if where == "channel":
        evs = head + ch(0, other) + ch(1, es) + ch(2, other[:2])
        o = lambda p: list(p.channels)[1]
    else:
        evs = head + ch(0, other) + [ev(236, 1), B.event(98, u16(0))] + [B.event(e.id.value, strip(bytes(e)), cls=type(e)) for e in other] + [B.event(98, u16(1))] + es + [B.event(98, u16(2)), B.event(147, bytes(4))]
        o = lambda p: list(list(p.mixer)[0])[1]
    return B.project(evs), evs, o


def native(h, where, name):
    cls = F.PLUGINS[name]
    props = [f for f, r in spec.LAYOUTS[cls][2] if f in PUBLIC[name]]
    h.prove("every documented property has its field", set(props) == set(PUBLIC[name]), lambda: repr((props, PUBLIC[name])))
    attr = h.choice("property", props)
    marker = h.choice("marker", (True, False)) if any(r.endswith("?") for f, r in spec.LAYOUTS[cls][2]) else True
    fs = [(f, r.rstrip("?")) for f, r in spec.LAYOUTS[cls][2] if marker or not r.endswith("?")]
    j = [f for f, r in fs].index(attr)
    parts = [spec.field_bytes(h, "old." + f, r) for f, r in fs]
    e = B.event(213, join(parts), cls=spec.event_class(cls))
    p, evs, o = hosted(h, where, name, e)
    raw = [bytes(x) for x in evs]
    pl = o(p).plugin
    h.prove("the model of its plugin", type(pl).__name__ == dict(GENERATORS, **EFFECTS)[name])
    h.prove("%s reads its field" % attr, spec.reads_as(h, getattr(pl, attr), parts[j], fs[j][1]), lambda: repr((attr, getattr(pl, attr))))
    nb = spec.field_bytes(h, "new", fs[j][1])
    donor = B.event(213, join([nb if k == j else b for k, b in enumerate(parts)]), cls=spec.event_class(cls))
    v = donor[attr]
    setattr(pl, attr, v)
    parts[j] = nb
    for q, x in enumerate(evs):
        if x is e:
            raw[q] = spec.frame(213, join(parts))
    h.prove("setting %s writes its field and nothing else" % attr, h.and_(*[h.eq(bytes(x), r) for x, r in zip(evs, raw)]), lambda: attr)
    h.prove("%s reads back" % attr, spec.reads_as(h, getattr(o(p).plugin, attr), nb, fs[j][1]))


def notebook(h):
    u1, page, ed = h.bytes("u1", 4), h.u32("page"), h.int("editable", 0, 1)
    texts = [h.choice("page%d" % k, ("", "a", "two words", "x" * 130)) for k in range(h.choice("pages", (0, 1, 2)))]
    body = b"".join(k.to_bytes(4, "little") + spec.varint(len(t)) + t.encode("utf-16-le") for k, t in enumerate(texts)) + b"\xff" * 4
    e = B.event(213, join([u1, page.to_bytes(4, "little"), body, ed.to_bytes(1, "little")]), cls=spec.event_class("FruityNotebook2Event"))
    p, evs, o = hosted(h, "slot", "Fruity NoteBook 2", e)
    raw = [bytes(x) for x in evs]
    pl = o(p).plugin
    h.prove("the model of its plugin", type(pl).__name__ == "FruityNotebook2")
    h.proveeq("active page", pl.active_page, page)
    h.prove("editable", h.eq(pl.editable, h.eq(ed, 1)))
    h.proveeq("the pages in order", [x["value"] for x in list(pl.pages)[:len(texts)]], texts)
    if h.choice("property", ("active_page", "editable")) == "editable":
        ed = h.int("new editable", 0, 1)
        pl.editable = h.eq(ed, 1)
    else:
        page = h.u32("new page")
        pl.active_page = page
    for q, x in enumerate(evs):
        if x is e:
            raw[q] = spec.frame(213, join([u1, page.to_bytes(4, "little"), body, ed.to_bytes(1, "little")]))
    h.prove("setting a notebook property writes its field and nothing else", h.and_(*[h.eq(bytes(x), r) for x, r in zip(evs, raw)]))
    pl = o(p).plugin
    h.prove("and reads back", h.and_(h.eq(pl.active_page, page), h.eq(pl.editable, h.eq(ed, 1))))


PUBLIC = {"BooBass": ("bass", "mid", "high"), "Fruit Kick": ("max_freq", "min_freq", "freq_decay", "amp_decay", "click", "distortion"), "Fruity Balance": ("pan", "volume"),
          "Fruity Blood Overdrive": ("pre_band", "color", "pre_amp", "x100", "post_filter", "post_gain"), "Fruity Center": ("enabled",),
          "Fruity Fast Dist": ("pre", "threshold", "kind", "mix", "post"), "Fruity Send": ("pan", "dry", "volume", "send_to"), "Fruity Soft Clipper": ("threshold", "post"),
          "Fruity Stereo Enhancer": ("pan", "volume", "stereo_separation", "phase_offset", "effect_position", "phase_inversion"),
          "Plucked!": ("decay", "color", "normalize", "gate", "widen"), "Soundgoodizer": ("mode", "amount")}


class Section:
    def __init__(self, id, parts):
        self.id, self.parts = id, parts

    @property
    def data(self):
        d = join(self.parts)
        return join([self.id.to_bytes(4, "little"), len(d).to_bytes(8, "little"), d])


def section(h, pre, id, g):
    """a section in its parts; g gives the contents"""
    if id == 1:
        k = h.choice(pre + ".n", (3, 4, 2, 0))
        return Section(1, [spec.field_bytes(g, "%s.%s" % (pre, f), r) for f, r in MIDI[:k]] + ([g.blob(pre + ".x", 1, 100)] if k == 4 else []))
    if id == 2:
        k = h.choice(pre + ".n", (5, 6, 3, 1, 0))
        return Section(2, [spec.field_bytes(g, "%s.%s" % (pre, f), r) for f, r in FLAGSEC[:k]] + ([g.blob(pre + ".x", 1, 100)] if k == 6 else []))
    return Section(id, [F.vst_section(g, pre, id)])


def vst_event(head, secs):
    return B.event(213, join([head] + [s.data for s in secs]), cls="VSTPluginEvent")


def vst_sections(h, id, present):
    """sections around the one of interest, before and after"""
    pool = [i for i in (54, 2, 1, 50, 53, 52, 57, 999) if i != id]
    some = h.choice("around", ((), (0, 1), (4, 2, 3)) if (not h.sampling) else [tuple(range(k)) for k in range(len(pool) + 1)])
    secs = [section(FixChoice(k), "s%d" % k, pool[k], Fix(k) if (not h.sampling) else h) for k in some]
    at = None
    if present:
        at = h.choice("at", (0, len(secs)) if (not h.sampling) and secs else range(len(secs) + 1))
        secs.insert(at, section(h, "own", id, h))
    return secs, at


IDS = (1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57, 999)


def around(h, name, own=None):
    """any number of sections (none with the ID ``own``): [Sections]"""
    ids = [i for i in IDS if i != own]
    if h.sym:
        from pvc import blocks
        b, r = blocks.elements(h, name, 12)
        r.reps = lambda: [list(vst_event(b"\x0a\0\0\0", [Section(i, [data])])["events"])[0] for i in ids for data in shapes(h, "%s.%d" % (name, i), i)]
        return [Block(b)], r
    out = []
    for k in range(h.int(name + ".n", 0, 4)):
        i = ids[h.int("%s.id%d" % (name, k), 0, len(ids) - 1)]
        out.append(Section(i, [F.vst_section(Fix(k), "s", i)]))
    return out, None


class Block:
    def __init__(self, data):
        self.data = data


def shapes(h, pre, i):
    """payloads of a section of that ID, one of each shape, any contents"""
    if i == 1:
        return [h.bytes("%s.%d" % (pre, k), 4 * k) for k in range(3)] + [h.bytes(pre + ".3", 12) + h.blob(pre + ".x", 0, 100)]
    if i == 2:
        full = h.bytes(pre + ".f22", 22) + h.int(pre + ".idle", 0, 1).to_bytes(1, "little") + h.blob(pre + ".fx", 0, 100)
        return [b""] + [h.bytes("%s.%d" % (pre, k), k) for k in (9, 13, 17, 22)] + [full]
    return [F.vst_section(h, pre, i)]


def any_sections(h, id, present, every=False):
    """one section between any number of others: the one of interest, or any other one"""
    a, ra = around(h, "before", id)
    b, rb = around(h, "after", None if present else id)
    if present:
        own = section(h, "own", id, h)
    else:
        i = h.choice("other", [x for x in (IDS if every else (2, 53, 1)) if x != id][:99 if every else 2])
        own = Section(i, [F.vst_section(FixMix(h), "other", i)])
    if ra is not None:
        ra.next = len_(h, own.data)
    return a + [own] + b, len(a) if present else None


def every_section(h, id, present):
    return any_sections(h, id, False, True)


def len_(h, data):
    return h.V.total(h.V.chunks_of(data)) if not isinstance(data, bytes) else len(data)


class FixMix:
    """arbitrary contents, first alternative"""

    def __init__(self, h):
        self.h = h

    def __getattr__(self, n):
        return (lambda name, seq: list(seq)[0]) if n == "choice" else getattr(self.h, n)


class FixChoice:
    def __init__(self, k):
        self.k = k

    def choice(self, name, seq):
        return list(seq)[self.k % len(seq)]


def vst_check(h, where, path, secs, at, stored, reads, new, write):
    """stored: the option exists; reads(model value): what it must be; write(): update the expected section"""
    from pyflp.exceptions import PropertyCannotBeSet
    head = b"\x0a\0\0\0" if (not h.sampling) else h.choice("marker", (b"\x08\0\0\0", b"\x0a\0\0\0"))
    e = vst_event(head, secs)
    p, evs, o = hosted(h, where, "Fruity Wrapper", e)
    raw = [bytes(x) for x in evs]
    pl = o(p).plugin
    if h.sym:
        h.prove("the sections are read to the end", not h.c.recs_open)
    if not stored:
        x = h.raises(lambda: put(pl, path, new))
        h.prove("setting an option that is not stored is refused", isinstance(x, PropertyCannotBeSet), lambda: repr((path, x)))
        h.prove("and changes nothing", h.and_(*[h.eq(bytes(x), r) for x, r in zip(evs, raw)]))
        return
    h.prove("an option reads its own place", reads(get(pl, path)), lambda: repr((path, get(pl, path))))
    put(pl, path, new)
    want = write()
    own = join([head] + [s.data for s in secs])
    h.prove("setting an option changes that option and keeps every other section", h.and_(h.eq(strip(bytes(e)), own), *[h.eq(bytes(x), r) for x, r in zip(evs, raw) if x is not e]), lambda: path)
    h.prove("and reads back", want(get(o(p).plugin, path)), lambda: repr((path, get(o(p).plugin, path))))


def vst_option(h, where, paths, vst_sections=vst_sections):
    path = h.choice("option", paths)
    id, field = VST[path]
    secs, at = vst_sections(h, id, h.choice("present", (True, False)))
    if field is None:
        text = id not in (52, 53)
        new = h.text("new", ("utf-8",), maxlen=60, nonul=False) if text else h.blob("new", 0, 100)
        nb = new.encode("utf-8") if text else new
        if at is None:
            return vst_check(h, where, path, secs, at, False, None, new, None)
        old = secs[at].parts[0]

        def write():
            secs[at].parts[0] = nb
            return lambda v: h.eq(v, new)
        return vst_check(h, where, path, secs, at, True, (lambda v: h.eq(v.encode("utf-8"), old)) if text else (lambda v: h.eq(v, old)), new, write)
    fs = MIDI if id == 1 else FLAGSEC
    j = [f for f, r in fs].index(field)
    r = fs[j][1]
    nb = spec.field_bytes(h, "new", r)
    new = h.eq(nb[0], 1) if r == "flag" else int.from_bytes(nb, "little", signed=r[0] == "i")
    stored = at is not None and len(secs[at].parts) > j

    def write():
        secs[at].parts[j] = nb
        return lambda v: spec.reads_as(h, v, nb, r)
    vst_check(h, where, path, secs, at, stored, lambda v: spec.reads_as(h, v, secs[at].parts[j], r), new, write)


def vst_flag(h, where, paths, vst_sections=vst_sections):
    path = h.choice("option", paths)
    field, bit = FLAGS[path]
    inv = bit < 0
    mask = 1 << abs(bit)
    j = [f for f, r in FLAGSEC].index(field)
    secs, at = vst_sections(h, 2, h.choice("present", (True, False)))
    new = h.choice("new", (True, False))
    stored = at is not None and len(secs[at].parts) > j
    if not stored:
        return vst_check(h, where, path, secs, at, False, None, new, None)
    w = int.from_bytes(secs[at].parts[j], "little")

    def write():
        v = w | mask if new != inv else w & (0xFFFFFFFF ^ mask)
        secs[at].parts[j] = v.to_bytes(4, "little")
        return lambda x: h.eq(x, new)
    vst_check(h, where, path, secs, at, True, lambda x: h.eq(x, (w & mask == 0) if inv else (w & mask != 0)), new, write)


def absent(h, where):
    p, evs, o = hosted(h, where, h.choice("name", ("", "3xOsc", "Fruity Wrapper")), None)
    h.prove("no plugin state: no plugin", o(p).plugin is None)


def assign(h, where, a, b):
    """giving a channel or slot the plugin of another one"""
    models = GENERATORS if where == "channel" else EFFECTS
    data = lambda n, k: B.event(213, F.payload(Fix(k), 213, "d%d" % k, plugin=n), cls=spec.event_class(F.PLUGINS[n]))
    src = [ev(212, 40), data(b, 5)]
    from pyflp import plugin as P
    new = getattr(P, models[b])(B.tree(src))
    p, evs, o = hosted(h, where, a, data(a, 2))
    raw = [bytes(x) for x in evs]
    own = [e for e in o(p).events]
    at = {e.id.value: n for n, e in enumerate(evs) if any(e is x for x in own)}
    o(p).plugin = new
    raw[at[213]] = bytes(src[1])
    raw[at[212]] = bytes(src[0])
    raw[at[201]] = spec.frame(201, B.vtext(b))
    h.prove("assigning a plugin replaces its name, window state and plugin state and nothing else", [bytes(e) for e in p.events] == raw, lambda: repr((a, b)))
    h.prove("and it is what is shown", type(o(p).plugin).__name__ == models[b] and o(p).internal_name == b)


def units(tier):
    us = [Unit("typing-%s" % w, typing, {"where": w}, FN, audit=100, note="every known plugin name, unknown names and none; state contents of unknown plugins arbitrary") for w in ("channel", "slot")]
    us.append(Unit("typing-again", again, {}, FN, audit=60, note="three states, every known plugin name and unknown ones"))
    for w, models in (("channel", GENERATORS), ("slot", EFFECTS)):
        for n in models:
            if n in PUBLIC:
                us.append(Unit("%s-%s" % (w, n.replace(" ", "-").lower()), native, {"where": w, "name": n}, FN, audit=20))
        us.append(Unit("%s-none" % w, absent, {"where": w}, FN, audit=5))
        names = list(models)
        us += [Unit("assign-%s-%d" % (w, k), assign, {"where": w, "a": names[k], "b": names[(k + 1) % len(names)]}, FN, audit=3) for k in range(len(names))]
    us.append(Unit("slot-notebook", notebook, {}, FN, level="bounded", note="at most 2 pages", audit=30))
    N = "up to 4 sections in the proof, 9 when sampling; all contents of the section concerned"
    opts, flags = list(VST), list(FLAGS)
    for k in range(0, len(opts), 2):
        us.append(Unit("vst-option-%d" % k, vst_option, {"where": "slot" if k % 4 else "channel", "paths": opts[k:k + 2]}, FN, audit=30, note=N, max_s=100))
    A = "any number of sections before and after the one concerned (or none there)"
    us += [Unit("vst-any-other-%d" % i, vst_option, {"where": "slot", "paths": [o], "vst_sections": every_section}, FN, audit=20, note=A, max_s=100) for i, o in ((55, "plugin_path"), (1, "midi.input"))]
    for k in range(0, len(opts), 2):
        us.append(Unit("vst-any-option-%d" % k, vst_option, {"where": "channel" if k % 4 else "slot", "paths": opts[k:k + 2], "vst_sections": any_sections}, FN, audit=20, note=A, max_s=100))
    for k in range(0, len(flags), 6):
        us.append(Unit("vst-any-flag-%d" % k, vst_flag, {"where": "channel" if k % 2 else "slot", "paths": flags[k:k + 1], "vst_sections": any_sections}, FN, audit=20, note=A, max_s=100))
    for k in range(0, len(flags), 3):
        us.append(Unit("vst-flag-%d" % k, vst_flag, {"where": "slot" if k % 2 else "channel", "paths": flags[k:k + 3]}, FN, audit=30, note=N, max_s=100))
    return us
