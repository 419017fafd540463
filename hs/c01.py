"""C01: loading and saving an unmodified file reproduces it byte for byte."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec

IDS = [i for i in range(256) if i not in (199, 201, 226, 227)]
FN = ["parse", "save", "EventEnum.__new__", "EventBase.__init__", "EventBase.__bytes__", "EventTree.__init__", "EventTree.__iter__", "Project.__init__"]
FORMATS = (-1, 0, 0x10, 24, 0x20, 0x30, 0x31, 0x32, 0x40, 0x50)
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
# one ID of every payload kind
REP = (0, 1, 11, 65, 80, 131, 140, 142, 160, 194, 204, 231, 213, 210, 209, 215, 217, 223, 225, 233, 234, 235, 238, 255)


def start(side, name=None):
    v, enc = F.VERSIONS[side]
    s = B.version_frame(v)
    if name is not None:
        s = s + spec.frame(201, B.vtext(name, enc))
    return s, enc


def step(h, side, ids, name=None):
    """any number of frames, one frame of any content, any number of frames"""
    s, enc = start(side, name)
    i = h.choice("id", ids)
    f = F.frame(h, i, "F", enc, name)
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", enc)
    data, p = F.inductive_load(h, s, pre, f, post, F.flp)
    h.proveeq("saving reproduces the file", h.save(p), data)


def version_step(h, side, to):
    """a further version frame: the state it leaves is that of a file starting with it"""
    s, enc = start(side, "BooBass")
    w = {"new": "20.8.4.9999", "old": "9.1.0.99999"}[to]
    f = B.version_frame(w)
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", F.VERSIONS[to][1])
    st = []
    data, p = F.inductive_load(h, s, pre, f, post, F.flp, carried=True, state=st)
    h.proveeq("saving reproduces the file", h.save(p), data)
    if h.sym:
        F.inductive_load(h, f + spec.frame(201, B.vtext("BooBass", F.VERSIONS[to][1])), pre, f, post, F.flp, carried=True, state=st)
        F.same_state(h, st[0][1], st[1][0])


def name_step(h, side, first):
    """an internal name frame: the state it leaves is that of a file starting with it"""
    s, enc = start(side, first)
    t = h.text("name", (enc,), maxlen=200)
    f = spec.frame(201, B.vtext(t, enc))
    pre, post = F.many(h, "PRE", enc), F.many(h, "POST", enc)
    st = []
    data, p = F.inductive_load(h, s, pre, f, post, F.flp, carried=True, state=st)
    h.proveeq("saving reproduces the file", h.save(p), data)
    if h.sym:
        F.inductive_load(h, start(side)[0] + f, pre, f, post, F.flp, carried=True, state=st)
        F.same_state(h, st[0][1], st[1][0])


def single(h, side, ids):
    v, enc = F.VERSIONS[side]
    i = h.choice("id", ids)
    data = F.flp(B.version_frame(v) + F.frame(h, i, "F", enc, lite=True))
    h.proveeq("saving reproduces the file", h.save(h.load(data)), data)


def pair(h, side, first):
    v, enc = F.VERSIONS[side]
    j = h.choice("second", REP)
    data = F.flp(B.version_frame(v) + F.frame(h, first, "A", enc, lite=True) + F.frame(h, j, "B", enc, lite=True))
    h.proveeq("saving reproduces the file", h.save(h.load(data)), data)


def header(h):
    fmt, cc, ppq = h.choice("format", FORMATS), h.u16("channels"), h.choice("ppq", PPQS)
    body = B.version_frame() + F.frame(h, 210, "F")
    h.assume(len(body) < 1 << 32)
    data = F.flp(body, fmt, cc, ppq)
    h.proveeq("saving reproduces the file", h.save(h.load(data)), data)


def preset(h, name):
    """plugin presets"""
    fmt = 0x32 if name == "Fruity Wrapper" else 0x30
    v, enc = F.VERSIONS["new"]
    nf = spec.frame(201, B.vtext(name, enc))
    body = B.version_frame(v) + nf + F.frame(h, 212, "W", enc, lite=True) + F.frame(h, 213, "P", enc, name) + F.frame(h, 203, "N", enc, lite=True)
    data = F.flp(body, fmt)
    h.proveeq("saving reproduces the file", h.save(h.load(data)), data)


def records_any(h, cls, new):
    """any number of records in one list payload"""
    from hs.c11 import done, join, surrounded
    fs, pre, n, rec, post, m = surrounded(h, cls, new)
    payload = pre + join(rec) + post
    h.assume(len(payload) < 1 << 28)
    body = B.version_frame() + spec.frame(spec.LIST_LAYOUTS[cls][0], payload) + F.frame(h, 10, "A", lite=True)
    data = F.flp(body)
    p = h.load(data)
    done(h)
    h.proveeq("saving reproduces the file", h.save(p), data)


def sections_any(h, id):
    """any number of sections in one VST plugin state"""
    from hs.c11 import done, join
    from hs.c27 import any_sections
    secs, at = any_sections(h, id, True)
    payload = join([b"\x0a\0\0\0"] + [s.data for s in secs])
    h.assume(len(payload) < 1 << 28)
    body = B.version_frame() + spec.frame(201, B.vtext("Fruity Wrapper")) + spec.frame(213, payload) + F.frame(h, 10, "A", lite=True)
    data = F.flp(body)
    p = h.load(data)
    done(h)
    h.proveeq("saving reproduces the file", h.save(p), data)


def files(h):
    """long random files (run-time check only)"""
    side = h.choice("side", ("new", "old"))
    v, enc = F.VERSIONS[side]
    n = h.int("frames", 0, 60)
    body = B.version_frame(v)
    name = None
    for k in range(n):
        i = h.choice("id%d" % k, [j for j in range(256) if j not in (199, 226, 227)])
        if h.int("plug%d" % k, 0, 9) == 9:
            i = 201
        elif h.int("data%d" % k, 0, 9) == 9:
            i = 213
        if i == 201:
            name = h.choice("name%d" % k, sorted(F.PLUGINS) + ["", "Unknown"])
            body += spec.frame(201, B.vtext(name, enc))
        else:
            body += F.frame(h, i, "F%d" % k, enc, name)
    data = F.flp(body, h.choice("format", FORMATS), h.u16("channels"), h.choice("ppq", PPQS))
    h.proveeq("saving reproduces the file", h.save(h.load(data)), data)


def units(tier):
    us = []
    for side in ("new", "old"):
        for k in range(0, len(IDS), 16):
            us.append(Unit("step-%s-%d" % (side, IDS[k]), step, {"side": side, "ids": IDS[k:k + 16]}, FN, max_s=120, audit=20))
        for k in range(0, len(IDS), 32):
            us.append(Unit("single-%s-%d" % (side, IDS[k]), single, {"side": side, "ids": IDS[k:k + 32]}, FN, "bounded", note="one frame of every ID", max_s=120, audit=20))
        for to in ("new", "old"):
            us.append(Unit("version-%s-%s" % (side, to), version_step, {"side": side, "to": to}, FN))
        for k, first in enumerate((None, "BooBass", "nothing known")):
            us.append(Unit("name-%s-%d" % (side, k), name_step, {"side": side, "first": first}, FN))
    for i in REP:
        us.append(Unit("pair-%d" % i, pair, {"side": "new", "first": i}, FN, "bounded", note="two frames, all pairs of payload kinds", max_s=120, audit=10))
    for n in list(F.PLUGINS) + ["Sytrus"]:
        us.append(Unit("step-plugin-%s" % n, step, {"side": "new", "ids": [213], "name": n}, FN + [F.PLUGINS.get(n, "UnknownDataEvent")], max_s=120, audit=20))
        us.append(Unit("preset-%s" % n, preset, {"name": n}, FN, "bounded", note="name, wrapper, state, display name", max_s=120, audit=20))
    for n in spec.LIST_LAYOUTS:
        for new in ((False, True) if n == "PlaylistEvent" else (False,)):
            us.append(Unit("records-%s%s" % (n, "-new" if new else ""), records_any, {"cls": n, "new": new}, FN + ["ListEventBase.__init__"], note="any number of records", max_s=100, audit=10))
    for i in (1, 2, 54, 53, 999):
        us.append(Unit("sections-%d" % i, sections_any, {"id": i}, FN + ["VSTPluginEvent.STRUCT"], note="any number of sections", max_s=100, audit=10))
    us.append(Unit("header", header, {}, FN))
    us.append(Unit("files", files, {}, FN, "bounded", note="run-time check of files with up to 60 frames", sym=False, audit=300))
    us.append(Unit("lengths", F.lengths, {}, FN, "bounded", note="run-time check of payloads of up to 2 MiB", sym=False, audit=40))
    return us
