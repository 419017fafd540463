"""Canonically encoded event frames of every ID, and files made of any number of them."""
from hs import build as B, spec
from hs.c09 import join, present_fields
from hs.c11 import many_records, rec_fields, records

VERSIONS = {"new": ("20.8.4.2576", "utf-16-le"), "old": ("9.1.0", "ascii")}

# internal plugin name -> layout of its state (ID 213)
PLUGINS = {"BooBass": "BooBassEvent", "Fruit Kick": "FruitKickEvent", "Fruity Balance": "FruityBalanceEvent",
           "Fruity Blood Overdrive": "FruityBloodOverdriveEvent", "Fruity Center": "FruityCenterEvent",
           "Fruity Fast Dist": "FruityFastDistEvent", "Fruity NoteBook 2": "FruityNotebook2Event", "Fruity Send": "FruitySendEvent",
           "Fruity Soft Clipper": "FruitySoftClipperEvent", "Fruity Stereo Enhancer": "FruityStereoEnhancerEvent",
           "Plucked!": "PluckedEvent", "Soundgoodizer": "SoundgoodizerEvent", "Fruity Wrapper": "VSTPluginEvent"}


def struct_payload(h, cls, pre, cuts=None):
    id, mode, fields = spec.LAYOUTS[cls]
    if cuts and any(r == "tail" for _, r in fields):      # lite: no open tail
        fields = [f for f in fields if f[1] != "tail"]
        cuts = (len(fields),)
    if any(r.endswith("?") for _, r in fields):
        fields = present_fields(cls, h.choice(pre + ".variant", ("long", "short")))
    elif mode == spec.OPT:
        fields = fields[:h.choice(pre + ".fields", cuts or (len(fields), len(fields) // 2, 0))]
    light = None
    if any(r in ("log2", "lognorm", "height", "bbt") for _, r in fields):
        light = 0 if cuts else h.choice(pre + ".light", (0, 1))
    return join([spec.field_bytes(h, "%s.%s" % (pre, n), r, light) for n, r in fields])


def f64(h, name):
    return spec.field_bytes(h, name, "f64")


def automation_payload(h, pre, n=None, tail=1 << 20):
    n = h.choice(pre + ".points", (0, 1, 2)) if n is None else n
    d = h.bytes(pre + ".head", 17) + n.to_bytes(4, "little")
    for k in range(n):
        d = d + f64(h, "%s.off%d" % (pre, k)) + f64(h, "%s.val%d" % (pre, k)) + spec.field_bytes(h, "%s.ten%d" % (pre, k), "f32") + h.bytes("%s.u%d" % (pre, k), 4)
    return d + h.blob(pre + ".tail", 0, tail)


VST_TEXT = (51, 54, 55, 56)


def vst_section(h, pre, i):
    """payload of one section of the plugin state"""
    if i == 1:
        k = h.choice(pre + ".midi", (3, 2, 0))
        return h.bytes(pre + ".m", 4 * k) + (h.blob(pre + ".mx", 0, 100) if k == 3 else b"")
    if i == 2:
        k = h.choice(pre + ".flags", (5, 3, 0))
        d = b""
        if k >= 1:
            d = d + h.bytes(pre + ".f9", 9)
        if k >= 3:
            d = d + h.bytes(pre + ".ff", 8)
        if k == 5:
            d = d + h.bytes(pre + ".f5", 5) + h.int(pre + ".idle", 0, 1).to_bytes(1, "little") + h.blob(pre + ".fx", 0, 100)
        return d
    if i in VST_TEXT:
        return h.text(pre + ".t", ("utf-8",), maxlen=60, nonul=False).encode("utf-8")
    return h.blob(pre + ".d", 0, 100)


def vst_payload(h, pre, ids=None):
    ids = h.choice(pre + ".sections", ((1, 2), (54, 53), (53,), (50, 2), ())) if ids is None else ids
    d = h.choice(pre + ".marker", (8, 10)).to_bytes(4, "little")
    for k, i in enumerate(ids):
        s = vst_section(h, "%s.%d" % (pre, k), i)
        d = d + i.to_bytes(4, "little") + len(s).to_bytes(8, "little") + s
    return d


def notebook_payload(h, pre):
    n = h.choice(pre + ".pages", (0, 1, 2))
    d = h.bytes(pre + ".head", 8)
    for k in range(n):
        b = h.choice("%s.page%d" % (pre, k), ("", "a", "two words", "x" * 130)).encode("utf-16-le")
        d = d + h.int("%s.idx%d" % (pre, k), 0, 1000).to_bytes(4, "little") + spec.varint(len(b) // 2) + b
    return d + b"\xff\xff\xff\xff" + h.int(pre + ".editable", 0, 1).to_bytes(1, "little")


def payload(h, i, pre, enc="utf-16-le", plugin=None, lite=False):
    """any canonical payload of ID i (text encoding and plugin name in force as given)"""
    k = spec.kind(i)
    if i == 213 and plugin:
        k = PLUGINS.get(plugin, "data")
    if k == "bool":
        return h.int(pre + ".b", 0, 1).to_bytes(1, "little")
    if k == "f32":
        return spec.field_bytes(h, pre + ".f", "f32")
    if k in spec.FIXED:
        return h.bytes(pre + ".v", spec.FIXED[k][1])
    if k == "ascii":
        return B.vtext(h.choice(pre + ".version", ("20.8.4.2576", "9.1.0", "11.5.0", "11.4.9")), "ascii")
    if k == "text":
        return B.vtext(h.text(pre + ".t", (enc,), maxlen=30 if lite else 1 << 20), enc)
    if k == "data":
        return h.blob(pre + ".d", 0, 120 if lite else 1 << 27)
    if k in spec.LAYOUTS:
        return struct_payload(h, k, pre, None if not lite else (len(spec.LAYOUTS[k][2]),))
    if k in spec.LIST_LAYOUTS:
        if lite:
            return records(Pre(h, pre + ".0"), k, 1, False)[2]
        if h.choice(pre + ".empty", (False, True)):
            return b""
        new = k == "PlaylistEvent" and h.choice(pre + ".new", (False, True))
        fs = rec_fields(k, new)
        a, n = many_records(h, pre + ".pre", fs)
        b, m = many_records(h, pre + ".post", fs)
        if k == "PlaylistEvent" and not new:
            h.assume((32 * (n + 1 + m)) % 60 != 0)
        return a + records(Pre(h, pre + ".0"), k, 1, new)[2] + b
    if k == "InsertRoutingEvent":
        if lite:
            return join([spec.field_bytes(h, "%s.r%d" % (pre, q), "flag") for q in range(2)])
        if h.choice(pre + ".empty", (False, True)):
            return b""
        a, n = many_records(h, pre + ".pre", [("", "flag")])
        return a + spec.field_bytes(h, pre + ".r", "flag") + many_records(h, pre + ".post", [("", "flag")])[0]
    if k == "AutomationEvent":
        return automation_payload(h, pre, 1 if lite else None, 30 if lite else 1 << 20)
    if k == "VSTPluginEvent":
        return vst_payload(h, pre)
    if k == "FruityNotebook2Event":
        return notebook_payload(h, pre)
    raise ValueError(k)


class Pre:
    """input names with a prefix"""

    def __init__(self, h, pre):
        self.h, self.pre = h, pre

    def __getattr__(self, n):
        f = getattr(self.h, n)
        if n in ("int", "u8", "u16", "u32", "bytes", "blob", "text", "choice", "bool"):
            return lambda name, *a, **k: f("%s.%s" % (self.pre, name), *a, **k)
        return f


def frame(h, i, pre, enc="utf-16-le", plugin=None, lite=False):
    return spec.frame(i, payload(h, i, pre, enc, plugin, lite))


def many(h, name, enc="utf-16-le"):
    """any number of frames (none of which is a version, internal name or plugin state)"""
    if h.sym:
        n = h.z3.Int("len:" + name)
        h.c.add(n >= 1)
        h.c.add(n <= 1 << 30)
        b = h.V.mkbytes([h.V.Opq(name, 0, n)])
        k = h.z3.Int("frames:" + name)
        h.c.add(k >= 1)
        h.c.add(2 * k <= n)
        h._in(name + ".frames", lambda m, t: m.eval(t, model_completion=True).as_long(), k)
        h.c.blocks[id(b)] = (b, k)
        return b
    if h.mode == "RANDOM":
        out = b""
        for k in range(h.r.choice((0, 1, 2, 5))):
            i = h.r.choice([j for j in range(256) if j not in (199, 201, 213, 226, 227)])
            out += frame(h, i, "%s.%d" % (name, k), enc)
        return h._note(name, out)
    if name not in h.inputs and h.inputs.get(name + ".frames", 0) > 60:      # a refuted proof that needs many frames
        h.used[name + ".frames"] = h.inputs[name + ".frames"]
        return b"\x01\x05" * min(h.inputs[name + ".frames"], 1 << 19)
    return h._get(name, b"")


class Events:
    """stands for the events of a ``many`` block"""

    def __init__(self, b, n=None):
        object.__setattr__(self, "b", b)
        object.__setattr__(self, "n", n)

    def __bytes__(self):
        return self.b

    @property
    def size(self):
        return self.b.length()

    def _pv_count_(self):
        from pvc.engine import Unsupported
        from pvc import values as V
        if self.n is None:
            raise Unsupported("number of events of an abstract block")
        return V.wrapint(self.n)

    def __getattr__(self, n):
        from pvc.engine import Unsupported
        raise Unsupported("event of an abstract block: " + n)


class Poison:
    """value left over from an abstract iteration"""

    def _no(self, *a, **k):
        from pvc.engine import Unsupported
        raise Unsupported("a value of an earlier iteration is used")
    __getattr__ = __bool__ = __eq__ = __ne__ = __lt__ = __len__ = __iter__ = __add__ = __call__ = __index__ = _no
    __hash__ = None


class Induction:
    """Loop rule for the frame loop.

    The file is  <start> PRE F POST  where PRE and POST stand for any number of frames.  At the loop head in front of PRE
    the rule jumps behind it (the induction hypothesis: one event per frame, nothing else remembered), lets the real loop
    body consume F, proves that F became exactly one event and that the body left the loop-carried variables as they were,
    and jumps over POST in the same way.
    """

    def __init__(self, h, start, pre, f, post, carried=None):
        self.h, self.carried_by_F = h, carried
        self.after = None
        self.at = [spec_len(h, start), spec_len(h, start) + spec_len(h, pre), spec_len(h, start) + spec_len(h, pre) + spec_len(h, f)]
        self.pre, self.post = pre, post
        self.state = 0
        self.site = None
        self.first = None

    def unsupported(self, why):
        from pvc.engine import Unsupported
        raise Unsupported("frame loop: " + why)

    def __call__(self, site, get, set_):
        h, V = self.h, self.h.V
        d = get()
        st = [v for v in d.values() if isinstance(v, V.SymStream)]
        if not st or self.site not in (None, site):
            return True
        if len(set(map(id, st))) != 1:
            self.unsupported("several streams")
        s = st[0]
        if self.site is None:
            self.site = site
            self.first = dict(d)
        lists = [(k, v) for k, v in d.items() if type(v) is list and k in self.first]
        if len(lists) != 1:
            self.unsupported("event list not identified")
        k, lst = lists[0]
        c = h.c
        if self.state == 0 and c.must(V.cond(V.wrapint(s.pos) == self.at[0])):
            lst.append(Events(self.pre, c.blocks[id(self.pre)][1]))
            s.pos = V._simp(self.at[1])
            self.before = self._carried(d, k, s)
            self.n = len(lst)
            set_({x: Poison() for x in d if x not in self.first})
            self.state = 1
        elif self.state == 1:
            h.prove("one frame is consumed per step, exactly", V.wrapint(s.pos) == self.at[2])
            h.prove("one event per frame", len(lst) == self.n + 1)
            now = self.after = self._carried(d, k, s)
            if set(now) != set(self.before):
                self.unsupported("loop-carried variables differ")
            for x in now:
                if self.carried_by_F:
                    continue
                a, b = self.before[x], now[x]
                if a is b:
                    continue
                r = h.eq(a, b)
                if not (r is True or (r is not False and c.must(V.cond(r)))):
                    self.unsupported("loop-carried variable %s changed" % x)
            lst.append(Events(self.post, c.blocks[id(self.post)][1]))
            s.pos = V._simp(self.at[2] + V.wrapint(V.total(V.chunks_of(self.post))))
            self.state = 2
        return True

    def _carried(self, d, k, s):
        return {x: v for x, v in d.items() if x in self.first and x != k and v is not s}


def spec_len(h, b):
    return h.V.wrapint(h.V.total(h.V.chunks_of(b)))


def remembered(d):
    """loop-carried variables other than positions, sizes and containers"""
    return {k: v for k, v in d.items() if not (isinstance(v, int) and not isinstance(v, bool)) and
            (v is None or isinstance(v, (str, bool, type, tuple, frozenset)))}


def same_state(h, a, b):
    from pvc.engine import Unsupported
    a, b = remembered(a), remembered(b)
    for x in set(a) | set(b):
        if x not in a or x not in b:
            raise Unsupported("frame loop: remembered variable %s" % x)
        r = a[x] is b[x] or h.eq(a[x], b[x])
        if not (r is True or (r is not False and h.c.must(h.V.cond(r)))):
            raise Unsupported("frame loop: state after the frame depends on earlier frames (%s)" % x)


def inductive_load(h, start, pre, f, post, hdr, carried=None, name="in.flp", state=None):
    """loads  hdr start PRE f POST"""
    body = start + pre + f + post
    h.assume(len(body) < 1 << 32)
    data = hdr(body)
    if h.sym:
        rule = Induction(h, data[:22] + start, pre, f, post, carried)
        h.c.while_policy = rule
        try:
            p = h.load(data, name)
        finally:
            h.c.while_policy = None
        if rule.state == 1:
            h.prove("the frames are read to the end of the file", False, lambda: "the frame loop ended early")
        if rule.state != 2:
            rule.unsupported("not found")
        h.prove("the frames are read to the end of the file", True)
        if state is not None:
            state.append((rule.before, rule.after))
        return data, p
    return data, h.load(data, name)


def flp(body, fmt=0, channel_count=1, ppq=96):
    return B.flp([body], fmt, channel_count, ppq)


def lengths(h):
    """payload lengths around the steps of the length prefix, and a little more (run-time check only)"""
    from hs import build as B
    steps = (0, 1, 127, 128, 255, 256, 300, 16383, 16384, 65535, 65536, (1 << 21) - 1, 1 << 21, (1 << 21) + 5)
    fill = lambda n, b: (bytes(range(256)) * (n // 256 + 1))[:n - n % 2] + b"\1" * (n % 2) if not b else "x" * n
    i = h.choice("id", (210, 195))
    n, m = h.choice("length", steps), h.choice("new length", steps)
    head, tail = spec.frame(199, b"20.8.4.2576\0") + spec.frame(65, b"\1\0"), spec.frame(2, b"\7")
    enc = (lambda v: v) if i == 210 else (lambda v: (v + "\0").encode("utf-16-le"))
    data = fill(n, i == 195)
    p = h.load(flp(head + spec.frame(i, enc(data)) + tail))
    evs = B.events(p)
    h.prove("one event per frame", [int(e.id) for e in evs] == [199, 65, i, 2])
    h.prove("its content", evs[2].value == data)
    h.prove("size of an event is its number of bytes", evs[2].size == len(bytes(evs[2])) == len(spec.frame(i, enc(data))))
    h.prove("saved unchanged", h.save(p) == flp(head + spec.frame(i, enc(data)) + tail))
    new = fill(m, i == 195)
    evs[2].value = new
    h.prove("size of an event is its number of bytes", evs[2].size == len(bytes(evs[2])) == len(spec.frame(i, enc(new))))
    out = h.save(p)
    h.prove("saved with the new content", out == flp(head + spec.frame(i, enc(new)) + tail))
    h.prove("loads back equal", B.events(h.load(out, "again.flp"))[2].value == new)
