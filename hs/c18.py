"""C18: version, timebase, channel count, paths."""
import pathlib
from pvc.harness import Unit
from hs import build as B
from hs.c17 import version_event

PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)


def dotted(h, ns):
    if h.sym:
        from pvc.values import SymStr, IntStr
        return SymStr.mk([x for p in ns for x in (".", str(p) if type(p) is int else IntStr(p))][1:])
    return ".".join(map(str, ns))


def read_version(h, n):
    v, ev = version_event(h, n)
    p = B.project([B.event(10, b"\0"), ev])
    got = p.version
    want = v + [0] * (3 - n) if n < 3 else v
    h.prove("the stored numbers", h.and_(got.major == want[0], got.minor == want[1], got.patch == want[2]))
    if n == 4:
        h.prove("the build number", got.build == v[3])
    else:
        h.prove("no build number", got.build is None)


def set_version(h, n, how, build):
    from pyflp.types import FLVersion
    old, ev = version_event(h, h.choice("old count", (3, 4)))
    es = [B.event(10, h.int("info", 0, 1).to_bytes(1, "little")), ev, B.event(80, h.bytes("pitch", 2))]
    if build:
        es.append(B.event(159, h.bytes("flbuild", 4)))
    p = B.project(es)
    before = B.raw(p)
    ns = [h.int("new%d" % i, 0, (255, 99, 99, 9999, 7)[i]) for i in range(n)]
    value = dotted(h, ns) if how == "str" else FLVersion(*ns) if how == "version" else tuple(ns) if how == "tuple" else list(ns)
    err = h.raises(lambda: setattr(p, "version", value))
    after = B.raw(p)
    if how == "version" and n < 3:
        ns = (ns + [0, 0, 0])[:3]
    if len(ns) not in (3, 4):
        h.prove("a wrong count is refused", isinstance(err, ValueError), lambda: repr(err))
        h.proveeq("a refused version changes nothing", after, before)
        return
    h.prove("accepted", err is None, lambda: repr(err))
    h.proveeq("stores precisely those numbers", p.events.first(ev.id).value, dotted(h, ns))
    got = p.version
    h.prove("reads back", h.and_(got.major == ns[0], got.minor == ns[1], got.patch == ns[2], got.build is None if len(ns) == 3 else got.build == ns[3]))
    changed = {1}
    if build:
        if len(ns) == 4:
            changed.add(3)
            h.proveeq("build number event", after[3], bytes([159]) + ns[3].to_bytes(4, "little"))
    B.same_but(h, "version", before, after, changed)


MALFORMED = ("", ".", "20", "20.8", "20.8.", "20..8", ".20.8.4", "20.8.4.", "20.8.4.2576.", "20.8.x", "20.8.4b", "a.b.c", "20.8.4.2576.1", "20,8,4", "20.8.4..2576", "1.2.3.4.5.6", "...")


def malformed(h, build):
    """texts that are not three or four dotted numbers"""
    old, ev = version_event(h, h.choice("old count", (3, 4)))
    es = [B.event(10, h.int("info", 0, 1).to_bytes(1, "little")), ev, B.event(80, h.bytes("pitch", 2))]
    if build:
        es.append(B.event(159, h.bytes("flbuild", 4)))
    p = B.project(es)
    before = B.raw(p)
    err = h.raises(lambda: setattr(p, "version", h.choice("text", MALFORMED)))
    h.prove("refused", isinstance(err, ValueError), lambda: repr(err))
    h.proveeq("a refused version changes nothing", B.raw(p), before)


def no_version(h):
    from pyflp.exceptions import PropertyCannotBeSet
    p = B.project([B.event(10, b"\0"), B.event(159, h.bytes("flbuild", 4))])
    before = B.raw(p)
    err = h.raises(lambda: setattr(p, "version", (1, 2, 3, 4)))
    h.prove("refused without a version event", isinstance(err, PropertyCannotBeSet))
    h.proveeq("unchanged", B.raw(p), before)


def ppq(h):
    p = B.project([B.version(), B.event(80, h.bytes("pitch", 2))], channel_count=h.u16("channels"), ppq=96)
    v = h.anyint("value")
    before = h.save(p)
    ok = h.or_(*[v == q for q in PPQS])
    err = h.raises(lambda: setattr(p, "ppq", v))
    if err is not None:
        h.prove("only an unsupported timebase is refused", h.not_(ok), lambda: repr(err))
        h.prove("ValueError", isinstance(err, ValueError))
        h.prove("keeps the old value", p.ppq == 96)
        h.proveeq("saves as before", h.save(p), before)
        return
    h.prove("an unsupported timebase is refused", ok)
    h.prove("reads back", p.ppq == v)
    after = h.save(p)
    h.proveeq("is what is saved", after[12:14], v.to_bytes(2, "little"))
    h.proveeq("nothing else changes", after[:12] + after[14:], before[:12] + before[14:])


def channel_count(h):
    n0 = h.u16("old")
    p = B.project([B.version(), B.event(64, h.bytes("channel", 2))], channel_count=n0, ppq=h.choice("ppq", (96, 960)))
    v = h.anyint("value")
    before = h.save(p)
    err = h.raises(lambda: setattr(p, "channel_count", v))
    if err is not None:
        h.prove("only a negative count is refused", v < 0, lambda: repr(err))
        h.prove("ValueError", isinstance(err, ValueError))
        h.prove("keeps the old value", p.channel_count == n0)
        h.proveeq("saves as before", h.save(p), before)
        return
    h.prove("a negative count is refused", v >= 0)
    h.prove("reads back", p.channel_count == v)
    h.assume(v < 65536)
    after = h.save(p)
    h.proveeq("is what is saved", after[10:12], v.to_bytes(2, "little"))
    h.proveeq("nothing else changes", after[:10] + after[12:], before[:10] + before[12:])


def data_path_text(h):
    """any text"""
    t = h.text("path", ("utf-16-le",))
    old = h.text("old", ("utf-16-le",))
    p = B.project([B.version(), B.event(202, B.vtext(old)), B.event(80, h.bytes("pitch", 2))])
    before = B.raw(p)
    p.data_path = t
    after = B.raw(p)
    h.proveeq("stored as text", p.events.first(list(p.events)[1].id).value, h.ite(t == ".", "", t) if not h.sym else ("" if t == "." else t))
    B.same_but(h, "data path", before, after, 1)


PATHS = ["", "a", "a.wav", "/abs/dir", "C:\\Users\\x", "%FLStudioFactoryData%\\Data", "dir/sub dir/f.x", "..", "../up", "/", "\u00e9\u4e2d/\U0001f600.wav",
         "a b", ".hidden", "dir.with.dots/x", "~", "a/./b", "x" * 300,
         "\\\\server\\share\\kick.wav", "C:\\\\twice", "C:/x/y", "a\\b/c\\d", " leading", "trailing ", "trailing.", "a/ b /c", "%USERPROFILE%\\a", "$HOME/a", "UPPER/lower",
         "tab\there", "*?<>|", "a..b", "...", "./a", "a/../b", "#%20", "\u0130\u00df/\u0301e", "'quoted'", '"q"', "\ufeffbom"]
PARTS = ("a", "B", ".", "..", " ", "/", "\\", "%", "~", "$", ":", "\u00e9", "\u4e2d", "\U0001f600", ".wav", "x y", "-", "_", "0")


def path_text(h):
    if h.sampling and h.bool("composed"):
        return "".join(h.choice("part%d" % k, PARTS) for k in range(h.int("parts", 0, 9)))
    return h.choice("path", PATHS + ["."])


def data_path(h, kind):
    s = path_text(h)
    has = h.choice("event present", (True, False))
    from pyflp.exceptions import PropertyCannotBeSet
    es = [B.version(), B.event(80, h.bytes("pitch", 2))] + ([B.event(202, B.vtext("old"))] if has else [])
    p = B.project(es)
    before = B.raw(p)
    value = pathlib.Path(s) if kind == "Path" else s
    err = h.raises(lambda: setattr(p, "data_path", value))
    if not has:
        h.prove("refused without the event", isinstance(err, PropertyCannotBeSet))
        h.prove("reads as nothing", p.data_path is None)
        h.proveeq("unchanged", B.raw(p), before)
        return
    h.prove("accepted", err is None, lambda: repr(err))
    h.prove("reads back as the same path", p.data_path == pathlib.Path(s), lambda: repr(p.data_path))
    h.proveeq("stored as text", B.raw(p)[2], B.raw(B.tree([B.event(202, B.vtext("" if str(value) == "." else str(value)))]))[0])
    B.same_but(h, "data path", before, B.raw(p), 2)


def sample_path(h):
    from pyflp.channel import Sampler
    from pyflp.exceptions import PropertyCannotBeSet
    s = path_text(h)
    has = h.choice("event present", (True, False))
    es = [B.event(64, b"\0\0"), B.event(0, b"\1")] + ([B.event(196, B.vtext("old"))] if has else [])
    t = B.tree(es)
    ch = Sampler(t)
    before = B.raw(t)
    err = h.raises(lambda: setattr(ch, "sample_path", pathlib.Path(s)))
    if not has:
        h.prove("refused without the event", isinstance(err, PropertyCannotBeSet))
        h.proveeq("unchanged", B.raw(t), before)
        return
    h.prove("accepted", err is None, lambda: repr(err))
    h.prove("reads back as the same path", ch.sample_path == pathlib.Path(s), lambda: repr(ch.sample_path))
    x = str(pathlib.Path(s))
    h.proveeq("stored as text", B.raw(t)[2], B.raw(B.tree([B.event(196, B.vtext("" if x == "." else x))]))[0])
    B.same_but(h, "sample path", before, B.raw(t), 2)


def units(tier):
    us = []
    F = ["Project.version", "FLVersion"]
    for n in (1, 2, 3, 4):
        us.append(Unit("read-version-%d" % n, read_version, {"n": n}, F))
    for how in ("str", "tuple", "list", "version"):
        for n in (1, 2, 3, 4, 5):
            if how == "version" and n == 5:
                continue
            for b in (False, True):
                us.append(Unit("set-version-%s-%d%s" % (how, n, "-build" if b else ""), set_version, {"n": n, "how": how, "build": b}, F + ["Project.version.setter"]))
    for b in (False, True):
        us.append(Unit("malformed-version%s" % ("-build" if b else ""), malformed, {"build": b}, F + ["Project.version.setter"], "bounded", note="%d texts" % len(MALFORMED), audit=20))
    us.append(Unit("no-version", no_version, {}, ["Project.version.setter"]))
    us.append(Unit("ppq", ppq, {}, ["Project.ppq", "Project.ppq.setter", "save"]))
    us.append(Unit("channel-count", channel_count, {}, ["Project.channel_count", "Project.channel_count.setter", "save"]))
    us.append(Unit("data-path-text", data_path_text, {}, ["Project.data_path.setter"]))
    us.append(Unit("data-path-str", data_path, {"kind": "str"}, ["Project.data_path", "Project.data_path.setter"], "bounded", note="%d path texts" % (len(PATHS) + 1), audit=200))
    us.append(Unit("data-path-Path", data_path, {"kind": "Path"}, ["Project.data_path", "Project.data_path.setter"], "bounded", note="%d path texts" % (len(PATHS) + 1), audit=200))
    us.append(Unit("sample-path", sample_path, {}, ["Sampler.sample_path", "Sampler.sample_path.setter"], "bounded", note="%d path texts" % (len(PATHS) + 1), audit=200))
    return us
