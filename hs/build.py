"""Projects and models built from events, for contracts above the parser."""
from hs import spec


def event(i, data, cls=None, text="UnicodeEvent"):
    """the event a file with that frame contains (kind by the frozen table, class from the code)"""
    from pyflp import _events as E
    k = cls or spec.kind(i)
    if k in spec.FIXED:
        c = getattr(E, spec.FIXED[k][0])
    elif k == "ascii":
        c = E.AsciiEvent
    elif k == "text":
        c = getattr(E, text)
    elif k == "data":
        c = E.UnknownDataEvent
    elif isinstance(k, str):
        c = spec.event_class(k)
    else:
        c = k
    return c(E.EventEnum(i), data)


def tree(evs):
    from pyflp._events import EventTree, IndexedEvent
    return EventTree(init=[IndexedEvent(n, e) for n, e in enumerate(evs)])


def vtext(s, enc="utf-16-le"):
    return (s + "\0").encode(enc)


def version(s="20.8.4.2576"):
    return event(199, vtext(s, "ascii"))


def project(evs, fmt=0, channel_count=1, ppq=96):
    from pyflp.project import Project, FileFormat
    import pyflp            # noqa: registers all event IDs
    return Project(tree(evs), channel_count=channel_count, format=FileFormat(fmt), ppq=ppq)


def raw(p):
    """event bytes of a project/tree in file order, one per event"""
    return [bytes(e) for e in getattr(p, "events", p)]


def same_but(h, name, before, after, index):
    """all events but #index keep their bytes"""
    h.prove(name + ": number of events", len(before) == len(after))
    for i, (a, b) in enumerate(zip(before, after)):
        if i != index and not (isinstance(index, (tuple, set, list)) and i in index):
            h.proveeq("%s: other events unchanged" % name, a, b)


def flp(frames, fmt=0, channel_count=1, ppq=96):
    """a file: header and frames (bytes)"""
    body = b"".join(frames) if all(type(f) is bytes for f in frames) else sum_(frames)
    hdr = b"FLhd" + (6).to_bytes(4, "little") + fmt.to_bytes(2, "little", signed=True) + channel_count.to_bytes(2, "little") + ppq.to_bytes(2, "little")
    return hdr + b"FLdt" + len(body).to_bytes(4, "little") + body


def sum_(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


def version_frame(s="20.8.4.2576"):
    return spec.frame(199, vtext(s, "ascii"))


def events(p):
    return list(p.events)


def sum_lists(ls):
    return [x for l in ls for x in l]
