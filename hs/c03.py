"""C03: corrupted headers are rejected, valid ones reported faithfully."""
from pvc.harness import Unit
from hs import build as B, frames as F, spec
from hs.c01 import FORMATS, PPQS

FN = ["parse", "Project.__init__", "Project.format", "Project.channel_count", "Project.ppq"]


def le16(h, b, signed=False):
    v = b[0] + (b[1] << 8)
    return h.ite(v >= 32768, v - 65536, v) if signed else v


def any_header(h, which):
    """one part of the header takes every value"""
    from pyflp.exceptions import HeaderCorrupted
    d = h.blob("payload", 0, 1 << 20)
    body = spec.frame(210, d)
    good = F.flp(body, h.choice("format", FORMATS[:3]), h.u16("channels"), h.choice("ppq", PPQS[2:4]))
    lo, hi = which
    part = h.bytes("part", hi - lo)
    if not h.sym and h.mode == "RANDOM" and h.choice("near", (True, False)):
        part = good[lo:hi]
        k = h.int("at", 0, hi - lo - 1)
        how = h.choice("how", ("byte", "bit", "case", "order", "near"))
        if how == "byte":
            part = part[:k] + bytes([h.u8("with")]) + part[k + 1:]
        elif how == "bit":
            part = part[:k] + bytes([part[k] ^ (1 << h.int("bit", 0, 7))]) + part[k + 1:]
        elif how == "near":
            part = part[:k] + bytes([(part[k] + h.choice("by", (-2, -1, 1, 2))) % 256]) + part[k + 1:]
        else:
            part = part.swapcase() if how == "case" else part[::-1]
    data = good[:lo] + part + good[hi:]
    ok = h.and_(data[:4] == b"FLhd", data[4:8] == b"\x06\0\0\0", h.or_(*[le16(h, data[8:10], True) == f for f in FORMATS]),
                h.or_(*[le16(h, data[12:14]) == q for q in PPQS]), data[14:18] == b"FLdt", data[18:22] == good[18:22])
    try:
        p = h.load(data)
    except HeaderCorrupted as e:
        h.prove("only a bad header is rejected", h.not_(ok), lambda: repr((data[:22], e)))
        return
    except Exception as e:
        h.prove("a bad header raises the header error", False, lambda: repr((data[:22], e)))
        return
    h.prove("a bad header is rejected", ok, lambda: repr(data[:22]))
    h.prove("format as stored", h.eq(int(p.format), le16(h, data[8:10], True)), lambda: repr(p.format))
    h.prove("channel count as stored", h.eq(p.channel_count, le16(h, data[10:12])), lambda: repr(p.channel_count))
    h.prove("timebase as stored", h.eq(p.ppq, le16(h, data[12:14])), lambda: repr(p.ppq))


def truncated(h, n):
    from pyflp.exceptions import HeaderCorrupted
    cut = h.choice("cut", (True, False))
    if cut:
        data = F.flp(b"\x0a\1")[:n]
    else:
        data = h.bytes("file", n)
    e = h.raises(lambda: h.load(data))
    h.prove("a truncated header is rejected with the header error", isinstance(e, HeaderCorrupted), lambda: repr(e))


def sizes(h):
    """any declared size against any file size"""
    from pyflp.exceptions import HeaderCorrupted
    d = h.blob("payload", 0, 1 << 20)
    body = spec.frame(210, d)
    if h.choice("bigger", (False, True)):
        body = body + spec.frame(10, b"\1")
    n = h.int("declared", 0, (1 << 32) - 1) if h.choice("far", (True, False)) or (not h.sampling) else max(0, len(body) + h.int("off", -3, 3))
    hdr = F.flp(b"\x0a\1")[:18]
    data = hdr + n.to_bytes(4, "little") + body
    e = h.raises(lambda: h.load(data))
    h.prove("a wrong data size is rejected, a right one accepted", h.eq(e is None, n == len(body)), lambda: repr((n, len(body), e)))
    h.prove("with the header error", e is None or isinstance(e, HeaderCorrupted), lambda: repr(e))


def units(tier):
    us = [Unit("header-%d-%d" % w, any_header, {"which": w}, FN, max_s=150, audit=60, sym=w != (18, 22)) for w in ((0, 4), (4, 8), (8, 10), (10, 12), (12, 14), (14, 18), (18, 22), (0, 8), (8, 14))]
    for n in range(22):
        us.append(Unit("short-%d" % n, truncated, {"n": n}, FN, audit=20))
    us.append(Unit("sizes", sizes, {}, FN, audit=60))
    return us
