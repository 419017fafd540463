"""C16: unit conversions (pyflp/_adapters.py, arrangement.HeightAdapter) against their formulas."""
import math
import struct
from pvc.harness import Unit
from hs import spec


def four_byte_bool(h):
    from pyflp._adapters import FourByteBool
    data = h.bytes("stored", 4)
    v = FourByteBool.parse(data)
    n = spec.le(data)
    h.prove("reads as non-zero", h.eq(v, n != 0))
    if n == 0 or n == 1:
        h.proveeq("0/1 survives", FourByteBool.build(v), data)
    b = h.bool("value")
    raw = FourByteBool.build(b)
    h.prove("writes 0 or 1 as 32 bits", h.and_(len(raw) == 4, spec.le(raw) == h.ite(b, 1, 0)))


def pair(h):
    import construct as c
    from pyflp._adapters import List2Tuple
    A = List2Tuple(c.Int32ul[2])
    data = h.bytes("stored", 8)
    v = A.parse(data)
    h.prove("is a tuple of two", h.and_(type(v) is tuple, len(v) == 2))
    h.prove("first then second", h.and_(v[0] == spec.le(data[:4]), v[1] == spec.le(data[4:])))
    h.proveeq("writing back as read", A.build(v), data)
    x, y = h.u32("x"), h.u32("y")
    raw = A.build((x, y))
    h.prove("stores both", h.and_(len(raw) == 8, spec.le(raw[:4]) == x, spec.le(raw[4:]) == y))


def musical(h):
    import construct as c
    from pyflp._adapters import LinearMusical
    from pyflp.types import MusicalTime
    A = LinearMusical(c.Int32ul)
    data = h.bytes("stored", 4)
    n = spec.le(data)
    v = A.parse(data)
    h.prove("bars of 768", v.bars == n // 768)
    h.prove("beats of 48", v.beats == n % 768 // 48)
    h.prove("ticks of 1/5", v.ticks == n % 48 * 5)
    h.proveeq("writing back as read", A.build(v), data)


def musical_set(h):
    import construct as c
    from pyflp._adapters import LinearMusical
    from pyflp.types import MusicalTime
    A = LinearMusical(c.Int32ul)
    bars, beats, k = h.int("bars", 0, 5000000), h.int("beats", 0, 15), h.int("fifths", 0, 47)
    raw = A.build(MusicalTime(bars, beats, k * 5))
    h.prove("stores 768 bars + 48 beats + ticks / 5", h.and_(len(raw) == 4, spec.le(raw) == bars * 768 + beats * 48 + k))
    w = A.parse(raw)
    h.prove("reads back", h.and_(w.bars == bars, w.beats == beats, w.ticks == k * 5))


def log2(h):
    import construct as c
    from pyflp._adapters import Log2
    A = Log2(c.Int32sl, 10000)
    n = h.int("stored", -60000, 60000)
    data = (n & 0xFFFFFFFF).to_bytes(4, "little")
    v = A.parse(data)
    h.prove("2 ** (n / 10000)", v == 2 ** (n / 10000))
    h.proveeq("writing back as read", A.build(v), data)


def log2_factor(h):
    import construct as c
    from pyflp._adapters import Log2
    f = h.choice("factor", (1, 12, 100, 1200, 4096))
    A = Log2(c.Int32sl, f)
    n = h.int("stored", -8 * f, 8 * f)
    data = (n & 0xFFFFFFFF).to_bytes(4, "little")
    v = A.parse(data)
    h.prove("2 ** (n / factor)", v == 2 ** (n / f))
    h.proveeq("writing back as read", A.build(v), data)


def lognormal(h):
    import construct as c
    from pyflp._adapters import LogNormal
    A = LogNormal(c.Int16ul[2], (0, 61440))
    a, b = h.u16("first"), h.u16("second")
    data = a.to_bytes(2, "little") + b.to_bytes(2, "little")
    try:
        v = A.parse(data)
    except Exception as e:
        h.prove("only a second number other than 63 is rejected", h.and_(a != 0, b != 63), lambda: repr(e))
        return
    h.prove("a second number other than 63 is rejected", h.or_(a == 0, b == 63))
    if a == 0:
        h.prove("0 reads as 0.0", v == 0.0)
        h.proveeq("0.0 writes as 0, 0", A.build(v), b"\0\0\0\0")
        return
    h.prove("within 0.0 to 1.0", h.and_(v >= 0.0, v <= 1.0))
    if a >= 61440:
        h.prove("clamped to 1.0", v == 1.0)
        h.prove("1.0 writes as the upper bound", spec.le(A.build(v)[:2]) == 61440)
    else:
        h.prove("2 ** (n / 4096 - 15)", v == 2 ** (a / 4096) / 32768)
    w = A.build(v)
    h.prove("second number is 63", spec.le(w[2:]) == 63)
    stored = spec.le(w[:2])
    h.prove("clamped", stored <= 61440)
    # integer truncation may lose one unit
    lim = h.ite(a > 61440, 61440, a)
    h.prove("writes what was read, up to truncation", h.and_(len(w) == 4, stored <= lim, stored >= lim - 1))


def lognormal_values(h):
    """values no stored number reads as"""
    import construct as c
    from pyflp._adapters import LogNormal
    A = LogNormal(c.Int16ul[2], (0, 61440))
    v = h.choice("value", [k / 1000 for k in range(1001)] + [1e-6, 2.0 ** -15, 2.0 ** -16, 1e-300])
    w = A.build(v)
    h.prove("second number is 63 unless zero", spec.le(w[2:]) == (63 if v else 0))
    import math
    want = 4096 * (math.log2(v) + 15) if v else 0
    h.prove("4096 * (log2(x) + 15), truncated and clamped", max(want, 0) - 1.001 <= spec.le(w[:2]) <= max(want, 0) + 0.001)


def lognormal_reject(h):
    import construct as c
    from pyflp._adapters import LogNormal
    A = LogNormal(c.Int16ul[2], (0, 61440))
    v = h.choice("value", (-0.001, -1.0, 1.0001, 2.0, 100.0, float("inf"), -float("inf"), float("nan"), 2, -1))
    h.prove("outside of 0.0 to 1.0 is rejected", h.raises(lambda: A.build(v)) is not None)


def height(h, lo):
    import construct as c
    from pyflp.arrangement import HeightAdapter
    A = HeightAdapter(c.Float32l)
    n = h.choice("percent", range(lo, lo + 500))
    data = struct.pack("<f", n / 100)
    v = A.parse(data)
    h.proveeq("reads as a percentage", v, str(n) + "%")
    h.proveeq("writing back as read", A.build(v), data)


ENUMS = {"TrackMotion": "arrangement", "TrackPress": "arrangement", "TrackSync": "arrangement", "LFOShape": "channel", "FilterType": "channel",
         "ArpDirection": "channel", "DeclickMode": "channel", "StretchMode": "channel", "WrapperPage": "plugin", "_EnvLFOFlags": "channel",
         "_DelayFlags": "channel", "_PolyphonyFlags": "channel", "_InsertFlags": "mixer", "_MixerParamsID": "mixer", "_NoteFlags": "pattern",
         "_WrapperFlags": "plugin"}
# documented numbers of the named values (frozen)
NAMED = {
    ('arrangement', 'TrackMotion'): {'Stay': 0, 'OneShot': 1, 'MarchWrap': 2, 'MarchStay': 3, 'MarchStop': 4, 'Random': 5, 'ExclusiveRandom': 6},
    ('arrangement', 'TrackPress'): {'Retrigger': 0, 'HoldStop': 1, 'HoldMotion': 2, 'Latch': 3},
    ('arrangement', 'TrackSync'): {'Off': 0, 'QuarterBeat': 1, 'HalfBeat': 2, 'Beat': 3, 'TwoBeats': 4, 'FourBeats': 5, 'Auto': 6},
    ('channel', 'LFOShape'): {'Sine': 0, 'Triangle': 1, 'Pulse': 2},
    ('channel', 'FilterType'): {'FastLP': 0, 'LP': 1, 'BP': 2, 'HP': 3, 'BS': 4, 'LPx2': 5, 'SVFLP': 6, 'SVFLPx2': 7},
    ('channel', 'ArpDirection'): {'Off': 0, 'Up': 1, 'Down': 2, 'UpDownBounce': 3, 'UpDownSticky': 4, 'Random': 5},
    ('channel', 'DeclickMode'): {'OutOnly': 0, 'TransientNoBleeding': 1, 'Transient': 2, 'Generic': 3, 'Smooth': 4, 'Crossfade': 5},
    ('channel', 'StretchMode'): {'Stretch': -1, 'Resample': 0, 'E3Generic': 1, 'E3Mono': 2, 'SliceStretch': 3, 'SliceMap': 4, 'Auto': 5, 'E2Generic': 6, 'E2Transient': 7, 'E2Mono': 8, 'E2Speech': 9},
    ('channel', 'ReverbType'): {'A': 0, 'B': 65536},
    ('channel', 'ChannelType'): {'Sampler': 0, 'Native': 2, 'Layer': 3, 'Instrument': 4, 'Automation': 5},
    ('plugin', 'WrapperPage'): {'Editor': 0, 'Settings': 1, 'Sample': 3, 'Envelope': 4, 'Miscellaneous': 5},
    ('project', 'PanLaw'): {'Circular': 0, 'Triangular': 2},
    ('project', 'FileFormat'): {'None_': -1, 'Project': 0, 'Score': 16, 'Automation': 24, 'ChannelState': 32, 'PluginState': 48, 'GeneratorState': 49, 'FXState': 50, 'InsertState': 64, '_ProbablyPatcher': 80},
    ('timemarker', 'TimeMarkerType'): {'Marker': 0, 'Signature': 134217728},
}


def std_enum(h, name):
    """every stored number survives, known names or not"""
    import construct as c
    from pyflp._adapters import StdEnum
    import importlib
    E = getattr(importlib.import_module("pyflp." + ENUMS[name]), name)
    import enum
    signed = not issubclass(E, enum.IntFlag)
    A = StdEnum[E](c.Int32sl) if signed else StdEnum[E](c.Int32ul)
    data = h.bytes("stored", 4)
    v = A.parse(data)
    h.prove("is the stored number", spec.signed_eq(h, v.value, data, signed))
    h.proveeq("writing back as read", A.build(v), data)


def names(h, mod, name):
    """the numbers behind the documented names"""
    import importlib
    E = getattr(importlib.import_module("pyflp." + mod), name)
    for k, v in NAMED[mod, name].items():
        h.prove("%s.%s is %d" % (name, k, v), int(getattr(E, k)) == v)


def units(tier):
    us = [Unit("four-byte-bool", four_byte_bool, {}, ["_adapters.FourByteBool"]),
          Unit("pair", pair, {}, ["List2Tuple._decode", "List2Tuple._encode"]),
          Unit("musical", musical, {}, ["LinearMusical._decode", "LinearMusical._encode"]),
          Unit("musical-set", musical_set, {}, ["LinearMusical._encode"]),
          Unit("log2", log2, {}, ["Log2._decode", "Log2._encode"], note="|n| <= 60000 (multipliers 1/64 to 64)", max_s=120),
          Unit("log2-factor", log2_factor, {}, ["Log2._decode", "Log2._encode"], max_s=120),
          Unit("lognormal", lognormal, {}, ["LogNormal._decode", "LogNormal._encode"], max_s=120),
          Unit("lognormal-values", lognormal_values, {}, ["LogNormal._encode"], "bounded", note="1005 values"),
          Unit("lognormal-reject", lognormal_reject, {}, ["LogNormal._encode"]),
          ]
    us += [Unit("height-%d" % lo, height, {"lo": lo}, ["HeightAdapter._decode", "HeightAdapter._encode"], max_s=120,
                note="every whole percentage up to 2000%") for lo in range(0, 2000, 500)]
    for n in ENUMS:
        us.append(Unit("enum-" + n, std_enum, {"name": n}, ["StdEnum._decode", "StdEnum._encode", n]))
    us += [Unit("names-" + n, names, {"mod": m, "name": n}, [n], audit=1) for m, n in NAMED]
    return us
