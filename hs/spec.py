"""The file format as PyFLP documents it: an oracle that is independent of the code under test.

The tables were written down once (from docs/, the docstrings and a review of the layouts) and are frozen here."""

BYTE, WORD, DWORD, TEXT, DATA = 0, 64, 128, 192, 208
NEW_TEXT_IDS = (231, 239, 241)

# payload representation of the IDs the library types; every other ID is handled by its range
KINDS = {
    0: 'bool',  # ChannelID.IsEnabled
    2: 'u8',  # ChannelID._VolByte
    3: 'u8',  # ChannelID._PanByte
    9: 'bool',  # ProjectID.LoopActive
    10: 'bool',  # ProjectID.ShowInfo
    11: 'u8',  # RackID.Swing
    12: 'u8',  # ProjectID._Volume
    13: 'u8',  # RackID._FitToSteps
    15: 'bool',  # ChannelID.Zipped
    17: 'u8',  # ArrangementsID.TimeSigNum
    18: 'u8',  # ArrangementsID.TimeSigBeat
    20: 'bool',  # ChannelID.PingPongLoop
    21: 'u8',  # ChannelID.Type
    22: 'i8',  # ChannelID.RoutedTo
    23: 'u8',  # ProjectID.PanLaw
    26: 'bool',  # PatternID.Looped
    28: 'bool',  # ProjectID.Licensed
    30: 'bool',  # PatternsID.PlayTruncatedNotes
    32: 'bool',  # ChannelID.IsLocked
    33: 'u8',  # TimeMarkerID.Numerator
    34: 'u8',  # TimeMarkerID.Denominator
    64: 'u16',  # ChannelID.New
    65: 'u16',  # PatternID.New
    67: 'u16',  # PatternsID.CurrentlySelected
    69: 'u16',  # ChannelID.FreqTilt
    70: 'u16',  # ChannelID.FXFlags
    71: 'u16',  # ChannelID.Cutoff
    72: 'u16',  # ChannelID._VolWord
    73: 'u16',  # ChannelID._PanWord
    74: 'u16',  # ChannelID.Preamp
    75: 'u16',  # ChannelID.FadeOut
    76: 'u16',  # ChannelID.FadeIn
    80: 'i16',  # ProjectID.Pitch
    83: 'u16',  # ChannelID.Resonance
    85: 'u16',  # ChannelID.StereoDelay
    86: 'u16',  # ChannelID.Pogo
    89: 'u16',  # ChannelID.TimeShift
    94: 'u16',  # ChannelID.Children
    95: 'i16',  # InsertID.Icon
    97: 'u16',  # ChannelID.Swing
    98: 'u16',  # SlotID.Index
    99: 'u16',  # ArrangementID.New
    100: 'u16',  # ArrangementsID.Current
    128: 'color',  # PluginID.Color
    131: 'u16x2',  # ChannelID.RingMod
    132: 'u16x2',  # ChannelID.CutGroup
    133: 'u32',  # RackID.WindowHeight
    135: 'u32',  # ChannelID.RootNote
    138: 'u16x2',  # ChannelID.DelayModXY
    139: 'u32',  # ChannelID.Reverb
    140: 'f32',  # ChannelID._StretchTime
    142: 'i32',  # ChannelID.FineTune
    143: 'u32',  # ChannelID.SamplerFlags
    144: 'u32',  # ChannelID.LayerFlags
    145: 'i32',  # ChannelID.GroupNum
    146: 'i32',  # ProjectID.CurGroupId
    147: 'i32',  # InsertID.Output
    148: 'u32',  # TimeMarkerID.Position
    149: 'color',  # InsertID.Color
    150: 'color',  # PatternID.Color
    152: 'u16x2',  # ArrangementsID._LoopPos
    153: 'u32',  # ChannelID.AUSampleRate
    154: 'i32',  # InsertID.Input
    155: 'u32',  # PluginID.Icon
    156: 'u32',  # ProjectID.Tempo
    159: 'u32',  # ProjectID.FLBuild
    160: 'u32',  # PatternID.ChannelIID
    161: 'i32',  # PatternID._161
    162: 'u32',  # PatternID._162
    164: 'u32',  # PatternID.Length
    199: 'ascii',  # ProjectID.FLVersion
    209: 'DelayEvent',  # ChannelID.Delay
    212: 'WrapperEvent',  # PluginID.Wrapper
    215: 'ParametersEvent',  # ChannelID.Parameters
    217: 'PLSelectionEvent',  # ArrangementsID.PLSelection
    218: 'EnvelopeLFOEvent',  # ChannelID.EnvelopeLFO
    219: 'LevelsEvent',  # ChannelID.Levels
    221: 'PolyphonyEvent',  # ChannelID.Polyphony
    223: 'ControllerEvent',  # PatternID.Controllers
    224: 'NotesEvent',  # PatternID.Notes
    225: 'MixerParamsEvent',  # MixerID.Params
    228: 'TrackingEvent',  # ChannelID.Tracking
    229: 'LevelAdjustsEvent',  # ChannelID.LevelAdjusts
    233: 'PlaylistEvent',  # ArrangementID.Playlist
    234: 'AutomationEvent',  # ChannelID.Automation
    235: 'InsertRoutingEvent',  # InsertID.Routing
    236: 'InsertFlagsEvent',  # InsertID.Flags
    237: 'TimestampEvent',  # ProjectID.Timestamp
    238: 'TrackEvent',  # TrackID.Data
}


def is_text(i):
    return TEXT <= i < DATA or i in NEW_TEXT_IDS


def width(i):
    """payload width of an ID, None: length-prefixed"""
    if i < WORD:
        return 1
    if i < DWORD:
        return 2
    if i < TEXT:
        return 4
    return None


def kind(i):
    """payload kind of an ID when its position in the file does not matter"""
    k = KINDS.get(i)
    if k:
        return k
    if i < WORD:
        return "u8"
    if i < DWORD:
        return "u16"
    if i < TEXT:
        return "u32"
    return "text" if is_text(i) else "data"


FIXED = {"bool": ("BoolEvent", 1), "u8": ("U8Event", 1), "i8": ("I8Event", 1), "u16": ("U16Event", 2),
         "i16": ("I16Event", 2), "u32": ("U32Event", 4), "i32": ("I32Event", 4), "f32": ("F32Event", 4),
         "u16x2": ("U16TupleEvent", 4), "color": ("ColorEvent", 4)}

INT_RANGE = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767),
             "u32": (0, 2 ** 32 - 1), "i32": (-2 ** 31, 2 ** 31 - 1)}


def le(b, signed=False):
    """little endian value of byte values (works on symbolic bytes)"""
    n = len(b)
    v = 0
    for i in range(n):
        v = v + (b[i] << (8 * i))
    return v


def signed_eq(h, v, b, signed):
    """v is the little endian (two's complement) value of the bytes b"""
    n = len(b)
    u = le(b)
    if not signed:
        return v == u
    m = 1 << (8 * n)
    return h.ite(u >= m // 2, u - m, u) == v


def varint(n):
    out = bytearray()
    while n > 127:
        out.append(128 | (n & 127))
        n >>= 7
    out.append(n)
    return bytes(out)


def frame(i, payload):
    if i < TEXT:
        return bytes([i]) + payload
    return bytes([i]) + varint(len(payload)) + payload


# ---------------------------------------------------------------------------------------------------- layouts
# (field, representation) in payload order.  representations:
#   u8 i8 u16 i16 u32 i32     little endian integers        f32 f64  IEEE-754
#   flag  one byte 0/1        bool32  32-bit 0/1            b<n>  n raw bytes
#   e:<int kind>              enumeration / flag word over that integer
#   pair32  two u32           bbt  musical time over u32    log2  2**(i32/10000)
#   lognorm  two u16          height  percentage over f32   tail  rest of the payload
OPT = "optional"      # older versions store fewer fields
REQ = "required"

LAYOUTS = {
    "PLSelectionEvent": (217, OPT, [("start", "u32"), ("end", "u32")]),
    "TrackEvent": (238, OPT, [
        ("iid", "u32"), ("color", "u32"), ("icon", "u32"), ("enabled", "flag"), ("height", "height"),
        ("locked_height", "i32"), ("content_locked", "flag"), ("motion", "e:u32"), ("press", "e:u32"),
        ("trigger_sync", "e:u32"), ("queued", "bool32"), ("tolerant", "bool32"), ("position_sync", "e:u32"),
        ("grouped", "flag"), ("locked", "flag"), ("_u1", "tail")]),
    "DelayEvent": (209, OPT, [("feedback", "u32"), ("pan", "i32"), ("pitch_shift", "i32"), ("echoes", "u32"), ("time", "u32")]),
    "EnvelopeLFOEvent": (218, OPT, [
        ("flags", "e:i32"), ("envelope.enabled", "i32"), ("envelope.predelay", "i32"), ("envelope.attack", "i32"),
        ("envelope.hold", "i32"), ("envelope.decay", "i32"), ("envelope.sustain", "i32"), ("envelope.release", "i32"),
        ("envelope.amount", "i32"), ("lfo.predelay", "u32"), ("lfo.attack", "u32"), ("lfo.amount", "i32"),
        ("lfo.speed", "u32"), ("lfo.shape", "e:i32"), ("envelope.attack_tension", "i32"),
        ("envelope.decay_tension", "i32"), ("envelope.release_tension", "i32")]),
    "LevelAdjustsEvent": (229, OPT, [("pan", "i32"), ("volume", "u32"), ("_u1", "u32"), ("mod_x", "i32"), ("mod_y", "i32")]),
    "LevelsEvent": (219, OPT, [("pan", "i32"), ("volume", "u32"), ("pitch_shift", "i32"), ("filter.mod_x", "u32"),
                               ("filter.mod_y", "u32"), ("filter.type", "e:u32")]),
    "ParametersEvent": (215, OPT, [
        ("_u1", "b9"), ("fx.remove_dc", "flag"), ("delay.flags", "e:u8"), ("keyboard.main_pitch", "flag"), ("_u2", "b28"),
        ("arp.direction", "e:u32"), ("arp.range", "u32"), ("arp.chord", "u32"), ("arp.time", "f32"), ("arp.gate", "f32"),
        ("arp.slide", "flag"), ("_u3", "b1"), ("time.full_porta", "flag"), ("keyboard.add_root", "flag"), ("time.gate", "u16"),
        ("_u4", "b2"), ("keyboard.key_region", "pair32"), ("_u5", "b4"), ("fx.normalize", "flag"), ("fx.inverted", "flag"),
        ("_u6", "b1"), ("content.declick_mode", "e:u8"), ("fx.crossfade", "u32"), ("fx.trim", "u32"), ("arp.repeat", "u32"),
        ("stretching.time", "bbt"), ("stretching.pitch", "i32"), ("stretching.multiplier", "log2"), ("stretching.mode", "e:i32"),
        ("_u7", "b21"), ("fx.start", "lognorm"), ("_u8", "b4"), ("fx.length", "lognorm"), ("_u9", "b3"),
        ("playback.start_offset", "u32"), ("_u10", "b5"), ("fx.fix_trim", "flag"), ("_extra", "tail")]),
    "PolyphonyEvent": (221, OPT, [("max", "u32"), ("slide", "u32"), ("flags", "e:u8")]),
    "TrackingEvent": (228, OPT, [("middle_value", "u32"), ("pan", "i32"), ("mod_x", "i32"), ("mod_y", "i32")]),
    "RemoteControllerEvent": (227, OPT, [("_u1", "b2"), ("_u2", "u8"), ("_u3", "u8"), ("parameter_data", "u16"),
                                         ("destination_data", "i16"), ("_u4", "b8"), ("_u5", "b4")]),
    "InsertFlagsEvent": (236, OPT, [("_u1", "b4"), ("flags", "e:u32"), ("_u2", "b4")]),
    "WrapperEvent": (212, OPT, [("_u1", "b16"), ("flags", "e:u16"), ("_u2", "b2"), ("page", "e:u8"), ("_u3", "b23"),
                                ("width", "u32"), ("height", "u32"), ("_extra", "tail")]),
    "TimestampEvent": (237, REQ, [("created_on", "f64"), ("time_spent", "f64")]),
    # plugin states (ID 213); the leading marker exists only in the longer variant
    "BooBassEvent": (213, REQ, [("_u1", "b4?"), ("bass", "u32"), ("mid", "u32"), ("high", "u32")]),
    "FruitKickEvent": (213, REQ, [("_u1", "b4"), ("max_freq", "i32"), ("min_freq", "i32"), ("freq_decay", "u32"),
                                  ("amp_decay", "u32"), ("click", "u32"), ("distortion", "u32"), ("_u2", "b4")]),
    "FruityBalanceEvent": (213, REQ, [("pan", "u32"), ("volume", "u32")]),
    "FruityBloodOverdriveEvent": (213, REQ, [
        ("plugin_marker", "b4?"), ("pre_band", "u32"), ("color", "u32"), ("pre_amp", "u32"), ("x100", "bool32"),
        ("post_filter", "u32"), ("post_gain", "u32"), ("_u1", "b4"), ("_u2", "b4")]),
    "FruityCenterEvent": (213, REQ, [("_u1", "b4?"), ("enabled", "bool32")]),
    "FruityFastDistEvent": (213, REQ, [("pre", "u32"), ("threshold", "u32"), ("kind", "c:u32"), ("mix", "u32"), ("post", "u32")]),
    "FruitySendEvent": (213, REQ, [("pan", "i32"), ("dry", "u32"), ("volume", "u32"), ("send_to", "i32")]),
    "FruitySoftClipperEvent": (213, REQ, [("threshold", "u32"), ("post", "u32")]),
    "FruityStereoEnhancerEvent": (213, REQ, [("pan", "i32"), ("volume", "u32"), ("stereo_separation", "u32"),
                                             ("phase_offset", "u32"), ("effect_position", "c:u32"), ("phase_inversion", "c:u32")]),
    "PluckedEvent": (213, REQ, [("decay", "u32"), ("color", "u32"), ("normalize", "bool32"), ("gate", "bool32"), ("widen", "bool32")]),
    "SoundgoodizerEvent": (213, REQ, [("_u1", "b4?"), ("mode", "c:u32"), ("amount", "u32")]),
}

LIST_LAYOUTS = {
    "NotesEvent": (224, [("position", "u32"), ("flags", "e:u16"), ("rack_channel", "u16"), ("length", "u32"), ("key", "u16"),
                         ("group", "u16"), ("fine_pitch", "u8"), ("_u1", "u8"), ("release", "u8"), ("midi_channel", "u8"),
                         ("pan", "u8"), ("velocity", "u8"), ("mod_x", "u8"), ("mod_y", "u8")]),
    "ControllerEvent": (223, [("position", "u32"), ("_u1", "u8"), ("_u2", "u8"), ("channel", "u8"), ("_flags", "u8"), ("value", "f32")]),
    "PlaylistEvent": (233, [("position", "u32"), ("pattern_base", "u16"), ("item_index", "u16"), ("length", "u32"),
                            ("track_rvidx", "u16"), ("group", "u16"), ("_u1", "b2"), ("item_flags", "u16"), ("_u2", "b4"),
                            ("start_offset", "f32"), ("end_offset", "f32"), ("_u3", "b28?")]),
    "MixerParamsEvent": (225, [("_u4", "b4"), ("id", "e:u8"), ("_u1", "u8"), ("channel_data", "u16"), ("msg", "i32")]),
}

MODULE = {"PLSelectionEvent": "arrangement", "TrackEvent": "arrangement", "PlaylistEvent": "arrangement",
          "DelayEvent": "channel", "EnvelopeLFOEvent": "channel", "LevelAdjustsEvent": "channel", "LevelsEvent": "channel",
          "ParametersEvent": "channel", "PolyphonyEvent": "channel", "TrackingEvent": "channel", "AutomationEvent": "channel",
          "RemoteControllerEvent": "controller", "InsertFlagsEvent": "mixer", "InsertRoutingEvent": "mixer",
          "MixerParamsEvent": "mixer", "TimestampEvent": "project", "NotesEvent": "pattern", "ControllerEvent": "pattern"}


def event_class(name):
    import importlib
    m = importlib.import_module("pyflp." + MODULE.get(name, "plugin"))
    if not hasattr(m, name) and name in MODULE:      # renamed: by the ID it is registered for
        from pyflp._events import EventEnum
        ids = [i for i, k in KINDS.items() if k == name] or [LAYOUTS[name][0]]
        t = getattr(EventEnum(ids[0]), "type", None)
        if t is not None:
            return t
    return getattr(m, name)


_W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "f64": 8, "flag": 1, "bool32": 4, "pair32": 8,
      "bbt": 4, "log2": 4, "lognorm": 4, "height": 4}


def fwidth(rep):
    """width of a field (None: open tail)"""
    if rep == "tail":
        return None
    if rep[:2] in ("e:", "c:"):
        return _W[rep[2:]]
    if rep[0] == "b" and rep[1:].rstrip("?").isdigit():
        return int(rep[1:].rstrip("?"))
    return _W[rep]


HEIGHTS = (0, 1, 29, 57, 58, 100, 115, 163, 999)


def field_bytes(h, name, rep, light=None):
    """canonical symbolic payload bytes of one field (light: a few representative values for the transcendental adapters)"""
    import struct
    w = fwidth(rep)
    if light is not None and rep in ("log2", "lognorm", "height", "bbt"):
        return {"log2": (struct.pack("<i", -1234), struct.pack("<i", 0)), "lognorm": (b"\0\0\0\0", b"\x60\xea\x3f\0"),
                "height": (struct.pack("<f", 0.57), struct.pack("<f", 1.15)), "bbt": (struct.pack("<I", 2 * 768 + 3 * 48 + 47), struct.pack("<I", 0))}[rep][light]
    if rep == "tail":
        return h.blob(name, 0, 1 << 20)
    if rep == "height":
        return struct.pack("<f", h.choice(name, HEIGHTS) / 100)
    if rep == "flag":
        return h.int(name, 0, 1).to_bytes(1, "little")
    if rep == "bool32":
        return h.int(name, 0, 1).to_bytes(4, "little")
    if rep in ("f32", "f64"):
        b = h.bytes(name, w - 1)
        t = h.int(name + ".msb", 0, 126)
        return b + (t + (h.int(name + ".sign", 0, 1) << 7)).to_bytes(1, "little")
    if rep == "log2":
        v = h.int(name, -2000, 2000)
        return (v & 0xFFFFFFFF).to_bytes(4, "little")
    elif rep == "lognorm":
        if h.choice(name + ".zero", (False, True)):
            return b"\0\0\0\0"
        v = h.int(name, 60000, 61440)
        return v.to_bytes(2, "little") + b"\x3f\0"
    return h.bytes(name, w)


def reads_as(h, v, b, rep):
    """the value v is the documented reading of the field bytes b"""
    import struct
    if rep[:2] == "e:":
        return h.and_(spec_int(h, v.value, b, rep[2:]))
    if rep[:2] == "c:":
        return spec_int(h, int(v), b, rep[2:])
    if rep in INT_RANGE:
        return spec_int(h, v, b, rep)
    if rep == "flag":
        return h.eq(v, b[0] == 1)
    if rep == "bool32":
        return h.eq(v, b[0] == 1)
    if rep == "f32":
        return h.eq(v, struct.unpack("<f", b)[0])
    if rep == "f64":
        return h.eq(v, struct.unpack("<d", b)[0])
    if rep == "tail" or rep[0] == "b" and rep != "bbt":
        return h.eq(v, b)
    if rep == "pair32":
        return h.eq(tuple(v), (le(b[:4]), le(b[4:])))
    if rep == "bbt":
        n = le(b)
        return h.and_(v.bars == n // 768, v.beats == (n % 768) // 48, v.ticks == (n % 48) * 5)
    if rep == "height":
        return v == "%d%%" % round(struct.unpack("<f", b)[0] * 100)
    if rep == "log2":
        n = int.from_bytes(b, "little", signed=True)
        return v == 2 ** (n / 10000)
    if rep == "lognorm":
        n = le(b[:2])
        if n == 0:
            return v == 0.0
        return v == min(1.0, 2 ** (n / 4096) / 32768)
    raise ValueError(rep)


def spec_int(h, v, b, k):
    return signed_eq(h, v, b, k[0] == "i")
