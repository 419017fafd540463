"""Documented model properties: which event (and field) each one stands for.  Written down once from the documentation and a review of the
models, then frozen: the oracle of C14 and C15.  E: whole event(s), first present one wins;  S: field of a structured event;  F: flag bit."""


def E(*ids, default=None):
    return ("E", ids, None, default)


def S(id, *fields):
    return {f.split("=")[0]: ("S", (id,), f.split("=")[-1], None) for f in fields}


def F(id, field, **bits):
    """name=bit mask, negative: inverted"""
    return {n: ("F", (id,), field, b) for n, b in bits.items()}


CHANNEL = {"color": E(128), "enabled": E(0), "icon": E(155), "iid": E(64), "internal_name": E(201), "locked": E(32), "name": E(203, 192)}
SAMPLER_INSTRUMENT = dict(CHANNEL, cut_group=E(132), insert=E(22), **S(219, "pitch_shift"))
SLOT = {"color": E(128), "icon": E(155), "iid": E(98), "index": E(98), "internal_name": E(201), "name": E(203)}
WRAPPER = dict(S(212, "height", "page", "width"),
               **F(212, "flags", compact=256, demo_mode=128, detached=4, disabled=2, generator=16, minimized=512, multithreaded=64, smart_disable=32, visible=1))

EVENT_MODELS = {
    "arrangement.Arrangement": {"iid": E(99), "name": E(241)},
    "arrangement.TimeSignature": {"beat": E(18), "num": E(17)},
    "arrangement.Track": dict(S(238, "color", "content_locked", "enabled", "grouped", "height", "icon", "iid", "locked", "motion", "position_sync", "press",
                                "queued", "tolerant", "trigger_sync"), name=E(239)),
    "channel.AutomationLFO": S(234, "amount=lfo.amount"),
    "channel.Channel": CHANNEL,
    "channel.Automation": CHANNEL,
    "channel.Layer": dict(CHANNEL, **F(144, None, random=1, crossfade=2)),
    "channel.Instrument": SAMPLER_INSTRUMENT,
    "channel.Sampler": dict(SAMPLER_INSTRUMENT, au_sample_rate=E(153)),
    "channel.ChannelRack": {"fit_to_steps": E(13), "height": E(133), "swing": E(11)},
    "channel.Content": dict(S(215, "declick_mode=content.declick_mode"), **F(143, None, resample=1, load_regions=2, load_slices=4, keep_on_disk=256)),
    "channel.Delay": dict(S(209, "echoes", "feedback", "pan", "pitch_shift", "time"), **F(215, "delay.flags", ping_pong=2, fat_mode=4)),
    "channel.DisplayGroup": {"name": E(231)},
    "channel.FX": dict(S(215, "crossfade=fx.crossfade", "fix_trim=fx.fix_trim", "inverted=fx.inverted", "length=fx.length", "normalize=fx.normalize",
                         "remove_dc=fx.remove_dc", "start=fx.start", "trim=fx.trim"),
                       boost=E(74), cutoff=E(71), fade_in=E(76), fade_out=E(75), freq_tilt=E(69), pogo=E(86), resonance=E(83), ringmod=E(131),
                       stereo_delay=E(85), **F(70, None, fade_stereo=1, reverse=2, clip=4, swap_stereo=256)),
    "channel.Filter": S(219, "mod_x=filter.mod_x", "mod_y=filter.mod_y", "type=filter.type"),
    "channel.Keyboard": dict(S(215, "add_root=keyboard.add_root", "key_region=keyboard.key_region", "main_pitch=keyboard.main_pitch"),
                             fine_tune=E(142), root_note=E(135, default=60)),
    "channel.Playback": dict(S(215, "start_offset=playback.start_offset"), ping_pong_loop=E(20), **F(143, None, use_loop_points=8)),
    "channel.Time": dict(S(215, "full_porta=time.full_porta", "gate=time.gate"), shift=E(89), swing=E(97)),
    "channel.TimeStretching": S(215, "mode=stretching.mode", "multiplier=stretching.multiplier", "pitch=stretching.pitch", "time=stretching.time"),
    "mixer.Insert": dict({"color": E(149), "icon": E(95), "input": E(154), "name": E(204), "output": E(147)},
                         **F(236, "flags", polarity_reversed=1, channels_swapped=2, bypassed=-4, enabled=8, separator_shown=1024, locked=2048, is_solo=4096)),
    "mixer.Mixer": {"apdc": E(29)},
    "mixer.Slot": SLOT,
    "pattern.Pattern": {"color": E(150), "length": E(164), "looped": E(26, default=False), "name": E(193)},
    "pattern.Patterns": {"play_cut_notes": E(30)},
    "plugin.VSTPlugin": WRAPPER,
    "plugin.FruityBalance": WRAPPER,
    "project.Project": {"artists": E(207), "comments": E(195, 198), "genre": E(206), "licensed": E(28), "looped": E(9), "main_pitch": E(80),
                        "main_volume": E(12), "pan_law": E(23), "show_info": E(10), "title": E(194), "url": E(197)},
    "timemarker.TimeMarker": {"denominator": E(34), "name": E(205), "numerator": E(33)},
}

# models of exactly one event: (event ID, properties)
SINGLE_MODELS = {
    "channel.Arp": S(215, "chord=arp.chord", "direction=arp.direction", "gate=arp.gate", "range=arp.range", "repeat=arp.repeat", "slide=arp.slide", "time=arp.time"),
    "channel.Envelope": dict(S(218, *["%s=envelope.%s" % (x, x) for x in ("amount", "attack", "attack_tension", "decay", "decay_tension", "enabled", "hold",
                                                                           "predelay", "release", "release_tension", "sustain")]), **F(218, "flags", synced=1)),
    "channel.SamplerLFO": dict(S(218, *["%s=lfo.%s" % (x, x) for x in ("amount", "attack", "predelay", "shape", "speed")]), **F(218, "flags", synced=2, retrig=32)),
    "channel.LevelAdjusts": S(229, "mod_x", "mod_y", "pan", "volume"),
    "channel.Polyphony": dict(S(221, "max", "slide"), **F(221, "flags", mono=1, porta=2)),
    "channel.Tracking": S(228, "middle_value", "mod_x", "mod_y", "pan"),
}

# nested models: attribute -> (model, event IDs it sees)
NESTED = {
    "arrangement.Arrangements": {"time_signature": ("TimeSignature", (17, 18))},
    "channel.Automation": {"lfo": ("AutomationLFO", (234,)), "keyboard": ("Keyboard", (135, 142, 215))},
    "channel.Channel": {"keyboard": ("Keyboard", (135, 142, 215))},
    "channel.FX": {"reverb": ("Reverb", (139,))},
    "channel.Sampler": {"content": ("Content", (143, 215)), "filter": ("Filter", (219,)),
                        "fx": ("FX", (69, 70, 71, 74, 75, 76, 83, 85, 86, 131, 139, 215)), "playback": ("Playback", (20, 143, 215)),
                        "stretching": ("TimeStretching", (215,)), "keyboard": ("Keyboard", (135, 142, 215)), "arp": ("Arp", (215,)),
                        "delay": ("Delay", (138, 209, 215)), "level_adjusts": ("LevelAdjusts", (229,)), "polyphony": ("Polyphony", (221,)),
                        "time": ("Time", (89, 97, 215))},
    "channel.Instrument": {"keyboard": ("Keyboard", (135, 142, 215)), "arp": ("Arp", (215,)), "delay": ("Delay", (138, 209, 215)),
                           "level_adjusts": ("LevelAdjusts", (229,)), "polyphony": ("Polyphony", (221,)), "time": ("Time", (89, 97, 215))},
}
