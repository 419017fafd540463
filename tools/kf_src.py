#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C25", "a061be1", "an EQ parameter without stored record raised KeyError when read or set"),
 ("C25", "53c7124", "the dock of an insert whose flags are not stored raised TypeError"),
 ("C27", "ab6a681", "setting a VST option that is not stored was silently ignored or raised TypeError, and reading a missing flag raised TypeError"),
 ("C22", "9bc87fa", "a layer's children which come after it were not found while iterating the rack"),
 ("C12", "4450dbe", "inserting or appending an event at the end of a non-empty tree failed"),
 ("C12", "78b3e9a", "an event inserted through a view was held as two different records, so later edits of one tree missed the other"),
 ("C12", "77225e2", "tree += event rebound the name to None"),
 ("C04", "cb02b7a", "saving wrote the number of rack channels instead of the project's channel count into the header"),
 ("C21", "bca90a3", "setting Reverb.mix added the new mix to the stored value"),
 ("C21", "6f4d99e", "RemoteController.parameter / controls_vst used a boolean in place of the stored value"),
 ("C20", "7a0b78b", "setting a note's key from a note name failed or stored a wrong key"),
 ("C15", "4ef0380", "setting any VST flag changed bit 0"),
 ("C27", "6772ed8", "setting a VST option replaced the whole section"),
 ("C17", "22c6c1a", "tempo setter truncated instead of rounding to thousandths"),
 ("C14", "2abc90e", "Arp properties looked up field names without their prefix"),
 ("C14", "643a673", "properties of a model without events raised instead of reading as their default"),
 ("C10", "1846a76", "setting a flag of a field an old payload does not store raised TypeError"),
 ("C26", "385df74", "slices of collections with open bounds, negative indexes or steps were wrong"),
 ("C16", "7857964", "Log2 truncated, so values changed on every save"),
 ("C16", "2ca4f58", "track heights truncated, so values changed on save"),
 ("C17", "bf69794", "a project with only a fine tempo event had a wrong tempo"),
 ("C22", "7b62f2d", "events of mixer plugins were counted as channel rack events"),
 ("C25", "566b374", "Insert.output returned the previous insert's output"),
 ("C25", "92e8b07", "inserts without stored parameters and the parameters of effect slots failed"),
 ("C10", "103a445", "an absent optional flag was written when saving a short payload"),
 ("C17", "bd14851", "versions with and without a build number could not be compared"),
 ("C05", "b0d34eb", "a value an optional field can't store was dropped when saving, shifting the rest of the payload"),
 ("C12", "5794fbc", "events inserted through views of an empty tree got colliding positions"),
 ("C14", "dc7a848", "setting the pan or volume of an old channel wrote the value to two events"),
]
KNOWN = [
 {"id": "muted-without-field", "property": "C14", "status": "known", "unit": "playlist-muted", "obligation": "muted can be read",
  "what": "PLItemBase.muted stands for a record field 'muted' that no playlist record has: reading it raises KeyError (which bit of the record stores it is not documented)"},
 {"id": "directx-bit-16", "property": "C15", "status": "known", "unit": "wrapper-directx", "obligation": "a flag that was set can be saved",
  "what": "plugin.directx is bit 16 of the 16-bit wrapper flag word: it always reads False, and a project in which it was set to True cannot be saved"},
]
json.dump({"findings": KNOWN + [{"property": p, "status": "fixed", "commit": c, "what": w, "text": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]},
          open(os.path.join(V, "KNOWN_FINDINGS.json"), "w"), indent=1)
