#!/usr/bin/env python3
"""writes MANIFEST.json and hs/meta.json from the per-property notes below"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real code (pvc: all-path VC generation from /repo's sources, z3/cvc5)"
TECHB = TECH + "; parts labelled bounded are checked on every path up to the stated bound"

# property -> (level, what the contracts prove / what is bounded, extra assumptions)
P = {
 "C28": ("proof", "every property of every event-backed model and native or VST plugin with any content of the event read: reading everything twice changes no event byte, order or position and returns equal results; list records, and whole projects walked in several orders with saves before and after, are bounded", ["a read that leaves bytes, order and positions of all events alone leaves every later read alone (the events are the only state)", "the content of the other events is fixed in the proof and random in the audit"]),
 "C24": ("proof", "arrangements, tracks and playlist items with any number of events of every kind around the structural ones (gap rule). Also bounded: number of explicit arrangements (2), markers (2), tracks (3) and playlist items (2; track, kind, pattern base, channel/pattern number and the other record fields symbolic), both record sizes and FL generations; all channel and pattern numbers and pattern bases symbolic; larger ones (up to 500 tracks, 3001 items, 300 arrangements) by sampling", ["in the any-size units SortedList (third party) is used through a contract; the bounded units run its real code", "contents of events that decide nothing are fixed in the proof and random in the audit"]),
 "C25": ("proof", "inserts and slots with any number of events of every kind around the structural ones (gap rule). Also bounded: number of explicit inserts (3), slots (2) and parameter records (2; address, parameter and value symbolic); full mixers (127 inserts, 64 slots, thousands of records) by sampling", ["in the any-size units SortedList (third party) is used through a contract; the bounded units run its real code", "contents of events that decide nothing are fixed in the proof and random in the audit"]),
 "C26": ("proof", "lookup by number and by name in collections of any number of items, every integer and any name (element rule). Also bounded: the same lookups and every slice on collections of at most 3 items built from real events (names from a small alphabet); larger ones by sampling", ["in the any-size units a collection's iteration is used through its contract (C22-C25 prove what it yields); the bounded units run the real iteration"]),
 "C27": ("proof", "every plugin name known and unknown, every field of every native plugin and every VST option, flag and section for all stored and new values; options and flags also with any number of other sections before and after (element rule)", ["in the units with a fixed number of VST sections the other sections come from a list of shapes in the proof and are random in the audit"]),
 "C22": ("proof", "channels with any number of events of every kind around and inside them (gap rule). Also bounded: number of explicit channels (2; every channel kind, every combination of the events that decide kind, name, group and children); every channel number and child number symbolic in up to 3 channels; larger racks (up to 300 channels, groups, children) by sampling", ["in the any-size units SortedList (third party) is used through a contract; the bounded units run its real code", "contents of events that decide nothing are fixed in the proof and random in the audit"]),
 "C23": ("proof", "patterns with any number of events of every kind around and inside them (gap rule). Also bounded: number of explicit pattern blocks (3), all note/controller record contents and all pattern numbers symbolic; larger histories (up to 1200 patterns) by sampling", ["in the any-size units SortedList (third party) is used through a contract; the bounded units run its real code", "contents of events that decide nothing are fixed in the proof and random in the audit"]),
 "C12": ("proof", "insert, append, +=, pop and remove at every place of a view of a tree with any number of events (gaps around at most 3 explicit events), views nested to depth 3, any event IDs: effect in the view and all ancestors, order and positions; the invariant is preserved, so it holds after any history. Also bounded: every tree of at most 3 events with 3 nested views and one operation and of 2 events with two operations with the real SortedList; histories of up to 25 operations by sampling", ["in the any-size units SortedList (third party) is used through a contract; the small exhaustive units run its real code", "nesting depth at most 3"]),
 "C13": ("proof", "every view rule and lookup on trees with any number of events (gaps around at most 3 explicit events) and any IDs, also on views of views, and again after edits. Also bounded: every tree of at most 4 events (2 for views of views) with the real SortedList; larger ones (up to 40 events) by sampling", ["in the any-size units SortedList (third party) is used through a contract; the small exhaustive units run its real code"]),
 "C14": ("proof", "every documented property of every event-backed model against a frozen table (event, field, default): all stored and all new values, absent and short events, duplicates; nested models; the computed properties pan, volume, zipped, display name", ["the content of the other events of the model is fixed in the proof (the property's own event is arbitrary) and random in the audit"]),
 "C15": ("proof", "every documented flag property: all flag words, both values, twice", ["the other fields of the payload are fixed in the proof and random in the audit"]),
 "C01": ("proof", "load then save for every frame kind and version, any number of frames before and after (loop rule on the parser's loop: the events before and after the frame are arbitrary), every struct/list/text/VST/notebook/automation payload; header fields for all values", ["automation points, notebook pages and the tails of a few plugin payloads come in the shapes stated in the units; numbers of frames, list records and VST sections are unbounded"]),
 "C02": ("proof", "one arbitrary frame between any number of arbitrary frames: parser loop by induction, every ID 0-255 and every payload length", []),
 "C03": ("proof", "every byte of the header, all sizes: rejected or accepted exactly per the contract", ["files that end between bytes 18 and 22 are covered by the size contract"]),
 "C04": ("proof", "one edited event of every kind between any number of others; header settings for all values; insertion/removal sequences are bounded (files of at most 2 events, 2 operations; longer ones by sampling); events with equal bytes and projects from one file are independent (every ID); three saves to one path, onto any previous content, with edits in between", []),
 "C05": ("proof", "every event kind with every value it cannot store, before/after other events, existing or missing target: error and untouched target; file system calls through a virtual file system", ["the operating system's own write failures (disk full) are outside the property"]),
 "C08": ("proof", "any text of any length (opaque text model with codec laws), every version boundary, load/assign/save/reload", ["the codec laws (decode o encode = id, ASCII/UTF-16 length formulas) are assumed for CPython/PyPy's codecs"]),
 "C21": ("proof", "all stored words of every packed value and all representable new parts", []),
 "C06": ("proof", "every event class: all payloads of every length, all assigned values of the accepted kinds; the ID range and payload-size guards for every ID 0-255 and every length; the reported size for every ID", []),
 "C07": ("proof", "all values of every fixed-width codec: store-then-read, payload layout, range limits, and parse of every payload", ["floats are IEEE binary32/64 as implemented by struct; the contract quantifies over all bit patterns through the opaque-payload model"]),
 "C09": ("proof", "every field of every fixed-layout event, all payload contents and all payload lengths (complete, short, with a tail): after an edit that field reads back and all other bytes of the event are unchanged", ["trailing bytes of unbounded length are an opaque byte string"]),
 "C10": ("proof", "every fixed-layout event, every payload length 0..full: missing fields read as nothing, setting them is refused and leaves the bytes alone, present fields can be edited without growing the payload", []),
 "C11": ("proof", "every list event: record slicing, record edit isolation, reserialisation and append for all record contents with any number of records before and after (block rule for construct's GreedyRange); automation points: number of points bounded", ["a list payload's other records are well formed blocks of the same stride; construct's GreedyRange has the shape of a parse-append loop (checked on the explicit records)"]),
 "C16": ("proof", "every adapter over its whole stored domain (finite domains exhaustively by table, others symbolically)", ["math functions (log2, pow, ...) are evaluated by the interpreter, table by table, not modelled"]),
 "C17": ("proof", "tempo read and write for every stored integer of the fine and coarse/fine events, every version and all values in thousandths", ["tempo floats: values of the form k/1000"]),
 "C18": ("proof", "version numbers of any size within the digit bounds, all integers for timebase and channel count, any text as data path; pathlib round trips on a list of path texts are bounded", ["version components up to 255.99.99.9999"]),
 "C19": ("proof", "licensee decoding/encoding: every (position, character) pair enumerated, symbolic text for the setter/getter wiring", ["names up to the 74 characters the scheme supports"]),
 "C20": ("proof", "all 132 stored keys and every note name/octave combination, all integers for numeric keys", []),
}
NA = {}

TRUSTED = [
 "pvc (this repository): the AST pass that makes calls and loops observable, path exploration, and the models of C-level functions in pvc/intercept.py and pvc/values.py (cross-checked on every run by evaluating the same contracts on the un-instrumented code)",
 "z3 (every obligation) and, in the thorough tier, cvc5 (second opinion)",
 "PyPy 3.9 interpreter, the interpreter the project's environment uses",
]
ASSUME = [
 "single-threaded use of the library objects",
 "frozen format tables in hs/spec.py (event ID -> payload kind, struct layouts) are the specification; they were written from the documentation and the pinned commit",
]


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na, meta = [], [], {}
    for i in ids:
        if i not in P:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
            continue
        level, note, assume = P[i]
        meta[i] = {"level": level, "note": note, "assumptions": assume}
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECHB if "bounded" in note else TECH,
            "level": level,
            "level_note": note[0].upper() + note[1:] + ". Trusted: pvc's models of C-level functions, z3, the interpreter; see hs/meta.json and the evidence file." + ("" if not assume else " Assumes: " + "; ".join(assume) + "."),
        })
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks load /repo's current sources through an import hook. Deciding step: run.py -> pvc.worker (sym). See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    json.dump({"trusted_base": TRUSTED, "assumptions": ASSUME, "properties": meta}, open(os.path.join(V, "hs", "meta.json"), "w"), indent=1)


main()
