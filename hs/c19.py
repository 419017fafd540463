"""C19: licensee.  Each character is (de)scrambled by its position; every (position, character) pair is enumerated."""
import string
from pvc.harness import Unit
from hs import build as B

ALNUM = string.ascii_letters + string.digits
MAX = 74            # '0' at position 74 has no scrambled form
FILL = "q7Wd0ZxA9mLk3" * 7


def scrambled(s):
    out = ""
    for i, ch in enumerate(s):
        c = ord(ch) + 26 - i
        out += chr(c if 0 < c <= 127 else ord(ch) - 49 - i)
    return out


def project(h, enc="UnicodeEvent"):
    ver = "20.8.4.2576" if enc == "UnicodeEvent" else "9.0.0"
    es = [B.version(ver), B.event(28, b"\1"), B.event(200, ("xyz\0").encode("utf-16-le" if enc == "UnicodeEvent" else "ascii"), text=enc),
          B.event(80, h.bytes("pitch", 2))]
    return B.project(es)


def check(h, p, name):
    before = B.raw(p)
    p.licensee = name
    h.proveeq("reads back", p.licensee, name)
    h.proveeq("scrambled by position", p.events.first(list(p.events)[2].id).value, scrambled(name))
    B.same_but(h, "licensee", before, B.raw(p), 2)


def chars(h, lo, hi):
    """one character at one position, arbitrary fixed surroundings"""
    i = h.choice("position", range(lo, hi))
    c = h.choice("character", ALNUM)
    check(h, project(h), FILL[:i] + c)


def around(h, n):
    """the same inside of longer names"""
    k = h.choice("position", range(0, n))
    c = h.choice("character", "aAzZ09mM5")
    name = FILL[:k] + c + FILL[k + 1:n]
    check(h, project(h, h.choice("encoding", ("UnicodeEvent", "AsciiEvent"))), name)


def random_name(h):
    n = h.int("n", 0, MAX)
    name = "".join(h.choice("c%d" % i, ALNUM) for i in range(n))
    p = project(h, h.choice("encoding", ("UnicodeEvent", "AsciiEvent")))
    check(h, p, name)
    q = h.load(h.save(p))
    h.proveeq("survives saving and loading", q.licensee, name)


def reload(h):
    n = h.choice("length", (0, 1, 2, 10, 31, 60, 73, 74))
    p = project(h, h.choice("encoding", ("UnicodeEvent", "AsciiEvent")))
    name = FILL[:n]
    check(h, p, name)
    q = h.load(h.save(p))
    h.proveeq("survives saving and loading", q.licensee, name)


def absent(h):
    from pyflp.exceptions import PropertyCannotBeSet
    p = B.project([B.version(), B.event(80, h.bytes("pitch", 2))])
    before = B.raw(p)
    err = h.raises(lambda: setattr(p, "licensee", "abc"))
    h.prove("refused without the event", isinstance(err, PropertyCannotBeSet), lambda: repr(err))
    h.prove("reads as nothing", p.licensee is None)
    h.proveeq("unchanged", B.raw(p), before)


def units(tier):
    F = ["Project.licensee", "Project.licensee.setter"]
    us = [Unit("char-%d" % lo, chars, {"lo": lo, "hi": min(lo + 10, MAX)}, F, "bounded", max_s=100, note="every alphanumeric character at positions %d-%d, fixed surroundings" % (lo, min(lo + 10, MAX) - 1))
          for lo in range(0, MAX, 10)]
    us += [Unit("inside-%d" % n, around, {"n": n}, F, "bounded", max_s=100, note="names of %d characters" % n) for n in (2, 20, 45, 74)]
    us.append(Unit("random", random_name, {}, F, audit=150, sym=False))
    us.append(Unit("reload", reload, {}, F + ["save", "parse"], "bounded", note="8 lengths", max_s=100))
    us.append(Unit("absent", absent, {}, F))
    return us
