"""Projects of any size: explicit events with gaps between them (see pvc/gaps.py).

World(h, [Gap((id, id, ...)), event, Gap(...), event, ...]): every Gap stands for any number of events with any of these IDs
in any order.  When sampling or replaying, a gap becomes a few concrete events."""
from hs import build as B, frames as F
from pvc.harness import filler


class Gap:
    def __init__(self, *ids):
        self.ids = ids


def content(i, k):
    from hs.c14 import Fix
    h, pre = filler(Fix(k))
    return B.event(i, F.payload(h, i, "%sg%d" % (pre, k), lite=True))


class World:
    def __init__(self, h, items):
        from pyflp._events import EventTree, IndexedEvent
        self.h, self.n = h, 0
        self.items = []
        if not h.sym:
            evs = []
            for g in items:
                if isinstance(g, Gap):
                    g.events = []
                    for q in range(h.int("gap%d" % self.n, 0, 5)):
                        e = content(g.ids[h.int("gap%d.%d" % (self.n, q), 0, len(g.ids) - 1)] if g.ids else 61, 100 * self.n + q)
                        g.events.append(e)
                    evs += g.events
                    self.n += 1
                else:
                    evs.append(g)
            self.items = items
            self.root = B.tree(evs)
            self.all = evs
            self.raw = [bytes(e) for e in evs]
            return
        from pvc import gaps
        self.sp = sp = gaps.Space(h)
        last, cells, segs = [], [], []
        self.cells = cells

        def element(e):
            self.n += 1
            x = IndexedEvent(h.number("r%d" % self.n), e)
            cells.append(x)
            return x
        for n, g in enumerate(items):
            if isinstance(g, Gap):
                gap = sp.gap("g%d" % n, [(i,) for i in g.ids], lambda q, j: element(content(q[0], self.n)))
                g.gap = gap
                reps = [r for _, rs in gap.kinds.values() for r in rs]
                for k, a in enumerate(reps):
                    for b in reps[:k]:
                        h.assume(h.not_(a.r == b.r))
                segs.append(sp.whole(gap))
            else:
                x = element(g)
                reps = [x]
                segs.append(x)
            for a in last:
                for b in reps:
                    h.assume(a.r < b.r)
            if not isinstance(g, Gap):
                last = [x]
            else:
                last = last[:1] + reps
        self.items = items
        self.all = [c.e for c in cells]
        self.raw = [bytes(e) for e in self.all]
        self.pos = [c.r for c in cells]
        self.root = EventTree(init=gaps.Vals(segs, "list"))
        sp.watch.append(self.root)

    def project(self, fmt=0, channel_count=1, ppq=96):
        from pyflp.project import Project, FileFormat
        import pyflp            # noqa: registers all event IDs
        return Project(self.root, channel_count=channel_count, format=FileFormat(fmt), ppq=ppq)

    def lists(self, what, got, items, want):
        """got: the explicit events among items and those events of its gaps whose ID is wanted"""
        if not self.h.sym:
            exp = []
            for g in items:
                exp += [e for e in g.events if e.id in want] if isinstance(g, Gap) else [g]
            got = list(got)
            self.h.prove(what, len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), lambda: repr(([e.id for e in got], [e.id for e in exp])))
            return
        from pvc import gaps
        exp = []
        for g in items:
            exp += gaps.wanted(g.gap, lambda i: i in want) if isinstance(g, Gap) else [g]
        ok, g = gaps.lists(self.sp, got, exp)
        self.h.prove(what, ok, lambda: repr((g, exp)))

    def count(self, items, want):
        n = 0
        for g in items:
            if isinstance(g, Gap):
                if not self.h.sym:
                    n += sum(e.id in want for e in g.events)
                else:
                    for (i,), (c, _) in g.gap.kinds.items():
                        if i in want:
                            n = c + n
        return n

    def untouched(self, what, but=()):
        """but: {event: bytes}"""
        h = self.h
        self.lists("%s: the project's events are the same, in order" % what, self.root, self.items, range(256))
        but = dict((id(e), b) for e, b in but)
        for e, r in zip(self.all, self.raw):
            h.prove("%s: the events keep their bytes" % what, h.eq(bytes(e), but.get(id(e), r)))
        if h.sym:
            h.prove("%s: the positions are the same" % what, all(c.r is r and c.e is e for c, r, e in zip(self.cells, self.pos, self.all)))
