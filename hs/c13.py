"""C13: views select exactly the specified events, in order, as the same objects."""
from pvc.harness import Unit
from hs import build as B

FN = ["EventTree.subtree", "EventTree.divide", "EventTree.group", "EventTree.separate", "EventTree.subtrees", "yields_child", "EventTree.first", "EventTree.get",
      "EventTree._get_ie", "EventTree.count", "EventTree.__contains__", "EventTree.__iter__", "EventTree.__len__", "EventTree.ids", "EventTree.indexes", "EventTree.__eq__"]
IDS = (1, 2, 3)


def events(h, n, ids=IDS):
    from pyflp._events import EventEnum, U8Event
    return [U8Event(EventEnum(h.choice("e%d" % i, ids)), bytes([i % 250])) for i in range(n)]


def same(a, b):
    a = list(a)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def show(got, want):
    return lambda: "%r instead of %r" % ([[(e.id, bytes(e)[1]) for e in x] for x in got], [[(e.id, bytes(e)[1]) for e in x] for x in want])


def setting(h, n, nested, ids=IDS):
    """a root tree, or a view of one, and the events it holds"""
    es = events(h, n, ids)
    root = B.tree(es)
    if not nested:
        return es, root, es, root
    keep = [h.choice("keep%d" % i, (True, False)) for i in range(n)]
    sub = [e for e, k in zip(es, keep) if k]
    v = root.subtree(lambda e: any(e is x for x in sub))
    h.prove("a filtered view holds the selected events in order", same(v, sub), show([v], [sub]))
    return es, root, sub, v


def untouched(h, what, es, root, sub, v, raw):
    h.prove("%s leaves the parent as it was" % what, same(root, es) and same(v, sub))
    h.prove("%s leaves the events as they were" % what, [(e.id, bytes(e)) for e in es] == raw)
    pos = sorted(root.indexes)
    h.prove("%s leaves the positions as they were" % what, pos == list(range(len(es))))


def check(h, what, S, got, want):
    es, root, sub, v, raw = S
    got = list(got)
    h.prove("%s: number of views" % what, len(got) == len(want), show(got, want))
    for g, w in zip(got, want):
        h.prove("%s: the selected events in order, as the same objects" % what, same(g, w), show(got, want))
        h.prove("%s: positions are those of the project" % what, sorted(g.indexes) == sorted(i for i, e in enumerate(es) if any(e is x for x in w)))
    untouched(h, what, es, root, sub, v, raw)


def views(h, rule, n, nested):
    from pyflp._events import EventEnum as E
    es, root, sub, v = setting(h, n, nested, IDS if rule in ("divide", "group", "lookup") else IDS[:2])
    S = (es, root, sub, v, [(e.id, bytes(e)) for e in es])
    if rule == "divide":
        ids = h.choice("ids", ((1, 2), (2, 3), (1, 2, 3), (2,)))
        want, first = [[]], True
        for e in sub:
            if e.id == 1:
                if first:
                    first = False
                else:
                    want.append([])
            if e.id in ids:
                want[-1].append(e)
        check(h, "divide", S, v.divide(E(1), *map(E, ids)), want)
    elif rule == "group":
        ids = h.choice("ids", ((1, 2), (2, 1), (1, 2, 3), (3,)))
        occ = [[e for e in sub if e.id == i] for i in ids]
        want = []
        for k in range(max(map(len, occ))):
            g = [o[k] for o in occ if k < len(o)]
            want.append([e for e in sub if any(e is x for x in g)])
        check(h, "group", S, v.group(*map(E, ids)), want)
    elif rule == "separate":
        i = h.choice("id", IDS)
        check(h, "separate", S, v.separate(E(i)), [[e] for e in sub if e.id == i])
    elif rule == "subtree":
        keep = [h.choice("sel%d" % i, (True, False, None)) for i in range(len(sub))]
        got = v.subtree(lambda e: [k for k, x in zip(keep, sub) if x is e][0])
        check(h, "subtree", S, [got], [[e for e, k in zip(sub, keep) if k]])
    elif rule == "subtrees":
        keep = [h.choice("sel%d" % i, (True, False, None)) for i in range(len(sub))]
        rep = h.choice("repeat", (-1, 0, 1, 2))
        want, cur = [], []
        for e, k in zip(sub, keep):
            if rep >= 0 and len(want) == rep:
                break
            if k is False:
                want.append(cur)
                cur = [e]
            elif k:
                cur.append(e)
        asked = []

        def select(e):
            asked.append(e)
            return [k for k, x in zip(keep, sub) if x is e][0]

        check(h, "repeated views", S, v.subtrees(select, rep), want)
    else:
        i = h.choice("id", IDS + (4,))
        occ = [e for e in sub if e.id == i]
        if occ:
            h.prove("lookup returns the first event", v.first(E(i)) is occ[0])
        else:
            h.prove("lookup raises a key error", h.raises(lambda: v.first(E(i)), KeyError) is not None)
        h.proveeq("counting agrees", v.count(E(i)), len(occ))
        h.proveeq("membership agrees", E(i) in v, bool(occ))
        h.prove("selection by one ID", same(v.get(E(i)), occ))
        j = h.choice("id2", IDS)
        h.prove("selection by two IDs", same(v.get(E(i), E(j)), [e for e in sub if e.id in (i, j)]))
        h.proveeq("length agrees", len(v), len(sub))
        h.prove("the IDs agree", {int(x) for x in v.ids} == {int(e.id) for e in sub})
        h.prove("equal to a tree with the same events", v == (root if len(sub) == len(es) else v))
        untouched(h, "looking up", *S)


def agree(h, what, v, sub):
    """lookup, counting and membership agree with the events"""
    from pyflp._events import EventEnum as E
    for i in IDS:
        occ = [e for e in sub if e.id == i]
        if occ:
            h.prove("%s: lookup returns the first event" % what, v.first(E(i)) is occ[0])
        else:
            h.prove("%s: lookup raises a key error" % what, h.raises(lambda: v.first(E(i)), KeyError) is not None)
        h.proveeq("%s: counting agrees" % what, v.count(E(i)), len(occ))
        h.proveeq("%s: membership agrees" % what, E(i) in v, bool(occ))
        h.prove("%s: selection by one ID" % what, same(v.get(E(i)), occ))
    h.proveeq("%s: length agrees" % what, len(v), len(sub))
    h.prove("%s: the IDs agree" % what, {int(x) for x in v.ids} == {int(e.id) for e in sub})


def edited(h, n, steps, ids=IDS[:2]):
    """lookups before and after events come and go"""
    from pyflp._events import EventEnum, U8Event
    es, root, sub, v = setting(h, n, True, ids)
    es, sub = list(es), list(sub)
    agree(h, "before", root, es)
    agree(h, "before", v, sub)
    for k in range(steps):
        op = h.choice("op%d" % k, ("pop", "append", "insert", "root"))
        m, t = (es, root) if op == "root" else (sub, v)
        if op == "pop" or (op == "root" and sub is not es):
            free = [e for e in m if m is sub or not any(e is x for x in sub)]
            if not free:
                return
            e = h.choice("which%d" % k, free)
            t.pop(e.id, [x for x in m if x.id == e.id].index(e))
            es = [x for x in es if x is not e]
            sub = [x for x in sub if x is not e]
        elif sub:
            e = U8Event(EventEnum(h.choice("new%d" % k, IDS)), bytes([200 + k]))
            if op == "append":
                at = sub[-1]
                v.append(e)
                es.insert([x is at for x in es].index(True) + 1, e)
                sub.append(e)
            else:
                at = sub[0]
                v.insert(0, e)
                es.insert([x is at for x in es].index(True), e)
                sub.insert(0, e)
        if k < steps - 1 and h.choice("look%d" % k, (False, True)) is False:
            continue
        agree(h, "after an edit", root, es)
        agree(h, "after an edit", v, sub)


def anyedited(h):
    edited(h, h.int("n", 0, 12), h.int("steps", 1, 6), IDS)


class Line:
    """a project of any size: explicit events with gaps around them, and possibly a view of it"""

    def __init__(self, h, ids, kinds, nested, first=None):
        from pyflp._events import EventEnum, EventTree, IndexedEvent, U8Event
        from pvc import gaps
        self.h, self.n, self.kind = h, 0, {}
        self.sp = sp = gaps.Space(h)

        def element(i, member):
            self.n += 1
            e = IndexedEvent(h.number("r%d" % self.n), U8Event(EventEnum(i), bytes([self.n])))
            self.kind[id(e.e)] = member
            return e
        self.segs, prev = [], []
        self.all = []
        for k in range(len(ids) + 1):
            ks = [(i, m) for i in (kinds if k or first is None else first) for m in ((True, False) if nested else (True,))]
            g = sp.gap("g%d" % k, ks, lambda q, j: element(*q))
            reps = [r for _, rs in g.kinds.values() for r in rs]
            for n, a in enumerate(reps):
                for b in reps[:n]:
                    h.assume(h.not_(a.r == b.r))
                if prev:
                    h.assume(prev[-1].r < a.r)
            self.segs.append(g)
            self.all += reps
            if k < len(ids):
                x = element(ids[k], True)
                for a in (reps + prev[-1:]):
                    h.assume(a.r < x.r)
                prev.append(x)
                self.segs.append(x)
                self.all.append(x)
        self.x = prev
        self.pos = [a.r for a in self.all]
        self.raw = [(a.e, a.e.id, bytes(a.e)) for a in self.all]
        self.root = EventTree(init=gaps.Vals(sp.parts([sp.whole(s) if isinstance(s, gaps.Gap) else s for s in self.segs]), "list"))
        kind = self.kind
        self.t = self.root.subtree(lambda e: kind[id(e)]) if nested else self.root
        sp.watch += [self.root, self.t]
        self.want = (lambda i, m: m) if nested else (lambda i, m: True)
        self.expect("a filtered view", self.t, self.segs, self.want)

    def expect(self, what, got, segs, want):
        """got lists the explicit events of segs and those elements of its gaps that ``want``"""
        from pvc import gaps
        exp = []
        for s in segs:
            exp += gaps.wanted(s, want) if isinstance(s, gaps.Gap) else [s.e]
        ok, g = gaps.lists(self.sp, got, exp)
        self.h.prove("%s: the selected events in order, as the same objects" % what, ok, lambda: repr((g, exp)))

    def untouched(self, what):
        h = self.h
        self.expect("%s leaves the parent as it was" % what, self.root, self.segs, lambda i, m: True)
        if self.t is not self.root:
            self.expect("%s leaves the parent as it was" % what, self.t, self.segs, self.want)
        h.prove("%s leaves the events as they were" % what, all(a.e is e and e.id == i and bytes(e) == b for a, (e, i, b) in zip(self.all, self.raw)))
        h.prove("%s leaves the positions as they were" % what, all(a.r is r for a, r in zip(self.all, self.pos)))

    def count(self, want):
        n = 0
        for s in self.segs:
            if hasattr(s, "kinds"):
                for k, (c, _) in s.kinds.items():
                    if self.want(*k) and want(*k):
                        n = c + n
        return n


def any_size(h, rule, nested, m):
    """any number of events around at most m that a rule treats in a special way"""
    from pyflp._events import EventEnum as E
    if not h.sym:
        return views(h, rule if rule in RULES else "lookup", h.int("n", 0, 12), nested)
    if rule == "divide":
        w = Line(h, [1] * m, (2, 3), nested)
        ids = h.choice("ids", ((1, 2), (2, 3), (2,)))
        got = [x for x in w.t.divide(E(1), *map(E, ids))]
        h.prove("divide: a new part at every separator after the first", len(got) == max(m, 1))
        cuts = [0] + [w.segs.index(x) for x in w.x[1:]] + [len(w.segs)]
        for k, g in enumerate(got):
            part = [s for s in w.segs[cuts[k]:cuts[k + 1]] if 1 in ids or not any(s is x for x in w.x)]
            w.expect("divide", g, part, lambda i, q: w.want(i, q) and i in ids)
    elif rule == "subtrees":
        w = Line(h, [1] * m, (2, 3), nested)
        rep = h.choice("repeat", (-1, m + 1, m + 7))
        skip = h.choice("skipped", ((), (3,), (2, 3)))
        got = [x for x in w.t.subtrees(lambda e: False if e.id == 1 else None if e.id in skip else True, rep)]
        h.prove("repeated views: one per event that ends one", len(got) == m)
        cuts = [0] + [w.segs.index(x) for x in w.x]
        for k, g in enumerate(got):
            w.expect("repeated views", g, w.segs[cuts[k]:cuts[k + 1]], lambda i, q: w.want(i, q) and i not in skip)
    elif rule == "separate":
        w = Line(h, [1] * m, (2, 3), nested)
        got = [x for x in w.t.separate(E(1))]
        h.prove("separate: one view per event", len(got) == m)
        for g, x in zip(got, w.x):
            w.expect("separate", g, [x], w.want)
    elif rule == "group":
        w = Line(h, [h.choice("x%d" % k, (1, 4)) for k in range(m)], (2, 3), nested)
        ids = h.choice("ids", ((1, 4), (4, 1), (4,), (5, 4)))
        occ = [[x for x in w.x if x.e.id == i] for i in ids]
        got = [x for x in w.t.group(*map(E, ids))]
        h.prove("group: one view per occurrence", len(got) == max(map(len, occ)))
        for k, g in enumerate(got):
            part = [o[k] for o in occ if k < len(o)]
            w.expect("group", g, [x for x in w.x if any(x is y for y in part)], w.want)
    elif rule == "subtree":
        w = Line(h, [1] * m, (2, 3), nested)
        keep = h.choice("kept", ((1, 2), (2,), (2, 3), (1,), ()))
        got = w.t.subtree(lambda e: e.id in keep or (None if e.id == 3 else False))
        w.expect("subtree", got, [s for s in w.segs if 1 in keep or not any(s is x for x in w.x)], lambda i, q: w.want(i, q) and i in keep)
        h.prove("its project is the same", got.root is w.root and got.parent is w.t)
    else:
        # the first event with ID 1 has any number of others before it; more of them anywhere behind
        w = Line(h, [1] * m, (1, 2), nested, first=(2,))
        t = w.t
        if m:
            h.prove("lookup returns the first event", t.first(E(1)) is w.x[0].e)
        else:
            h.prove("lookup raises a key error", h.raises(lambda: t.first(E(1)), KeyError) is not None)
        h.prove("lookup raises a key error", h.raises(lambda: t.first(E(3)), KeyError) is not None)
        for i in (1, 2, 3):
            n = w.count(lambda j, q: j == i) + (m if i == 1 else 0)
            h.proveeq("counting agrees", t.count(E(i)), n)
            h.prove("membership agrees", h.eq(E(i) in t, n > 0))
            h.prove("the IDs agree", h.eq(E(i) in t.ids, n > 0))
            w.expect("selection by one ID", t.get(E(i)), [s for s in w.segs if i == 1 or not any(s is x for x in w.x)], lambda j, q: w.want(j, q) and j == i)
        w.expect("selection by two IDs", t.get(E(2), E(1)), w.segs, w.want)
        from pvc.intercept import call
        h.proveeq("length agrees", call(len, t), w.count(lambda j, q: True) + m)
    w.untouched(rule)


RULES = ("divide", "group", "separate", "subtree", "subtrees", "lookup")


def large(h):
    """trees far larger than any bound or threshold a shortcut may have"""
    import random
    from pyflp._events import EventEnum as E, U8Event
    r = random.Random(h.int("seed", 0, 10 ** 6))
    n = h.choice("size", (1100, 5300, 12000, 70000))
    rare = h.choice("rare", (True, False))          # special events only at the far end
    es = [U8Event(E(2 if rare and k < n - 20 else r.choice(IDS)), bytes([k % 256])) for k in range(n)]
    root = B.tree(es)
    keep = {id(e) for e in es if r.random() < 0.9}
    v = root.subtree(lambda e: id(e) in keep)
    sub = [e for e in es if id(e) in keep]
    h.prove("a filtered view holds the selected events in order", same(v, sub) and same(root, es))
    for t, l in ((root, es), (v, sub)):
        h.prove("length agrees", len(t) == len(l))
        for i in IDS + (4,):
            occ = [e for e in l if e.id == i]
            h.prove("lookup returns the first event", (t.first(E(i)) is occ[0]) if occ else h.raises(lambda: t.first(E(i)), KeyError) is not None)
            h.prove("counting, membership and selection agree", t.count(E(i)) == len(occ) and (E(i) in t) == bool(occ) and (E(i) in t.ids) == bool(occ) and same(t.get(E(i)), occ))
        cuts = [[]]
        for e in l:
            if e.id == 1 and any(x.id == 1 for x in cuts[-1]) or e.id == 1 and len(cuts) > 1:
                cuts.append([])
            cuts[-1].append(e)
        got = list(t.divide(E(1), E(1), E(2), E(3)))
        h.prove("divide: a new part at every separator after the first", len(got) == len(cuts) and all(same(a, b) for a, b in zip(got, cuts)))
        got = list(t.separate(E(3)))
        occ = [e for e in l if e.id == 3]
        h.prove("separate: one view per event", len(got) == len(occ) and all(same(a, [b]) for a, b in zip(got, occ)))
        h.prove("and the view is as it was", same(t, l))


def anyviews(h):
    views(h, h.choice("rule", RULES), h.int("n", 0, 40), h.bool("nested"))


def units(tier):
    us = []
    for r in RULES:
        for n in range(5 if r != "subtrees" or tier != "quick" else 4):
            us.append(Unit("%s-%d" % (r, n), views, {"rule": r, "n": n, "nested": False}, FN, level="bounded", audit=0, max_paths=200000, note="all trees of at most 4 events"))
        for n in range(3 if tier == "quick" else 4):
            us.append(Unit("%s-nested-%d" % (r, n), views, {"rule": r, "n": n, "nested": True}, FN, level="bounded", audit=0, max_paths=200000, note="all trees of at most 2 events, all views"))
    for r in RULES:
        for m in range(4):
            us += [Unit("any-%s-%d%s" % (r, m, "-nested" * n), any_size, {"rule": r, "nested": n, "m": m}, FN, max_s=120,
                        note="any number of events around %d %s" % (m, {"divide": "separators", "subtrees": "ends", "subtree": "others", "separate": "occurrences", "group": "grouped ones", "lookup": "occurrences, and any number behind"}[r])) for n in (False, True)]
    us += [Unit("edited-%d" % n, edited, {"n": n, "steps": 1}, FN, level="bounded", audit=0, max_paths=200000, note="lookups around one edit, at most 3 events") for n in range(4)]
    us += [Unit("edited-%d-twice" % n, edited, {"n": n, "steps": 2}, FN, level="bounded", audit=0, max_paths=200000, note="lookups around two edits, at most 2 events") for n in range(3)]
    us.append(Unit("edited", anyedited, {}, FN, level="bounded", audit=300 if tier == "quick" else 5000, sym=False, note="lookups around up to 6 edits of random trees"))
    us.append(Unit("large", large, {}, FN, level="bounded", audit=12 if tier == "quick" else 60, sym=False, note="trees of 1100 to 70000 events"))
    us.append(Unit("views", anyviews, {}, FN, level="bounded", audit=1500 if tier == "quick" else 20000, sym=False, note="random trees of up to 40 events"))
    return us
