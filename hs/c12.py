"""C12: insertions and removals are consistent across all views."""
from pvc.harness import Unit
from hs import build as B

FN = ["EventTree.__init__", "EventTree.insert", "EventTree.append", "EventTree.__iadd__", "EventTree.pop", "EventTree.remove", "EventTree._recursive",
      "EventTree.indexes", "EventTree.ids", "EventTree.__iter__", "EventTree.__len__", "EventTree.subtree", "EventTree.divide", "EventTree.group", "EventTree.separate", "EventTree.subtrees", "IndexedEvent"]
IDS = (1, 2)


class View:
    def __init__(self, tree, parent, model):
        self.t, self.parent, self.m, self.live = tree, parent, model, True

    def line(self):
        v = self
        while v is not None:
            yield v
            v = v.parent


class World:
    """the real tree and its views next to plain lists"""

    def __init__(self, h, ids):
        self.h, self.n = h, 0
        es = [self.new(i) for i in ids]
        self.root = View(B.tree(es), None, list(es))
        self.views = [self.root]

    def new(self, i):
        from pyflp._events import EventEnum, U8Event
        self.n += 1
        return U8Event(EventEnum(i), bytes([self.n % 256]))

    def view(self, of, tree):
        es = list(tree)
        self.h.prove("a view holds events of its parent", all(any(e is x for x in of.m) for e in es))
        v = View(tree, of, es)
        self.views.append(v)
        return v

    def insert(self, v, pos, e):
        """model of an insertion before the pos-th event of v (or after its last one)"""
        at = v.m[pos] if pos < len(v.m) else None
        last = v.m[-1] if v.m else None
        for w in v.line():
            if at is not None:
                k = index(w.m, at)
            elif last is not None:
                k = index(w.m, last) + 1
            else:
                k = None            # an empty view: the place in its ancestors is not specified
            if k is None:
                got = list(w.t)
                self.h.prove("the new event appears once", sum(1 for x in got if x is e) == 1)
                k = index(got, e) if any(x is e for x in got) else 0
            w.m.insert(k, e)

    def pop(self, v, e):
        for w in self.views:
            if any(x is e for x in w.m):
                if w in list(v.line()):
                    del w.m[index(w.m, e)]
                else:
                    w.live = False
        for w in self.views:            # a view derived from one that still lists a removed event
            w.live = all(x.live for x in w.line())

    def check(self, what):
        h = self.h
        for v in self.views:
            if v.live:
                got = list(v.t)
                which = "the view it was made on and its ancestors" if v is not self.root else "the project"
                h.prove("%s: same events in order" % what, len(got) == len(v.m) and all(a is b for a, b in zip(got, v.m)),
                        lambda: "%s: %r != %r" % (which, [(x.id, bytes(x)[1]) for x in got], [(x.id, bytes(x)[1]) for x in v.m]))
        pos = sorted(self.root.t.indexes)
        h.prove("%s: every event has a distinct position" % what, len(pos) == len(self.root.m))
        for v in self.views:
            if v.live and len(pos) == len(self.root.m):
                h.prove("%s: positions follow the file order" % what,
                        sorted(v.t.indexes) == sorted(pos[index(self.root.m, e)] for e in v.m))


def index(l, e):
    for i, x in enumerate(l):
        if x is e:
            return i
    return None


def mkview(h, w, of, name, kinds):
    from pyflp._events import EventEnum
    k = h.choice(name, kinds)
    t = of.t
    if k == "subtree":
        mask = [h.choice("%s.%d" % (name, i), (True, False)) for i in range(len(of.m))]
        return [w.view(of, t.subtree(lambda e: mask[index(of.m, e)]))]
    if k == "divide":
        return [w.view(of, x) for x in t.divide(EventEnum(IDS[0]), *map(EventEnum, IDS))]
    if k == "group":
        return [w.view(of, x) for x in t.group(*map(EventEnum, IDS))]
    if k == "separate":
        return [w.view(of, x) for x in t.separate(EventEnum(IDS[0]))]
    # repeated: every event with the first ID ends a view
    return [w.view(of, x) for x in t.subtrees(lambda e: e.id != IDS[0], -1)]


KINDS = ("subtree", "divide", "group", "separate", "subtrees")


def step(h, w, k, ops):
    live = [v for v in w.views if v.live]
    v = h.choice("view%d" % k, live)
    op = h.choice("op%d" % k, ops)
    t = v.t
    if op in ("insert", "append", "iadd"):
        e = w.new(h.choice("new%d" % k, IDS))
        if op == "insert":
            pos = h.choice("pos%d" % k, range(len(v.m) + 1))
            t.insert(pos, e)
        else:
            pos = len(v.m)
            if op == "append":
                t.append(e)
            else:
                t += e
        w.insert(v, pos, e)
        w.check(op)
        return
    i = h.choice("id%d" % k, IDS)
    from pyflp._events import EventEnum
    es = [e for e in v.m if e.id == i]
    nth = h.choice("nth%d" % k, range(len(es) + 1))
    if nth == len(es):
        r = h.raises(lambda: t.pop(EventEnum(i), nth), LookupError)
        h.prove("removing what is not there raises", r is not None)
        w.check("a refused removal")
        return
    if op == "pop":
        got = t.pop(EventEnum(i), nth)
        h.prove("removing returns the requested occurrence", got is es[nth])
    else:
        t.remove(EventEnum(i), nth)
    w.pop(v, es[nth])
    w.check(op)


def sequence(h, n, ops):
    w = World(h, [h.choice("e%d" % i, IDS) for i in range(n)])
    a = mkview(h, w, w.root, "a", ("subtree",))[0]
    if ops > 1:
        mkview(h, w, w.root, "c", ("divide",) if n > 2 else KINDS[1:])
    else:
        mkview(h, w, a, "b", ("subtree",))
    w.check("views")
    for k in range(ops):
        step(h, w, k, ("insert", "pop") if ops > 1 else ("insert", "append", "iadd", "pop", "remove"))


def anysequence(h):
    """long random histories"""
    w = World(h, [h.choice("e%d" % i, IDS) for i in range(h.int("n", 0, 12))])
    for k in range(h.int("steps", 1, 25)):
        if h.int("what%d" % k, 0, 5) == 0 and len(w.views) < 30:
            live = [v for v in w.views if v.live]
            mkview(h, w, h.choice("of%d" % k, live), "v%d" % k, KINDS)
            w.check("a new view")
        else:
            step(h, w, k, ("insert", "append", "iadd", "insert", "pop", "remove"))


# ---------------------------------------------------------------------------------- trees of any size
X, Y, Z = 2, 1, 3


class Any:
    """a project of any size with a chain of nested views; p is an event of all of them"""

    def __init__(self, h, depth, last, how=None):
        from pyflp._events import EventEnum, EventTree, IndexedEvent, U8Event
        from pvc import gaps
        self.h, self.depth, self.lv = h, depth, {}
        self.sp = sp = gaps.Space(h)
        self.ev = lambda i: U8Event(EventEnum(i), b"\1")
        self.n = 0

        def element(lv, i):
            self.n += 1
            r = h.number("r%d" % self.n)
            e = IndexedEvent(r, self.ev(i))
            self.lv[id(e.e)] = lv
            return e
        kinds = [(lv, i) for lv in range(depth + 1) for i in (X, Y)]
        self.A = sp.gap("A", kinds, lambda k, j: element(*k))
        self.p = element(depth, X if how is None else Z)
        self.C = sp.gap("C", [k for k in kinds if not last or k[0] < depth], lambda k, j: element(*k))
        before, after = self.reps(self.A), self.reps(self.C)
        for a in before:
            h.assume(a.r < self.p.r)
        for a in after:
            h.assume(self.p.r < a.r)
        for side in (before, after):
            for k, a in enumerate(side):
                for b in side[:k]:
                    h.assume(h.not_(a.r == b.r))
        self.all = before + [self.p] + after
        self.old = {id(x): x.r for x in self.all}
        lv = self.lv
        init = sp.parts([sp.whole(self.A), self.p, sp.whole(self.C)])
        self.chain = [EventTree(init=gaps.Vals(init, "list"))]
        for j in range(1, depth + 1):
            self.chain.append(self.chain[-1].subtree(lambda e, j=j: lv[id(e)] >= j))
        v = self.chain[-1]
        if how is not None:
            self.chain.append(only(v, how))
        self.side = [self.chain[0].subtree(lambda e: e.id == X), v.subtree(lambda e: e.id == Y)]
        sp.watch += self.chain + self.side
        self.expect({})

    def reps(self, g):
        return [r for _, rs in g.kinds.values() for r in rs]

    def count(self, g, want):
        n = 0
        for (lv, i), (c, _) in g.kinds.items():
            if want(lv, i):
                n = c + n
        return n

    def expect(self, new, what="views"):
        """every view lists what it listed, with the elements in ``new`` (position -> event) or without p"""
        h = self.h
        from pvc import gaps
        for t, chain, want in [(t, True, lambda lv, i, j=j: lv >= j) for j, t in enumerate(self.chain[:self.depth + 1])] + [(t, True, lambda lv, i: False) for t in self.chain[self.depth + 1:]] + [(self.side[0], False, lambda lv, i: i == X), (self.side[1], False, lambda lv, i: lv >= self.depth and i == Y)]:
            mid = [self.p.e] if (chain or want(self.depth, self.p.e.id)) else []
            if chain:
                mid = new.get("before", []) + ([] if new.get("gone") else mid) + new.get("after", [])
            elif new.get("gone"):
                continue             # a view beside the chain still lists a removed event
            ok, got = gaps.lists(self.sp, t, gaps.wanted(self.A, want) + mid + gaps.wanted(self.C, want))
            h.prove("%s: each view it was made on lists the same events in order" % what, ok, lambda: repr(got))

    def positions(self, what, new=None, gone=False):
        """positions are distinct and follow the file order"""
        h = self.h
        before, after = self.reps(self.A), self.reps(self.C)
        for side in (before, after):
            for k, a in enumerate(side):
                for b in side[:k]:
                    o = (self.old[id(a)], self.old[id(b)])
                    h.prove("%s: relative order of all others" % what, h.and_(h.implies(o[0] < o[1], a.r < b.r), h.implies(o[1] < o[0], b.r < a.r)))
        mid = ([] if gone else [self.p]) if new is None else new
        line = [before] + [[m] for m in mid] + [after]
        for k, xs in enumerate(line):
            for ys in line[k + 1:]:
                h.prove("%s: positions follow the file order" % what, h.and_(True, *[x.r < y.r for x in xs for y in ys]))

    def of(self, t, e):
        """the indexed event of e, as the views hold it"""
        from pvc import gaps
        from pvc.engine import Unsupported
        for v in vars(t).values():
            if isinstance(v, gaps.Vals):
                return [x for x, g in gaps._values(v.segs) if x.e is e][0]
        raise Unsupported("views do not hold the list they were given")


def only(t, how):
    """the view that lists the event with the ID that no other has"""
    from pyflp._events import EventEnum
    return [x for x in (t.separate(EventEnum(Z)) if how == "separate" else t.group(EventEnum(Z), EventEnum(9)) if how == "group" else t.divide(EventEnum(Z), EventEnum(Z)))][0]


def any_insert(h, depth, op, how=None):
    if not h.sym:
        return any_concrete(h, depth, op, how)
    w = Any(h, depth, last=op != "insert" and how is None, how=how)
    v = w.chain[-1]
    e = w.ev(h.choice("new", (X, Y)))
    at = w.count(w.A, lambda lv, i: lv >= depth) if how is None else 0
    if op == "insert":
        v.insert(at, e)
        new = {"before": [e]}
    else:
        if op == "append":
            v.append(e)
        elif op == "iadd":
            u = v
            u += e
            h.prove("the view stays itself", u is v)
        else:
            v.insert(at + 1, e)
        new = {"after": [e]}
    w.expect(new, op)
    ie = w.of(w.chain[0], e)
    w.positions(op, [ie, w.p] if op == "insert" else [w.p, ie])


def any_pop(h, depth, op, how=None):
    from pyflp._events import EventEnum
    if not h.sym:
        return any_concrete(h, depth, op, how)
    w = Any(h, depth, last=False, how=how)
    v = w.chain[-1]
    if how is not None:
        h.prove("removing returns the requested occurrence", v.pop(EventEnum(Z)) is w.p.e)
        w.expect({"gone": True}, op)
        w.positions(op, gone=True)
        return
    nth = w.count(w.A, lambda lv, i: lv >= depth and i == X)
    if op == "pop":
        h.prove("removing returns the requested occurrence", v.pop(EventEnum(X), nth) is w.p.e)
    elif op == "remove":
        v.remove(EventEnum(X), nth)
    else:
        if op == "no-such-id":
            r = h.raises(lambda: v.pop(EventEnum(Z), 0), LookupError)
        else:
            n = nth + 1 + w.count(w.C, lambda lv, i: lv >= depth and i == X)
            r = h.raises(lambda: v.pop(EventEnum(X), n), LookupError)
        h.prove("removing what is not there raises", r is not None)
        w.expect({}, "a refused removal")
        w.positions("a refused removal")
        return
    w.expect({"gone": True}, op)
    w.positions(op, gone=True)


def any_concrete(h, depth, op, how):
    """the same on a tree of given size"""
    from pyflp._events import EventEnum
    kinds = [(lv, i) for lv in range(depth + 1) for i in (X, Y)]
    sides = []
    for g in "AC":
        ks = [k for k in kinds for _ in range(min(h.number("%s.%d%d" % (g, *k)), 30))]
        if how is None and g == "C" and op not in ("insert", "pop", "remove", "no-such-id", "too-far"):
            ks = [k for k in ks if k[0] < depth]
        out = []
        for q in range(len(ks)):
            out.append(ks.pop(h.int("mix%s%d" % (g, q), 0, len(ks) - 1)))
        sides.append(out)
    all_ = sides[0] + [(depth, X if how is None else Z)] + sides[1]
    w = World(h, [i for lv, i in all_])
    lv = {id(e): k[0] for e, k in zip(w.root.m, all_)}
    v = w.root
    for j in range(1, depth + 1):
        v = w.view(v, v.t.subtree(lambda e: lv[id(e)] >= j))
    w.view(w.root, w.root.t.subtree(lambda e: e.id == X))
    p = w.root.m[len(sides[0])]
    if how is not None:
        v = w.view(v, only(v.t, how))
    at = index(v.m, p)
    if op in ("insert", "append", "iadd", "insert-end"):
        e = w.new(h.choice("new", (X, Y)))
        t = v.t
        pos = at if op == "insert" else len(v.m)
        if op == "append":
            t.append(e)
        elif op == "iadd":
            t += e
        else:
            t.insert(pos, e)
        w.insert(v, pos, e)
        w.check(op)
        return
    es = [e for e in v.m if e.id == p.id]
    if op in ("no-such-id", "too-far"):
        r = h.raises(lambda: v.t.pop(EventEnum(Z if op == "no-such-id" else X), 0 if op == "no-such-id" else len(es)), LookupError)
        h.prove("removing what is not there raises", r is not None)
        w.check("a refused removal")
        return
    nth = index(es, p)
    if op == "pop":
        h.prove("removing returns the requested occurrence", v.t.pop(EventEnum(p.id), nth) is p)
    else:
        v.t.remove(EventEnum(X), nth)
    w.pop(v, p)
    w.check(op)


def units(tier):
    us = [Unit("one-operation-%d" % n, sequence, {"n": n, "ops": 1}, FN, level="bounded", audit=0, note="at most 3 events, 3 nested views") for n in range(4 if tier == "quick" else 5)]
    us += [Unit("two-operations-%d" % n, sequence, {"n": n, "ops": 2}, FN, level="bounded", audit=0, max_paths=80000, note="at most 3 events, 2 operations") for n in range(3 if tier == "quick" else 4)]
    N2 = "one operation on a project of any size, views nested %d deep"
    for d in range(4):
        us += [Unit("any-%s-%d" % (op, d), any_insert, {"depth": d, "op": op}, FN, note=N2 % d, max_s=120) for op in ("insert", "append", "iadd", "insert-end")]
        us += [Unit("any-%s-%d" % (op, d), any_pop, {"depth": d, "op": op}, FN, note=N2 % d, max_s=120) for op in ("pop", "remove", "no-such-id", "too-far")]
    for how in ("separate", "group", "divide"):
        for d in range(3):
            us += [Unit("any-%s-%d-%s" % (op, d, how), any_insert, {"depth": d, "op": op, "how": how}, FN, note=N2 % (d + 1), max_s=120) for op in ("insert", "append")]
            us.append(Unit("any-pop-%d-%s" % (d, how), any_pop, {"depth": d, "op": "pop", "how": how}, FN, note=N2 % (d + 1), max_s=120))
    us.append(Unit("histories", anysequence, {}, FN, level="bounded", audit=1500 if tier == "quick" else 20000, sym=False, note="random histories of up to 25 operations"))
    return us
