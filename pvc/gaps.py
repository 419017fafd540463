"""Event trees of any size: a sorted list whose elements are a few explicit ones and *gaps*.

A gap stands for any number of elements lying between two explicit ones.  Its elements are of finitely many kinds (which
views list them, which ID they have); every kind has a symbolic number of elements and two arbitrary representatives with
symbolic positions.  Code acts on a gap through its representatives, which is sound because it is only allowed to act
*pointwise*: the loop rule runs the body for each representative and checks that it changes nothing but that element (and
appends at most that element to a list); comprehensions are evaluated per representative.  Everything else (which element is
the n-th, which is the first of a gap, ...) is decided from the symbolic numbers or is out of reach (undecided).

sortedcontainers.SortedList over such elements is replaced by its contract: ``add`` puts an element before the first one it
is smaller than, ``remove`` takes out the first one that is not smaller and equal, or raises ValueError."""
import builtins
import types

from . import engine as E
from . import values as V
from . import blocks
from .blocks import Havoc
from .engine import Unsupported


class Gap:
    def __init__(self, name):
        self.name = name
        self.kinds = {}          # kind -> (count, [representatives])

    def __repr__(self):
        return "<gap %s>" % self.name


class Part:
    """some kinds of a gap, with what became of their representatives: kind -> list of values"""

    def __init__(self, gap, vals):
        self.gap, self.vals = gap, vals

    def count(self):
        n = 0
        for k, vs in self.vals.items():
            c, reps = self.gap.kinds[k]
            if len(vs) != len(reps):
                raise Unsupported("an unknown number of elements of a kind")
            n = c + n
        return n

    def values(self):
        return [v for vs in self.vals.values() for v in vs]


def space():
    c = E.CTX
    if c is None:
        return None
    return c.memo.get("gaps")


class Space:
    def __init__(self, h):
        self.h, self.gaps, self.rep, self.watch, self.inside = h, [], {}, [], 0
        h.c.memo["gaps"] = self

    def gap(self, name, kinds, make):
        """kinds: list of hashable; make(kind, n) -> representative"""
        g = Gap(name)
        for k in kinds:
            n = self.h.number("%s.%s" % (name, "".join(map(str, k))))
            reps = [make(k, j) for j in (0, 1)]
            g.kinds[k] = (n, reps)
            for r in reps:
                self.rep[id(r)] = (r, g, k)
        self.gaps.append(g)
        return g

    def whole(self, g):
        return Part(g, {k: list(reps) for k, (n, reps) in g.kinds.items()})

    def done(self):
        if self.inside:
            raise Unsupported("a loop is left at an element of a gap")

    def elements(self):
        return [r for r, g, k in self.rep.values()]

    def parts(self, items):
        """plain elements, some of them representatives -> segments"""
        segs = []
        for x in items:
            if isinstance(x, Part):
                segs.append(x)
                continue
            q = self.rep.get(id(x))
            if q is None:
                segs.append(x)
                continue
            r, g, k = q
            if segs and isinstance(segs[-1], Part) and segs[-1].gap is g:
                segs[-1].vals.setdefault(k, []).append(x)
            elif any(isinstance(s, Part) and s.gap is g for s in segs):
                raise Unsupported("elements of a gap apart from each other")
            else:
                segs.append(Part(g, {k: [x]}))
        for s in segs:
            if isinstance(s, Part):
                s.count()
        return segs


def _values(segs):
    for s in segs:
        if isinstance(s, Part):
            for v in s.values():
                yield v, s.gap
        else:
            yield s, None


class Vals:
    """a list, set, or generator with gaps"""
    _pv_gap_ = True

    def __init__(self, segs, kind):
        self.segs, self.kind = segs, kind

    def _use(self):
        if self.kind == "gen":
            if self.segs is None:
                raise Unsupported("second use of a generator")
            s, self.segs = self.segs, None
            return self._clean(s)
        return self._clean(self.segs)

    def count(self):
        if self.kind == "set":
            if not any(isinstance(x, Part) for x in self._segs()):
                return len(set(self._segs()))
            distinct(self.segs)
        n = 0
        for s in self._segs():
            n = (s.count() if isinstance(s, Part) else 1) + n
        return n

    def _segs(self):
        if self.segs is None:
            raise Unsupported("second use of a generator")
        return self._clean(self.segs)

    def _clean(self, segs):
        rep = space().rep
        if any(id(s) in rep for s in segs):
            raise Unsupported("a representative outside of its gap")
        return segs

    def __len__(self):
        return self.count()

    def __bool__(self):
        if self.kind == "gen":
            return True
        if any(not isinstance(s, Part) for s in self._segs()):
            return True
        return builtins.bool(self.count() > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) or self.kind != "list":
            raise Unsupported("subscript of a list with gaps")
        segs = self._segs()
        if type(i) is int and i == -1 and segs and not isinstance(segs[-1], Part):
            return segs[-1]
        total = self.count()
        if builtins.bool(i < 0):
            i = i + total
        if builtins.bool(i < 0) or builtins.bool(i >= total):
            raise IndexError("list index out of range")
        at = 0
        for s in segs:
            n = s.count() if isinstance(s, Part) else 1
            if builtins.bool(i < at + n):
                if isinstance(s, Part):
                    raise Unsupported("an element inside a gap")
                return s
            at = at + n
        raise IndexError("list index out of range")

    def __contains__(self, x):
        for s in self._segs():
            if not isinstance(s, Part) and builtins.bool(s == x):
                return True
        for s in self._segs():
            if isinstance(s, Part):
                for k, vs in s.vals.items():
                    q = [builtins.bool(v == x) for v in vs]
                    if any(q):
                        if not all(q) or len(vs) != len(s.gap.kinds[k][1]):
                            raise Unsupported("membership in a gap")
                        if builtins.bool(s.gap.kinds[k][0] > 0):
                            return True
        return False

    def __iter__(self):
        if self.kind == "gen":
            return self
        raise Unsupported("iteration over a list with gaps")

    def __next__(self):
        """next(): the first element, and whatever follows"""
        segs = self._segs()
        while segs:
            s = segs[0]
            if not isinstance(s, Part):
                del segs[0]
                return s
            if builtins.bool(s.count() > 0):
                raise Unsupported("the first element of a gap")
            del segs[0]
        raise StopIteration

    def _no(self, *a, **k):
        raise Unsupported("operation on a list with gaps")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __iadd__ = __radd__ = __mul__ = __or__ = __and__ = __sub__ = __setitem__ = __delitem__ = __reversed__ = _no
    __hash__ = None

    def append(self, x):
        if self.kind != "list":
            raise AttributeError("append")
        self.segs = self.segs + [x]          # a representative: see loop()

    # --- comprehensions and loops
    def _pv_comp_(self, kind, elt, cond, star):
        out = []
        for s in self._use():
            if isinstance(s, Part):
                vals = {}
                for k, vs in s.vals.items():
                    got = []
                    for v in vs:
                        st = _state({"elt": elt, "cond": cond}, space(), v)
                        a = v if star else (v,)
                        if cond is None or cond(*a):
                            got.append(elt(*a))
                        for _ in _changed(st):
                            raise Unsupported("a comprehension over a gap with side effects")
                    if got:
                        if len(got) != len(s.gap.kinds[k][1]):
                            raise Unsupported("a condition that splits a kind of a gap")
                        vals[k] = got
                if vals:
                    out.append(Part(s.gap, vals))
            else:
                a = s if star else (s,)
                if cond is None or cond(*a):
                    out.append(elt(*a))
        return Vals(out, kind)

    def _pv_loop_(self, site, get, set_):
        return loop(list(_values(self._use())), get, set_)


def in_order(segs):
    """stable sort; a gap is put as a whole"""
    out = []

    def less(a, b):
        if not isinstance(a, Part) and not isinstance(b, Part):
            return builtins.bool(a < b)
        c = E.ctx()
        q = [x < y for x in (a.values() if isinstance(a, Part) else [a]) for y in (b.values() if isinstance(b, Part) else [b])]
        if all(c.must(V.cond(V.not_(x))) for x in q):
            return False
        if all(c.must(V.cond(x)) for x in q):
            return True
        raise Unsupported("order of elements with gaps")
    for s in segs:
        i = len(out)
        while i and less(s, out[i - 1]):
            i -= 1
        out.insert(i, s)
    return out


class Sorted(Vals):
    """sortedcontainers.SortedList of elements of which some are in gaps"""

    def __init__(self, segs):
        Vals.__init__(self, segs, "list")

    def add(self, x):
        """before the first element it is smaller than"""
        for i, s in enumerate(self.segs):
            if isinstance(s, Part):
                q = [builtins.bool(x < v) for v in s.values()]
                if any(q) and not all(q):
                    raise Unsupported("an element added inside a gap")
                if q and q[0]:
                    self.segs = self.segs[:i] + [x] + self.segs[i:]
                    return
            elif builtins.bool(x < s):
                self.segs = self.segs[:i] + [x] + self.segs[i:]
                return
        self.segs = self.segs + [x]

    def _find(self, x):
        for i, s in enumerate(self.segs):
            for v in (s.values() if isinstance(s, Part) else [s]):
                if builtins.bool(v < x):
                    continue
                if isinstance(s, Part):
                    if builtins.bool(v == x):
                        raise Unsupported("removing from a gap")
                    if builtins.bool(s.count() > 0):
                        return None
                    continue
                return i if builtins.bool(v == x) else None
        return None

    def remove(self, x):
        i = self._find(x)
        if i is None:
            raise ValueError("%r not in list" % (x,))
        self.segs = self.segs[:i] + self.segs[i + 1:]

    def discard(self, x):
        i = self._find(x)
        if i is not None:
            self.segs = self.segs[:i] + self.segs[i + 1:]

    def append(self, x):
        raise NotImplementedError("use ``sl.add(value)`` instead")

    def index(self, *a):
        raise Unsupported("index in a list with gaps")
    pop = insert = update = clear = bisect = bisect_left = bisect_right = count_ = copy = extend = index


def distinct(segs):
    """all values are distinct (given that representatives stand for any two elements)"""
    c = E.ctx()
    vs = list(_values(segs))
    for i, (a, _) in enumerate(vs):
        for b, _ in vs[:i]:
            if not c.must(V.cond(V.not_(a == b))):
                raise Unsupported("elements that may be equal")


def ordered(segs):
    c = E.ctx()
    last = []
    for s in segs:
        now = s.values() if isinstance(s, Part) else [s]
        for a in last:
            for b in now:
                if not c.must(V.cond(a < b)):
                    raise Unsupported("order of elements with gaps")
        last = now if now else last


def _state(d, sp, x):
    """what an iteration must leave alone"""
    out = {}
    seen = set()

    def add(o, depth):
        if id(o) in seen:
            return
        seen.add(id(o))
        t = type(o)
        if t in (list, tuple):
            out[id(o)] = (o, "list", [y for y in o])
            for y in o:
                add(y, depth - 1) if depth else None
        elif blocks.is_blocklist(o):
            out[id(o)] = (o, "blocks", blocks.raw(o))
        elif isinstance(o, dict) and (t.__module__ in ("builtins", "collections", "_collections") or t.__module__.startswith("construct")):
            out[id(o)] = (o, "dict", dict(o))
            for y in o.values():
                add(y, depth - 1) if depth else None
        elif t is set:
            out[id(o)] = (o, "set", set(o))
        elif t is types.FunctionType:
            for n, cell in enumerate(o.__closure__ or ()):
                try:
                    y = cell.cell_contents
                except ValueError:
                    continue
                out[(id(o), n)] = (cell, "cell", y)
                add(y, depth - 1) if depth else None
        elif t is types.MethodType:
            add(o.__func__, depth)
            add(o.__self__, depth)
        elif isinstance(o, Vals):
            out[id(o)] = (o, "vals", o.segs, [dict(s.vals) if isinstance(s, Part) else s for s in o.segs or ()])
        elif (getattr(t, "__module__", "") or "").startswith("pyflp") and o is not x and hasattr(o, "__dict__"):
            out[id(o)] = (o, "obj", dict(vars(o)))
            if depth:
                for y in vars(o).values():
                    add(y, depth - 1)
    for v in d.values():
        add(v, 3)
    for e in sp.elements() + sp.watch:
        add(e, 3)
    return out


def _changed(st):
    for o, what, old, *more in st.values():
        if what == "list":
            if len(o) != len(old) or any(a is not b for a, b in zip(o, old)):
                yield o, old
        elif what == "blocks":
            now = blocks.raw(o)
            if len(now) != len(old) or any(a is not b for a, b in zip(now, old)):
                yield o, None
        elif what == "dict":
            if set(o) != set(old) or any(o[k] is not old[k] for k in old):
                yield o, None
        elif what == "set":
            if o != old:
                yield o, None
        elif what == "cell":
            if o.cell_contents is not old:
                yield o, None
        elif what == "vals":
            if o.segs is not old:
                yield o, old
        elif set(vars(o)) != set(old) or any(vars(o)[k] is not old[k] for k in old):
            yield o, None


class Grow:
    """a list that a loop over a gap appends elements to: while it does, nothing else can be done with it"""

    def __init__(self, base):
        self.base, self.new, self.places = base, [], []

    def append(self, x):
        self.new.append(x)

    def _no(self, *a, **k):
        raise Unsupported("a list that grows by elements of a gap")
    __getattr__ = __getitem__ = __setitem__ = __iter__ = __contains__ = __bool__ = __len__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __iadd__ = __next__ = __index__ = __repr__ = _no
    __hash__ = None


def loop(items, get, set_):
    """the pointwise rule; items: (element, the gap it represents or None)"""
    sp = space()
    at, grown = None, []

    def settle():
        d, new = get(), {}
        for g in grown:
            names = [k for k, v in d.items() if v is g]
            if not names and not g.places or any(m.get(k) is not g for m, k in g.places):
                raise Unsupported("a list that grows by elements of a gap is lost")
            v = Vals(list(g.base) + sp.parts(g.new), "list")
            for m, k in g.places:
                m[k] = v
            new.update((k, v) for k in names)
        del grown[:]
        set_(new)
    for x, gap in items:
        if gap is not at and grown:
            settle()
        at = gap
        if gap is None:
            yield x
            continue
        d = get()
        st = _state(d, sp, x)
        sizes = [(g, len(g.new)) for g in grown]
        sp.inside += 1           # left for good when the body leaves the loop
        yield x
        sp.inside -= 1
        new, put = get(), {}
        for g, n in sizes:
            if len(g.new) > n + 1 or (len(g.new) == n + 1 and g.new[-1] is not x):
                raise Unsupported("a loop over a gap appends more than its element")
        for o, old in _changed(st):
            base = None
            if type(o) is list and old is not None and len(o) == len(old) + 1 and all(a is b for a, b in zip(o, old)) and o[-1] is x:
                base = list(old)
            elif isinstance(o, Vals) and old is not None and o.kind == "list" and not isinstance(o, Sorted) and len(o.segs) == len(old) + 1 and all(a is b for a, b in zip(o.segs, old)) and o.segs[-1] is x:
                base = list(old)
            names = [k for k, v in new.items() if v is o]
            held = [q for q in st.values() if q[0] is not o and any(y is o for y in _held(q))]
            places = [(q[0], k) for q in held if q[1] == "dict" for k, v in q[2].items() if v is o]
            if base is None or not (names or places) or len(places) != len(held):
                raise Unsupported("a loop over a gap changes more than its element: %s" % type(o).__name__)
            g = Grow(base)
            g.new.append(x)
            g.places = places
            for m, k in places:
                m[k] = g
            grown.append(g)
            put.update((k, g) for k in names)
        put.update((k, Havoc()) for k, v in new.items() if not (k in d and d[k] is v) and k != "self")
        set_(put)
    if grown:
        settle()


def _held(q):
    """what a remembered thing refers to"""
    o, what, old = q[:3]
    if what == "cell":
        return [old]
    if what in ("dict", "obj"):
        return list(old.values())
    if what == "vals":
        return [y for y, _ in _values(old or ())]
    return list(old)


def lists(sp, got, exp):
    """a view iterates over exp: explicit events, and (gap, kind -> events of its representatives)"""
    sp.done()
    if not isinstance(got, Vals):
        it = iter(got)
        if not isinstance(it, Vals):
            it = [e for e in it]
            if any(e is r.e for e in it for r in sp.elements()):
                raise Unsupported("elements of a gap outside of it")
            it = Vals(it, "list")
        got = it
    g, n = list(got._use()), 0
    for b in exp:
        if n == len(g) or not (isinstance(b, tuple) and isinstance(g[n], Part) and g[n].gap is b[0] or g[n] is b):
            # missing: right only if there are no such elements
            if isinstance(b, tuple) and E.ctx().must(V.cond(V.and_(True, *[b[0].kinds[k][0] == 0 for k in b[1]]))):
                continue
            return False, g
        a = g[n]
        n += 1
        if isinstance(a, Part):
            if set(a.vals) != set(b[1]) or not all(len(a.vals[k]) == len(v) and all(any(x is y for y in v) for x in a.vals[k]) for k, v in b[1].items()):
                return False, g
    return n == len(g), g


def wanted(g, want):
    """the part of a gap with the kinds that ``want``, for lists()"""
    ks = {k: [r.e for r in rs] for k, (n, rs) in g.kinds.items() if want(*k)}
    return [(g, ks)] if ks else []


# ------------------------------------------------------------------------------------------------ builtins
def involved(a):
    for x in a:
        if getattr(type(x), "_pv_gap_", False):
            return True
    return False


def tree_iter(x):
    """the values a Python-level __iter__ returns, if they have gaps"""
    m = getattr(type(x), "__iter__", None)
    if m is None or getattr(type(x), "_pv_gap_", False) or not (getattr(type(x), "__module__", "") or "").startswith("pyflp"):
        return None
    r = m(x)
    return r if getattr(type(r), "_pv_gap_", False) else _Iter(r)


class _Iter:
    def __init__(self, it):
        self.it = it


def unwrap(x):
    r = tree_iter(x)
    if r is None:
        return x
    return r.it if type(r) is _Iter else r


def _enumerate(x, at):
    """(n, element): an element of a gap has an unknown place within it"""
    h, out = space().h, []
    for s in x._use():
        if not isinstance(s, Part):
            out.append((at, s))
            at = at + 1
            continue
        n = s.count()
        if not builtins.bool(n > 0):
            continue
        vals = {}
        for kind, vs in s.vals.items():
            if not builtins.bool(s.gap.kinds[kind][0] > 0):
                continue
            vals[kind] = []
            for v in vs:
                i = h.number("%s.place%d" % (s.gap.name, len(h.c.inputs)))
                h.assume(i >= at)
                h.assume(i < at + n)
                vals[kind].append((i, v))
        out.append(Part(s.gap, vals))
        at = at + n
    return Vals(out, "gen")


NO = object()


def call(f, a, k):
    """builtins over values with gaps; NO if this call has none"""
    from sortedcontainers import SortedList
    sp = space()
    if f is SortedList and len(a) == 1 and not k:
        if involved(a):
            return Sorted(in_order(a[0]._use()))
        if type(a[0]) in (list, tuple):
            return Sorted(in_order(sp.parts(a[0])))
        return NO
    if not a:
        return NO
    if f in (list, tuple, set, frozenset, sorted, any, all, sum, iter, next, min, max, enumerate, zip, reversed, len) and not involved(a):
        b = tuple(unwrap(x) for x in a)
        if not involved(b):
            return NO if all(x is y for x, y in zip(a, b)) or f is len else f(*b, **k)
        a = b if f is not len else a
    if not involved(a):
        return NO
    x = a[0]
    if f is len:
        return x.count()
    if f in (list, tuple):
        return Vals(list(x._use()), "list")
    if f in (set, frozenset):
        return Vals(list(x._use()), "set")
    if f is iter and len(a) == 1:
        return x if x.kind == "gen" else Vals(list(x._segs()), "gen")
    if f is next:
        try:
            return x.__next__()
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise
    if f is bool:
        return x.__bool__()
    if f is sorted and not k:
        segs = list(x._use())
        if x.kind == "set":
            distinct(segs)
        ordered(segs)
        return Vals(segs, "list")
    if f is sum and len(a) == 1:
        n = 0
        for s in x._use():
            if isinstance(s, Part):
                s.count()
                for kind, vs in s.vals.items():
                    if any(type(v) not in (int, bool) or v != vs[0] for v in vs):
                        raise Unsupported("sum over a gap")
                    n = s.gap.kinds[kind][0] * int(vs[0]) + n
            else:
                n = n + s
        return n
    if f in (any, all):
        want = f is any
        for s in x._use():
            if isinstance(s, Part):
                for kind, vs in s.vals.items():
                    q = [builtins.bool(v) is want for v in vs]
                    if any(q):
                        if not all(q):
                            raise Unsupported("any() over a gap")
                        if builtins.bool(s.gap.kinds[kind][0] > 0):
                            return want
            elif builtins.bool(s) is want:
                return want
        return not want
    if f is enumerate and x.kind in ("list", "gen") and not k:
        return _enumerate(x, a[1] if len(a) > 1 else 0)
    if f in (isinstance, type, id, callable, getattr, hasattr, repr, str, setattr) or (isinstance(f, type) and f.__module__.startswith("pyflp")):
        return NO
    if not any(isinstance(s, Part) for y in a if isinstance(y, Vals) for s in y._segs()):
        return f(*[y if not isinstance(y, Vals) else iter(y._use()) if y.kind == "gen" else y._use() for y in a], **k)
    raise Unsupported("%s of values with gaps" % getattr(f, "__name__", f))
