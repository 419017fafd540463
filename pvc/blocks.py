"""Lists with unboundedly many records: block objects and the loop rule of construct's GreedyRange.

A payload is  PRE record POST  where PRE and POST stand for any number of records of one size.  When the record loop reaches
a block the rule jumps behind it and remembers the block in the list (induction hypothesis: every record of the block becomes
one element); the record in between, which is arbitrary, goes through the real loop body and is proved to be consumed exactly
and to become exactly one element.  When building, a block is written as it was read (hypothesis: an unedited record builds to
the bytes it was parsed from; proved for the arbitrary record by the unedited contracts)."""
import collections

from . import engine as E
from . import values as V
from .engine import Unsupported


class Recs:
    """any number of records"""

    def __init__(self, name, b, count, stride):
        self.name, self.b, self.count, self.stride = name, b, count, stride
        self.reps, self.next = None, None

    def _pv_count_(self):
        return V.wrapint(self.count)

    def _no(self, *a, **k):
        raise Unsupported("a record of an abstract block")
    __getattr__ = __getitem__ = __setitem__ = __iter__ = __contains__ = __bool__ = __len__ = __int__ = __index__ = __eq__ = __ne__ = __lt__ = __bytes__ = _no
    __hash__ = None


class Lists:
    cls = None


def block_list():
    """ListContainer whose elements may be blocks"""
    if Lists.cls is None:
        from construct import ListContainer

        class BlockList(ListContainer):
            def _find(self, i):
                c = E.ctx()
                total = count(self)
                if bool(i < 0):
                    i = i + total
                if bool(i < 0) or bool(i >= total):
                    raise IndexError("list index out of range")
                at = 0
                for q, e in enumerate(list.__iter__(self)):
                    n = e._pv_count_() if type(e) is Recs else 1
                    if bool(i < at + n):
                        if type(e) is Recs:
                            raise Unsupported("an element of an abstract block")
                        return q
                    at = at + n
                raise IndexError("list index out of range")

            def __getitem__(self, i):
                if isinstance(i, slice):
                    raise Unsupported("slice of a list with abstract blocks")
                return list.__getitem__(self, self._find(i))

            def __setitem__(self, i, v):
                if isinstance(i, slice):
                    raise Unsupported("slice of a list with abstract blocks")
                list.__setitem__(self, self._find(i), v)

            def _no(self, *a, **k):
                raise Unsupported("operation on a list with abstract blocks")
            __len__ = __delitem__ = insert = pop = remove = index = count = sort = reverse = clear = __contains__ = copy = _no
            __add__ = __iadd__ = __mul__ = __eq__ = __ne__ = __lt__ = _no
            __hash__ = None

            def __iter__(self):
                return list.__iter__(self)
        Lists.cls = BlockList
    return Lists.cls()


def raw(lst):
    return [e for e in list.__iter__(lst)]       # list() would ask for the length


def count(lst):
    n = 0
    for e in list.__iter__(lst):
        n = (e._pv_count_() if type(e) is Recs else 1) + n
    return n


def is_blocklist(x):
    return Lists.cls is not None and type(x) is Lists.cls


def at_block(s, recs):
    """the block that starts at the position of the stream"""
    c = E.ctx()
    at = 0
    for ch in s.chunks:
        if type(ch) is V.Opq and ch.base in recs and c.must(V.eq_(at, s.pos)):
            r = recs[ch.base]
            if not (c.must(V.eq_(ch.start, 0)) and c.must(V.eq_(ch.length, V.total(V.chunks_of(r.b))))):
                raise Unsupported("part of an abstract block")
            return r
        at = V.tadd(at, V.clen(ch))
    return None


def greedy(it, site, get, set_):
    """for-loop of GreedyRange._parse and _build"""
    d = get()
    c = E.CTX
    s = d.get("stream")
    if type(s) is not V.SymStream:
        return it
    if is_blocklist(d.get("obj")) and type(it) in (enumerate, Enum):
        return _build(d)
    if "obj" in d and type(it) is not enumerate:
        return _parse(it, s, get, set_)
    return it


def _parse(it, s, get, set_):
    c = E.CTX
    i, need, size, ok = 0, None, None, set()
    while True:
        r = at_block(s, c.recs)
        if r is not None:
            lst = get()["obj"]
            if not is_blocklist(lst):
                if list.__len__(lst):
                    old, lst = lst, block_list()
                    for e in old:
                        list.append(lst, e)
                else:
                    lst = block_list()
                set_({"obj": lst})
            list.append(lst, r)
            s.pos = V._simp(V.wrapint(V.tadd(s.pos, V.total(V.chunks_of(r.b)))))
            i = r._pv_count_() + i
            size = r.stride
            if size is None:             # elements of any size: the harness says how long the next one is
                size, key = r.next, r.name
            else:
                key = size
            if key in ok or size is None:
                need = None
            else:
                need = (s.pos, len(raw(lst)), size, key)
                c.recs_open.add(key)
        yield i
        if need is not None:
            c.prove("one record is consumed per step, exactly", V.cond(V.wrapint(s.pos) == V.wrapint(V.tadd(need[0], need[2]))))
            c.prove("one element per record", len(raw(get()["obj"])) == need[1] + 1)
            ok.add(need[3])
            c.recs_open.discard(need[3])
            need = None
        i = i + 1


class Many:
    """what a comprehension makes of the records of a block: one item each"""

    def __init__(self, recs):
        object.__setattr__(self, "recs", recs)

    def _pv_count_(self):
        return self.recs._pv_count_()

    def _no(self, *a, **k):
        raise Unsupported("an item of an abstract block")
    __getattr__ = __setattr__ = __getitem__ = __setitem__ = __bool__ = __eq__ = __ne__ = __len__ = __iter__ = _no
    __hash__ = None


class Enum:
    """enumerate() over a list with blocks"""

    def __init__(self, lst, start):
        self.lst, self.start = lst, start

    def _pv_comp_(self, kind, elt, cond, star):
        if cond is not None or kind == "set":
            raise Unsupported("comprehension over a list with abstract blocks")
        g = self._gen(elt, star)
        return g if kind == "gen" else [x for x in g]

    def _gen(self, elt, star):
        i = self.start
        for e in raw(self.lst):
            if type(e) is Recs:
                yield Many(e)
                i = e._pv_count_() + i
            else:
                yield elt(i, e) if star else elt((i, e))
                i = i + 1

    def _pv_loop_(self, *a):
        raise Unsupported("loop over a list with abstract blocks")

    def __iter__(self):
        raise Unsupported("iteration over a list with abstract blocks")


class Havoc:
    """some object of unknown state: what an arbitrary number of earlier iterations left behind"""

    def _some(self, *a, **k):
        return Havoc()

    def _nothing(self, *a, **k):
        return None
    __getitem__ = __getattr__ = __call__ = _some
    __setitem__ = __setattr__ = __delitem__ = _nothing

    def _no(self, *a, **k):
        raise Unsupported("depends on records of an abstract block")
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __contains__ = __index__ = __int__ = __float__ = _no
    __add__ = __radd__ = __iadd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = __bytes__ = __str__ = __repr__ = __format__ = _no
    __hash__ = None


class _Elements:
    watch = []

    def __init__(self, it):
        self.all = [e for e in raw(it) if type(e) is not Recs]

    def elements(self):
        return self.all


def over_elements(it, get, set_):
    """the pointwise rule: a block stands for any number of elements like its representatives; the body runs for each of them
    and must change nothing"""
    from . import gaps as G
    memo = E.CTX.memo
    sp = _Elements(it)
    for e in raw(it):
        if type(e) is not Recs:
            yield e
            continue
        if callable(e.reps):
            e.reps = e.reps()
        sp.all += e.reps
        for x in e.reps:
            d = get()
            st = G._state(d, sp, None)
            memo["inside"] = memo.get("inside", 0) + 1       # stays when the body leaves the loop: see engine.prove
            yield x
            memo["inside"] -= 1
            for o, old in G._changed(st):
                raise Unsupported("a loop over an abstract block changes something: %s" % type(o).__name__)
            new = get()
            set_({k: Havoc() for k, v in new.items() if not (k in d and d[k] is v) and k != "self"})


def over_records(it, site, get, set_):
    """a loop over the records in the code under test: the blocks' iterations leave everything but the list itself and the
    fields every event has in an unknown state; the body runs for the record in between from such a state"""
    if all(e.reps is not None for e in raw(it) if type(e) is Recs):
        yield from over_elements(it, get, set_)
        return
    d = get()
    me = d.get("self")
    if getattr(me, "data", None) is not it:
        raise Unsupported("loop over a list with abstract blocks")

    def havoc():
        for k, v in list(vars(me).items()):
            if k not in ("data", "value", "id", "_kwds", "_struct_size"):
                object.__setattr__(me, k, Havoc())
        set_({k: Havoc() for k in get() if k not in ("self", "__class__")})
    before = raw(it)
    keep = {k: vars(me).get(k) for k in ("data", "value", "id", "_kwds", "_struct_size")}
    for e in before:
        if type(e) is Recs:
            havoc()
        else:
            snap = dict(e) if isinstance(e, dict) else None
            yield e
            if snap is not None and not (set(snap) == set(e) and all(e[k] is snap[k] for k in snap)):
                raise Unsupported("a loop over the records changes them")
        now = raw(it)
        if len(now) != len(before) or any(a is not b for a, b in zip(now, before)) or any(vars(me).get(k) is not v for k, v in keep.items()):
            raise Unsupported("a loop over the records changes the list")


def _build(d):
    s, ret = d["stream"], d["retlist"]
    i = 0
    for e in raw(d["obj"]):
        if type(e) is Recs:
            s.write(e.b)
            ret.append(e)
            i = e._pv_count_() + i
        else:
            yield i, e
            i = i + 1


def make(h, name, stride):
    """any number of records of that size (symbolic mode)"""
    c = h.c
    k = h.z3.Int("records:" + name)
    c.add(k >= 0)
    c.add(k <= 1 << 20)
    h._in(name + ".records", lambda m, t: m.eval(t, model_completion=True).as_long(), k)
    b = V.mkbytes([V.Opq(name, 0, stride * k)])
    c.recs[name] = Recs(name, b, k, stride)
    return b, V.wrapint(k)


def elements(h, name, least):
    """any number of elements of any size, each at least that long (symbolic mode); the representatives are set by the caller"""
    c = h.c
    k, n = h.z3.Int("records:" + name), h.z3.Int("bytes:" + name)
    c.add(k >= 0)
    c.add(n >= least * k)
    c.add((k == 0) == (n == 0))
    c.add(n <= 1 << 26)
    h._in(name + ".records", lambda m, t: m.eval(t, model_completion=True).as_long(), k)
    b = V.mkbytes([V.Opq(name, 0, n)])
    c.recs[name] = r = Recs(name, b, k, None)
    return b, r
