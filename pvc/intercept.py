"""Models of the C-level functions the code under test calls (everything else is executed as is).

``call`` is what every call expression of the instrumented code goes through.  A call of a C-level function with a
symbolic argument needs a handler here (or is on the list of functions that only move references around); otherwise
the path is *undecided*, never silently wrong."""
import builtins
import enum
import functools
import io
import itertools
import math
import operator
import struct
import types

from . import engine as E
from .engine import z3, Unsupported
from . import blocks, gaps, values as V
from .values import (Sym, SymBool, SymInt, SymFlag, SymEnum, SymBytes, SymByteArray, SymStr, SymFloat, SymStream,
                     Tab, IntStr, _SymTagged)

_CODE = types.CodeType
H = {}            # id(callable) -> handler
_KEEP = []
TRUSTED = {       # C-level functions with a model in this file (reported in the evidence)
    "len": "length", "struct.pack/unpack": "little endian two's complement, range check -> struct.error",
}


def handler(*fs):
    def deco(g):
        for f in fs:
            H[id(f)] = g
            _KEEP.append(f)
        return g
    return deco


def _any_sym(a, k):
    for x in a:
        if isinstance_sym(x):
            return True
    if k:
        for x in k.values():
            if isinstance_sym(x):
                return True
    return False


def isinstance_sym(x):
    return issubclass(type(x), Sym)


def deep_sym(x, d=2):
    if issubclass(type(x), Sym):
        return True
    if d and type(x) in (list, tuple):
        return any(deep_sym(y, d - 1) for y in x)
    return False


# functions which only pass references around / call back into instrumented code or Sym methods
_PASS_CLASSES = {list, tuple, enumerate, zip, map, filter, reversed, itertools.chain, itertools.count, itertools.islice,
                 itertools.repeat, itertools.zip_longest, itertools.takewhile, itertools.dropwhile, slice, dict, set, frozenset,
                 types.MethodType, property, staticmethod, classmethod, types.SimpleNamespace}
_PASS_FUNCS = {id(f) for f in (iter, next, setattr, getattr, hasattr, isinstance, issubclass, id, callable, repr,
                               object.__setattr__, operator.itemgetter, operator.attrgetter, sorted, any, all, print, hash,
                               operator.index, vars,
                               operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge, operator.add, operator.sub,
                               operator.mul, operator.and_, operator.or_, operator.xor, operator.lshift, operator.rshift,
                               operator.floordiv, operator.mod, operator.neg, operator.invert, operator.is_, operator.is_not,
                               operator.iand, operator.ior, operator.ixor, operator.iadd, operator.isub)}
_KEEP.extend([iter, next])
_PASS_SELF = (list, dict, set, frozenset, tuple, types.GeneratorType, type(iter([])), type(iter(())), types.MappingProxyType)


def call(f, *a, **k):
    t = type(f)
    if E.CTX is not None and "gaps" in E.CTX.memo and t is not types.FunctionType and t is not types.MethodType:
        r = gaps.call(f, a, k)
        if r is not gaps.NO:
            return r
    if t is types.FunctionType:
        if type(f.__code__) is _CODE:
            h = H.get(id(f))
            if h is not None:
                return h(f, a, k)
            return f(*a, **k)
    elif t is types.MethodType:
        fn = f.__func__
        code = getattr(fn, "__code__", None)
        if type(code) is _CODE:
            h = H.get(id(fn))
            if h is not None:
                return h(f, a, k)
            return f(*a, **k)
        return call_cmethod(f, a, k)
    h = H.get(id(f))
    if h is not None:
        return h(f, a, k)
    if issubclass(t, type):
        return call_class(f, a, k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **dict(f.keywords, **k))
    if E.CTX is None or not _any_sym(a, k):
        return f(*a, **k)
    if id(f) in _PASS_FUNCS:
        return f(*a, **k)
    code = getattr(f, "__code__", None)
    if code is not None and type(code) is not _CODE:
        raise Unsupported("C function %s with a symbolic argument" % getattr(f, "__name__", f))
    return f(*a, **k)         # instance with a Python-level __call__


def call_class(cls, a, k):
    if E.CTX is None:
        return cls(*a, **k)
    if cls in _PASS_CLASSES:
        return cls(*a, **k)
    if not _any_sym(a, k):
        return cls(*a, **k)
    if issubclass(cls, enum.Enum) and len(a) == 1 and not k and isinstance(a[0], int):
        return V.sym_enum(cls, V.as_int(a[0]) if type(a[0]) is SymBool else a[0])
    if issubclass(cls, int) and len(a) == 1 and not k and isinstance(a[0], int) and cls.__new__ is int.__new__ \
            and cls.__init__ is object.__init__:
        return V.as_int(a[0])         # int subclass without behaviour of its own
    mod = getattr(cls, "__module__", "") or ""
    top = mod.split(".")[0]
    if top in ("pyflp", "construct", "construct_typed", "hs", "pvc", "spec", "collections", "sortedcontainers", "typing"):
        return cls(*a, **k)
    if issubclass(cls, BaseException):
        return cls(*a, **k)
    raise Unsupported("class %s with a symbolic argument" % cls.__name__)


_CM = {}


def cmethod(cls, *names):
    def deco(g):
        for n in names:
            _CM[(cls, n)] = g
        return g
    return deco


def call_cmethod(f, a, k):
    if E.CTX is None:
        return f(*a, **k)
    s = f.__self__
    name = getattr(f, "__name__", None)
    t = type(s)
    if t is type:
        g = _CM.get((s, name))
    else:
        g = _CM.get((t, name))
    if g is not None:
        return g(s, f, a, k)
    if isinstance_sym(s):
        return f(*a, **k)
    if isinstance(s, _PASS_SELF) or isinstance(s, BaseException):
        return f(*a, **k)
    if not _any_sym(a, k) and not any(deep_sym(x) for x in a):
        return f(*a, **k)
    raise Unsupported("C method %s.%s with a symbolic argument" % (t.__name__, name))


# ------------------------------------------------------------------------------------------------ builtins
@handler(len)
def _len(f, a, k):
    x = a[0]
    if isinstance_sym(x):
        if hasattr(type(x), "length"):
            return x.length()
        if type(x) is Tab:
            return x.map(len)
        raise TypeError("object of type %r has no len()" % x.__class__.__name__)
    if type(x) is list and E.CTX is not None and (E.CTX.blocks or E.CTX.recs):
        n = [e._pv_count_() for e in x if hasattr(type(e), "_pv_count_")]
        if n:
            r = len(x) - len(n)
            for t in n:
                r = t + r
            return r
    if E.CTX is not None and E.CTX.recs:
        if getattr(type(x), "__len__", None) is collections.UserList.__len__:
            x = x.data
        if blocks.is_blocklist(x):
            return blocks.count(x)
    m = getattr(type(x), "__len__", None)
    code = getattr(m, "__code__", None)
    if type(code) is _CODE:
        return m(x)           # a Python __len__ may return a symbolic int
    return len(*a, **k)


@handler(type)
def _type(f, a, k):
    if len(a) == 1 and isinstance_sym(a[0]):
        return a[0].__class__
    return type(*a, **k)


@handler(bytes)
def _bytes(f, a, k):
    if E.CTX is None or not a or k or len(a) > 1:
        if a and isinstance_sym(a[0]) and isinstance(a[0], str):
            return a[0].encode(*a[1:], **k)
        return bytes(*a, **k)
    x = a[0]
    if isinstance_sym(x):
        if type(x) is SymBytes:
            return x
        if type(x) is SymByteArray:
            return x.frozen()
        if isinstance(x, int):
            return bytes(x.conc())
        raise Unsupported("bytes() of %s" % type(x).__name__)
    m = getattr(type(x), "__bytes__", None)
    if m is not None and type(getattr(m, "__code__", None)) is _CODE:
        return m(x)
    if isinstance(x, (bytes, bytearray, memoryview, int, str)):
        return bytes(x)
    items = list(x)
    if not any(isinstance_sym(i) for i in items):
        return bytes(items)
    out = []
    for i in items:
        if type(i) is Tab:
            i = _tab_bytes(i)
            out.extend(i)
            continue
        if not isinstance(i, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(i).__name__)
        out.extend(V.encode_int(i, 1, False, lambda: ValueError("bytes must be in range(0, 256)")))
    return V.mkbytes([out])


def _tab_bytes(t):
    raise Unsupported("bytes of a table")


@handler(bytearray)
def _bytearray(f, a, k):
    if E.CTX is None or len(a) > 1 or k:
        return bytearray(*a, **k)
    if not a:
        return SymByteArray()
    if isinstance(a[0], int) and not isinstance_sym(a[0]):
        return SymByteArray([[0] * a[0]])
    b = _bytes(bytes, a, k)
    return SymByteArray(V.chunks_of(b))


@handler(int)
def _int(f, a, k):
    if not a or not isinstance_sym(a[0]):
        return int(*a, **k)
    x = a[0]
    if type(x) is SymBool:
        return V.as_int(x)
    if isinstance(x, _SymTagged):
        return SymInt(x.t)
    if type(x) is SymInt:
        return x
    if type(x) is Tab:
        return x.map(int)
    if type(x) is SymStr:
        if len(x.parts) == 1 and isinstance(x.parts[0], IntStr):
            return x.parts[0].v
        if len(x.parts) == 1 and getattr(x.parts[0], "nondigit", False):
            raise ValueError("invalid literal for int()")
        raise Unsupported("int() of symbolic text")
    if type(x) is SymFloat:
        raise Unsupported("int() of symbolic float")
    if isinstance(x, (bytes, bytearray)):
        raise Unsupported("int() of bytes")
    raise TypeError("int() argument")


@handler(bool)
def _bool(f, a, k):
    if a and isinstance_sym(a[0]):
        x = a[0]
        if type(x) is SymBool:
            return x
        if isinstance(x, int):
            return V.not_(x == 0)
        if type(x) is Tab:
            return x.map(bool)
        return bool(x)
    return bool(*a, **k)


@handler(float)
def _float(f, a, k):
    if a and isinstance_sym(a[0]):
        x = a[0]
        if type(x) is SymFloat:
            return x
        if isinstance(x, int):
            x = V.as_int(x)
            if isinstance(x, SymInt):
                lo, hi = V.domain(x)
                if hi - lo + 1 > V.MAX_TAB:
                    if not E.CTX.fork(V.cond(V.and_(x < 1 << 1023, x > -(1 << 1023)))):
                        raise Unsupported("float() of a huge int")
                    return V.BigFloat(x)
                return V.tab(x).map(float)
            return float(x)
        if type(x) is V.BigFloat:
            return x
        if type(x) is Tab:
            return x.map(float)
        raise Unsupported("float() of %s" % type(x).__name__)
    return float(*a, **k)


@handler(str)
def _str(f, a, k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and isinstance_sym(a[0]) and isinstance(a[0], (bytes, bytearray)):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def to_str(x):
    if isinstance_sym(x):
        if type(x) is SymStr:
            return x
        if type(x) is SymInt:
            if bool(x < 0):
                return SymStr(["-", IntStr(-x)])
            return SymStr([IntStr(x)])
        if type(x) is Tab:
            return x.map(str)
        return repr(x)
    m = getattr(type(x), "__str__", None)
    if m is not None and type(getattr(m, "__code__", None)) is _CODE:
        return m(x)
    return str(x)


@handler(abs)
def _abs(f, a, k):
    return a[0].__abs__() if isinstance_sym(a[0]) else abs(*a)


@handler(round)
def _round(f, a, k):
    if isinstance_sym(a[0]):
        return a[0].__round__(*a[1:])
    return round(*a, **k)


@handler(divmod)
def _divmod(f, a, k):
    if _any_sym(a, k):
        x, y = a
        if type(x) is Tab or type(y) is Tab:
            return (x // y, x % y)
        return V.mksym(x)._divmod(y) if not isinstance_sym(x) else x._divmod(y)
    return divmod(*a)


def _minmax(a, k, less):
    key = k.get("key")
    if len(a) == 1:
        items = list(a[0])
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("arg is an empty sequence")
    else:
        items = list(a)
    if not any(deep_sym(i) for i in items) and not key:
        return None, items, False
    best = items[0]
    for x in items[1:]:
        u, v = (key(x), key(best)) if key else (x, best)
        c = less(u, v)
        if not key and (V.is_num(x) and V.is_num(best)):
            best = V.ite(c, x, best)
        elif type(x) is Tab or type(best) is Tab:
            best = _tabsel(x, best, less)
        else:
            best = x if c else best
    return best, items, True


def _tabsel(x, y, less):
    t = x if type(x) is Tab else y
    f = (lambda p, q: p if less(p, q) else q)
    if type(x) is Tab:
        return x._bin(y, f)
    return y._bin(x, lambda q, p: f(p, q))


@handler(min)
def _min(f, a, k):
    if E.CTX is None:
        return min(*a, **k)
    r = _minmax(a, k, lambda x, y: x < y)
    if isinstance(r, tuple) and len(r) == 3 and isinstance(r[1], list):
        return r[0] if r[2] else min(r[1], **{q: w for q, w in k.items() if q == "key"})
    return r


@handler(max)
def _max(f, a, k):
    if E.CTX is None:
        return max(*a, **k)
    r = _minmax(a, k, lambda x, y: x > y)
    if isinstance(r, tuple) and len(r) == 3 and isinstance(r[1], list):
        return r[0] if r[2] else max(r[1], **{q: w for q, w in k.items() if q == "key"})
    return r


@handler(sum)
def _sum(f, a, k):
    r = a[1] if len(a) > 1 else 0
    if E.CTX is None:
        return sum(*a, **k)
    for x in a[0]:
        r = r + x
    return r


@handler(enumerate)
def _enumerate(f, a, k):
    if E.CTX is not None and E.CTX.recs:
        x = a[0].data if isinstance(a[0], collections.UserList) else a[0]
        if blocks.is_blocklist(x):
            return blocks.Enum(x, a[1] if len(a) > 1 else k.get("start", 0))
    return enumerate(*a, **k)


@handler(map)
def _map(f, a, k):
    if E.CTX is None or type(a[0]) is types.FunctionType and type(a[0].__code__) is _CODE:
        return map(*a, **k)
    return map(lambda *x: call(a[0], *x), *a[1:])


@handler(filter)
def _filter(f, a, k):
    if E.CTX is None or a[0] is None or type(a[0]) is types.FunctionType and type(a[0].__code__) is _CODE:
        return filter(*a, **k)
    return filter(lambda x: call(a[0], x), a[1])


@handler(functools.reduce)
def _reduce(f, a, k):
    it = iter(a[1])
    r = a[2] if len(a) > 2 else next(it)
    for x in it:
        r = call(a[0], r, x)
    return r


@handler(range)
def _range(f, a, k):
    if _any_sym(a, k):
        return range(*[x.conc() if isinstance_sym(x) else x for x in a])
    return range(*a)


@handler(ord)
def _ord(f, a, k):
    x = a[0]
    if isinstance_sym(x):
        if type(x) is Tab:
            return x.map(ord)
        if isinstance(x, (bytes, bytearray)):
            return x[0]
        raise Unsupported("ord of symbolic text")
    return ord(*a)


@handler(chr)
def _chr(f, a, k):
    x = a[0]
    if isinstance_sym(x):
        if type(x) is Tab:
            return x.map(chr)
        return V.tab(x).map(chr)
    return chr(*a)


@handler(memoryview)
def _memoryview(f, a, k):
    if _any_sym(a, k):
        return a[0]
    return memoryview(*a)


@handler(hex, bin, oct, format, ascii)
def _fmt(f, a, k):
    if _any_sym(a, k):
        return "<symbolic>"
    return f(*a, **k)


@handler(repr)
def _repr(f, a, k):
    return repr(*a)


@handler(io.BytesIO)
def _bytesio(f, a, k):
    if E.CTX is None:
        return io.BytesIO(*a, **k)
    return SymStream(*a, **k)


# ------------------------------------------------------------------------------------------------ int/bytes/str methods
@cmethod(int, "from_bytes")
def _from_bytes(s, f, a, k):
    b = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = k.get("signed", False)
    if not isinstance_sym(b):
        if not deep_sym(b):
            return f(*a, **k)
    v = V.vec(b)
    if v is None:
        raise Unsupported("from_bytes of unbounded bytes")
    return V.decode_int(v if order == "little" else v[::-1], signed)


@cmethod(bytes, "join")
def _bjoin(s, f, a, k):
    items = list(a[0])
    if not any(isinstance_sym(i) for i in items):
        return s.join(items)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(V.chunks_of(s))
        out.extend(V.chunks_of(x))
    return V.mkbytes(out)


@cmethod(str, "join")
def _sjoin(s, f, a, k):
    items = list(a[0])
    if not any(isinstance_sym(i) for i in items):
        return s.join(items)
    r = ""
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance" % i)
        if i and s:
            r = r + s
        r = r + x
    return r


@cmethod(str, "format")
def _sformat(s, f, a, k):
    if not _any_sym(a, k):
        return s.format(*a, **k)
    import string
    parts = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if name is None:
            continue
        if name == "":
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        elif name.isidentifier():
            v = k[name]
        else:
            raise Unsupported("format field %r" % name)
        parts.append((v, {"r": 114, "s": 115, None: -1}.get(conv, -1), spec or ""))
    return fstr(*parts)


# ------------------------------------------------------------------------------------------------ struct
_SIZES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
          "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _fmt_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "<"
    native = True
    if fmt and fmt[0] in "<>=!@":
        order = fmt[0]
        native = order == "@"
        order = {"=": "<", "@": "<", "!": ">"}.get(order, order)
        fmt = fmt[1:]
    items = []
    num = ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        num = ""
        if ch == "s":
            items.append(("s", n))
        elif ch == "x":
            items.append(("x", n))
        else:
            items.extend([(ch, 1)] * n)
    if native:
        # native alignment: pad like the C compiler; verify against calcsize
        out = []
        off = 0
        for ch, n in items:
            if ch in _SIZES and ch not in "lL":
                al = _SIZES[ch][0]
            elif ch in "fd":
                al = 4 if ch == "f" else 8
            elif ch == "?":
                al = 1
            else:
                al = 1
            if ch in "lL":
                raise Unsupported("native long")
            pad = -off % al
            if pad:
                out.append(("x", pad))
            out.append((ch, n))
            off += pad + (n if ch in "sx" else al)
        items = out
    return order, items


def _isz(ch, n):
    if ch in "sx":
        return n
    if ch in _SIZES:
        return _SIZES[ch][0]
    return {"f": 4, "d": 8, "?": 1, "c": 1, "e": 2}[ch]


def s_unpack(fmt, data):
    order, items = _fmt_items(fmt)
    need = struct.calcsize(fmt)
    got = data.length() if isinstance_sym(data) else len(data)
    if got != need:
        raise struct.error("unpack requires a buffer of %d bytes" % need)
    v = V.vec(data)
    if v is None:
        v = [V.bterm(x) if isinstance(x, int) and not isinstance_sym(x) else (x.t if False else x) for x in _elems(data, need)]
    out = []
    off = 0
    for ch, n in items:
        sz = _isz(ch, n)
        el = v[off:off + sz]
        off += sz
        if order == ">":
            if ch not in "sx":
                el = el[::-1]
        if ch == "x":
            continue
        if ch == "s" or ch == "c":
            out.append(V.mkbytes([el]))
        elif ch == "?":
            out.append(V.not_(V.decode_int(el, False) == 0))
        elif ch in "fd":
            if all(isinstance(b, int) for b in el):
                out.append(struct.unpack("<" + ch, bytes(el))[0])
            else:
                out.append(mkfloat(ch, el))
        else:
            out.append(V.decode_int(el, _SIZES[ch][1]))
    return tuple(out)


def _elems(data, need):
    out = []
    for c in data.chunks:
        if isinstance(c, list):
            out.extend(c)
        elif isinstance(c, V.Opq):
            n = c.length if isinstance(c.length, int) else SymInt(c.length).conc()
            out.extend(c.elem(i) for i in range(n))
        else:
            n = c.length
            if not E.CTX.must(V.eq_(n, 0)):
                raise Unsupported("unpack of encoded text")
    if len(out) != need:
        raise Unsupported("unpack: length")
    return out


def mkfloat(ch, el):
    key = ch + ":" + ",".join(str(b if isinstance(b, int) else z3.simplify(b)) for b in el)
    return SymFloat(key, (ch, list(el)))


def s_pack(fmt, args):
    order, items = _fmt_items(fmt)
    nargs = sum(1 for ch, _ in items if ch != "x")
    if len(args) != nargs:
        raise struct.error("pack expected %d items for packing (got %d)" % (nargs, len(args)))
    out = []
    it = iter(args)
    for ch, n in items:
        if ch == "x":
            out.extend([0] * n)
            continue
        v = next(it)
        if not isinstance_sym(v):
            b = list(struct.pack(order + (("%ds" % n) if ch == "s" else ch), v))
        else:
            b = _pack1(ch, n, v)
            if order == ">" and ch not in "s":
                b = b[::-1]
        out.extend(b)
    return V.mkbytes([out])


def _pack1(ch, n, v):
    if ch == "s":
        if not isinstance(v, (bytes, bytearray)):
            raise struct.error("argument for 's' must be a bytes object")
        w = V.vec(v)
        if w is None:
            raise Unsupported("pack of unbounded bytes")
        return (w + [0] * n)[:n]
    if ch == "?":
        return V.encode_int(V.as_int(V.not_(v == 0)), 1, False, lambda: struct.error("bool"))
    if ch in "fd":
        if type(v) is SymFloat:
            if v.src and v.src[0] == ch:
                return list(v.src[1])
            key = "pack%s(%s)" % (ch, v.key)
            a = z3.Array("fpack:" + key, z3.IntSort(), z3.BitVecSort(8))
            return [z3.Select(a, z3.IntVal(i)) for i in range(4 if ch == "f" else 8)]
        if type(v) is Tab or isinstance(v, int):
            t = V.tab(V.as_int(v)) if type(v) is not Tab else v
            bs = t.map(lambda x: int.from_bytes(struct.pack("<" + ch, x), "little"))
            if type(bs) is Tab:
                key = "packtab%s(%d)" % (ch, id(bs))
                raise Unsupported("packing a float table")
            return V.encode_int(bs, 4 if ch == "f" else 8, False, lambda: struct.error("float"))
        raise struct.error("required argument is not a float")
    if type(v) is SymFloat or (type(v) is Tab and isinstance(v.vals[0], float)):
        raise struct.error("required argument is not an integer")
    if type(v) is Tab:
        raise Unsupported("packing a table of integers")
    if not isinstance(v, int):
        raise struct.error("required argument is not an integer")
    sz, signed = _SIZES[ch]
    return V.encode_int(v, sz, signed, lambda: struct.error("argument out of range"))


@handler(struct.unpack)
def _sunpack(f, a, k):
    if isinstance_sym(a[1]):
        return s_unpack(a[0], a[1])
    return struct.unpack(*a)


@handler(struct.pack)
def _spack(f, a, k):
    if _any_sym(a, k):
        return s_pack(a[0], a[1:])
    return struct.pack(*a)


@handler(struct.unpack_from)
def _sunpackfrom(f, a, k):
    if _any_sym(a, k):
        off = a[2] if len(a) > 2 else k.get("offset", 0)
        n = struct.calcsize(a[0])
        d = a[1][off:off + n]
        return s_unpack(a[0], d)
    return struct.unpack_from(*a, **k)


@handler(struct.pack_into, struct.iter_unpack)
def _sother(f, a, k):
    if _any_sym(a, k):
        raise Unsupported("struct function")
    return f(*a, **k)


@cmethod(struct.Struct, "pack")
def _Spack(s, f, a, k):
    if any(isinstance_sym(x) for x in a):
        return s_pack(s.format, a)
    return f(*a)


@cmethod(struct.Struct, "unpack")
def _Sunpack(s, f, a, k):
    if isinstance_sym(a[0]):
        return s_unpack(s.format, a[0])
    return f(*a)


@cmethod(struct.Struct, "unpack_from")
def _Sunpackfrom(s, f, a, k):
    if any(isinstance_sym(x) for x in a):
        off = a[1] if len(a) > 1 else k.get("offset", 0)
        return s_unpack(s.format, a[0][off:off + s.size])
    return f(*a, **k)


# ------------------------------------------------------------------------------------------------ math
def _mathf(name):
    g = getattr(math, name)

    @handler(g)
    def _m(f, a, k, g=g, name=name):
        if not _any_sym(a, k):
            return g(*a, **k)
        x = a[0]
        if len(a) == 1:
            if isinstance(x, int) and isinstance_sym(x):
                if name in ("floor", "ceil", "trunc"):
                    return V.as_int(x)
                return V.tab(V.as_int(x)).map(g)
            if type(x) is Tab:
                return x.map(g)
        elif len(a) == 2 and type(x) is Tab and not isinstance_sym(a[1]):
            return x.map(lambda v: g(v, a[1]))
        raise Unsupported("math.%s" % name)


for _n in ("floor", "ceil", "trunc", "log2", "log", "log10", "pow", "sqrt", "exp", "isnan", "isinf", "isfinite", "fabs", "modf", "isclose", "ldexp", "frexp", "fmod", "copysign"):
    if hasattr(math, _n):
        _mathf(_n)


# ------------------------------------------------------------------------------------------------ syntax helpers
def ifexp(test, a, b):
    """``a if test else b`` with literal branches: merged instead of forked."""
    if issubclass(type(test), Sym):
        if type(test) is not SymBool:
            test = _bool(bool, (test,), {})
        if type(test) is SymBool:
            if type(a) is type(b) and (isinstance(a, (bool, int)) or (isinstance(a, bytes) and len(a) == len(b))):
                return V.ite(test, a, b)
        return a if test else b
    return a if test else b


def fstr(*parts):
    out = []
    sym = None
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance_sym(v):
            if conv == 114 or conv == 97 or spec:
                out.append(repr(v))
            else:
                out.append(to_str(v))
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 97:
                v = ascii(v)
            elif conv == 115 or (not spec and type(getattr(type(v), "__str__", None)) is types.FunctionType
                                 and not hasattr(type(v), "__format__") ):
                v = to_str(v)
            if isinstance_sym(v):
                out.append(v)
            else:
                out.append(format(v, spec))
    r = ""
    tabs = [x for x in out if type(x) is Tab]
    if tabs:
        t = None
        for x in out:
            if t is None:
                t = x if type(x) is Tab else x
            elif type(x) is Tab or type(t) is Tab:
                t = _strcat(t, x)
            else:
                t = t + x
        return t
    for x in out:
        r = r + x if r else x
    return r


def _strcat(a, b):
    if type(a) is Tab:
        if not isinstance_sym(b):
            return a.map(lambda v: v + b)
        return a._bin(b, lambda x, y: x + y) if type(b) is Tab else _unsup()
    if type(b) is Tab and not isinstance_sym(a):
        return b.map(lambda v: a + v)
    _unsup()


def _unsup():
    raise Unsupported("text concatenation")


def strmod(s, o):
    if not isinstance(s, str) or isinstance_sym(s):
        return s % o
    args = o if isinstance(o, tuple) else (o,)
    if not any(isinstance_sym(x) for x in args):
        return s % o
    import re
    parts = []
    i = 0
    pos = 0
    for m in re.finditer(r"%(%|[-#0-9.]*[sdrif])", s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            parts.append("%")
            continue
        if m.group(1) not in ("s", "d", "i", "r"):
            raise Unsupported("%% formatting %r" % m.group(0))
        parts.append((args[i], 114 if m.group(1) == "r" else -1, ""))
        i += 1
    parts.append(s[pos:])
    if i != len(args):
        raise TypeError("not all arguments converted")
    return fstr(*parts)


def contains(x, c):
    if isinstance_sym(c):
        if hasattr(type(c), "contains"):
            return c.contains(x)
        return c.__contains__(x)
    m = getattr(type(c), "__contains__", None)
    if m is not None and type(getattr(m, "__code__", None)) is _CODE and not isinstance(c, (dict, list)):
        return m(c, x)
    if isinstance_sym(x):
        if isinstance(x, int):
            if isinstance(c, range):
                if c.step == 1:
                    return V.and_(x >= c.start, x < c.stop)
                return V.or_(*[x == i for i in c])
            if isinstance(c, (tuple, list, set, frozenset)):
                return V.or_(*[_eqb(x, i) for i in c])
            if isinstance(c, (dict, type({}.keys()))):
                return V.or_(*[_eqb(x, i) for i in (c.keys() if isinstance(c, dict) else c)])
            if isinstance(c, type) and issubclass(c, enum.Enum):
                mc = getattr(type(c), "__contains__", None)
                return mc(c, x)
        if isinstance(x, str) and isinstance(c, (tuple, list, set, frozenset, dict)):
            return V.or_(*[_eqb(x, i) for i in c])
        if isinstance(x, (bytes, bytearray)) and isinstance(c, (tuple, list)):
            return V.or_(*[_eqb(x, i) for i in c])
        if type(x) is SymFlag and isinstance(c, SymFlag):
            pass
        if type(x) is Tab and isinstance(c, (tuple, list, set, frozenset, range)):
            return x.map(lambda v: v in c)
        if isinstance(c, str):
            raise Unsupported("symbolic text in str")
    if isinstance(c, dict) and E.CTX is not None and E.CTX.symdicts and id(c) in E.CTX.symdicts:
        return V.or_(*[_eqb(i, x) for i in c.keys()])
    if isinstance(c, (tuple, list)) and not isinstance_sym(x) and any(isinstance_sym(i) for i in c):
        for i in c:
            if i is x or i == x:
                return True
        return False
    return x in c


@handler(operator.contains)
def _contains(f, a, k):
    return contains(a[1], a[0])


@handler(operator.getitem)
def _getitem(f, a, k):
    return subscript(a[0], a[1])


@handler(operator.not_)
def _not(f, a, k):
    return V.not_(a[0]) if isinstance_sym(a[0]) else not a[0]


def notcontains(x, c):
    return V.not_(contains(x, c)) if True else None


def _eqb(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    return r


import collections


def _plain_dict(o):
    t = type(o)
    return t is dict or t is collections.defaultdict or isinstance(o, dict) and t.__getitem__ is dict.__getitem__


def subscript(o, k):
    c = E.CTX
    if c is not None and (isinstance_sym(k) or c.symdicts and id(o) in c.symdicts):
        return getitem_sym(o, k)
    return o[k]


def getitem_sym(o, k):
    """o[k] for a symbolic key: case split over the keys of a dict (exact)"""
    if _plain_dict(o) or type(o) is types.MappingProxyType:
        if isinstance_sym(k) and not isinstance(k, (int, str, bytes)):
            return o[k]
        for q, v in o.items():
            e = V.cond(_eqb(k, q) if isinstance_sym(k) else _eqb(q, k))
            if e is not False and E.ctx().fork(e):
                return v
        if type(o) is collections.defaultdict and o.default_factory is not None:
            v = o.default_factory()
            _store(o, k, v)
            return v
        mm = getattr(type(o), "__missing__", None)
        if mm is not None and type(o) is not collections.defaultdict:
            return mm(o, k)
        raise KeyError(k)
    if type(o) in (list, tuple) and type(k) is V.SymInt and len(o) <= 16:
        for j in range(len(o)):
            e = V.cond(_eqb(k, j))
            e2 = V.cond(_eqb(k, j - len(o)))
            if e is not False and E.ctx().fork(e) or e2 is not False and E.ctx().fork(e2):
                return o[j]
        raise IndexError("%s index out of range" % type(o).__name__)
    return o[k]


def _store(o, k, v):
    if isinstance_sym(k):
        c = E.ctx()
        c.symdicts[id(o)] = o
        V.HASH_ID = True
        try:
            dict.__setitem__(o, k, v)
        finally:
            V.HASH_ID = False
    else:
        dict.__setitem__(o, k, v)


def setitem(v, o, k):
    c = E.CTX
    if c is not None and (isinstance_sym(k) or c.symdicts and id(o) in c.symdicts) and \
            (type(o) in (dict, collections.defaultdict)) and isinstance(k, int):
        for q in list(o):
            e = V.cond(_eqb(k, q) if isinstance_sym(k) else _eqb(q, k))
            if e is not False and c.fork(e):
                for q2 in list(o):          # overwrite the existing entry, keeping its key object
                    if q2 is q:
                        V.HASH_ID = isinstance_sym(q)
                        try:
                            dict.__setitem__(o, q, v)
                        finally:
                            V.HASH_ID = False
                        return
        _store(o, k, v)
        return
    o[k] = v


def _dget(s, f, a, k):
    if len(a) in (1, 2) and not k and (isinstance_sym(a[0]) or E.CTX.symdicts and id(s) in E.CTX.symdicts):
        if type(s) is collections.defaultdict:
            for q, v in s.items():
                e = V.cond(_eqb(a[0], q) if isinstance_sym(a[0]) else _eqb(q, a[0]))
                if e is not False and E.ctx().fork(e):
                    return v
            return a[1] if len(a) == 2 else None
        try:
            return getitem_sym(s, a[0])
        except KeyError:
            return a[1] if len(a) == 2 else None
    return f(*a, **k)


class SymSet:
    """a set of distinct symbolic numbers; only what is modelled"""

    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def __contains__(self, x):
        return any(bool(_eqb(y, x)) for y in self.xs)

    def __getattr__(self, n):
        raise Unsupported("set.%s with symbolic members" % n)

    def _no(self, *a):
        raise Unsupported("set operation with symbolic members")
    __eq__ = __ne__ = __or__ = __and__ = __sub__ = __xor__ = __ror__ = __rand__ = __rsub__ = __rxor__ = __le__ = __lt__ = __ge__ = __gt__ = _no
    __hash__ = None


def mkset(xs):
    """{*xs}: equal symbolic numbers are merged by case split (exact)"""
    xs = list(xs)
    if E.CTX is None or not any(type(x) is V.SymInt for x in xs) or not all(isinstance(x, int) for x in xs):
        return set(xs)
    out = []
    for x in xs:
        for y in out:
            e = V.cond(_eqb(y, x) if isinstance_sym(y) else _eqb(x, y))
            if e is not False and E.ctx().fork(e):
                break
        else:
            out.append(x)
    return SymSet(out)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


@handler(set)
def _set(f, a, k):
    if len(a) == 1 and E.CTX is not None and not k and type(a[0]) in (list, tuple, types.GeneratorType, map, filter):
        return mkset(a[0])
    return f(*a, **k)


@handler(dict)
def _dict(f, a, k):
    if len(a) == 1 and E.CTX is not None and not k:
        if type(a[0]) in (list, tuple, types.GeneratorType, map, filter, zip):
            return mkdict(a[0])
        if E.CTX.symdicts and id(a[0]) in E.CTX.symdicts:
            return mkdict(a[0].items())
    return f(*a, **k)


def _dset(s, f, a, k):
    if len(a) in (1, 2) and not k and isinstance(a[0], int) and (isinstance_sym(a[0]) or E.CTX.symdicts and id(s) in E.CTX.symdicts):
        for q, v in s.items():
            e = V.cond(_eqb(a[0], q) if isinstance_sym(a[0]) else _eqb(q, a[0]))
            if e is not False and E.ctx().fork(e):
                return v
        v = a[1] if len(a) == 2 else None
        _store(s, a[0], v)
        return v
    return _dmut(s, f, a, k)


def _dcopy(s, f, a, k):
    r = f(*a, **k)
    if E.CTX.symdicts and id(s) in E.CTX.symdicts:
        E.CTX.symdicts[id(r)] = r
    return r


def _dmut(s, f, a, k):
    if E.CTX.symdicts and id(s) in E.CTX.symdicts or any(isinstance_sym(x) for x in a[:1]):
        raise Unsupported("dict mutation with symbolic keys")
    return f(*a, **k)


for _t in (dict, collections.defaultdict):
    for _n in ("pop", "setdefault", "update", "__delitem__"):
        _CM[(_t, _n)] = _dmut
    _CM[(_t, "setdefault")] = _dset
    _CM[(_t, "copy")] = _dcopy
_CM[(collections.defaultdict, "get")] = _dget
for _t in (dict, types.MappingProxyType):
    _CM[(_t, "get")] = _dget


# ------------------------------------------------------------------------------------------------ files
import os
import pathlib


class SymFile:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        if "r" in mode and "+" not in mode:
            self.s = SymStream(fs.files[name])
        elif "w" in mode or "x" in mode:
            if "x" in mode and name in fs.files:
                raise FileExistsError(name)
            fs.files[name] = b""
            fs.log.append(("truncate", name))
            self.s = SymStream(b"")
        elif mode.replace("b", "") in ("r+", "a", "a+") and name in fs.files or "a" in mode:
            self.s = SymStream(fs.files.setdefault(name, b""))
            if "a" in mode:
                self.s.seek(0, 2)
        else:
            raise Unsupported("open mode %r" % mode)

    def read(self, n=-1):
        return self.s.read(n)

    def write(self, b):
        if "b" not in self.mode:
            raise Unsupported("text file")
        r = self.s.write(b)
        self.fs.files[self.name] = self.s.getvalue()
        self.fs.log.append(("write", self.name))
        return r

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, *a):
        return self.s.seek(*a)

    def tell(self):
        return self.s.tell()

    def truncate(self, n=None):
        self.s.chunks = V.split(self.s.chunks, V._simp(self.s.pos if n is None else n))[0]
        self.fs.files[self.name] = self.s.getvalue()

    def flush(self):
        pass

    def fileno(self):
        raise Unsupported("fileno")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class SymFS:
    PREFIX = "/virtual/"

    def __init__(self):
        self.files = {}
        self.log = []

    def mine(self, p):
        try:
            return os.fspath(p).startswith(self.PREFIX)
        except TypeError:
            return False

    def open(self, p, mode="r"):
        name = os.fspath(p)
        if "r" in mode and name not in self.files:
            raise FileNotFoundError(name)
        return SymFile(self, name, mode)


def _fs():
    c = E.CTX
    if c is None:
        return None
    if not isinstance(c.fs, SymFS):
        c.fs = SymFS()
    return c.fs


def _mine(p):
    fs = _fs()
    return fs is not None and fs.mine(p)


@handler(open, io.open)
def _open2(f, a, k):
    p = a[0] if a else k["file"]
    if _mine(p):
        return _fs().open(p, a[1] if len(a) > 1 else k.get("mode", "r"))
    return open(*a, **k)


class _Stat:
    def __init__(self, size):
        self.st_size = size

    def __getattr__(self, n):
        raise Unsupported("stat." + n)


def _pathm(name):
    m = getattr(pathlib.Path, name, None)
    if m is None:
        return

    @handler(m)
    def _h(f, a, k, name=name):
        p = f.__self__ if hasattr(f, "__self__") else a[0]
        if not hasattr(f, "__self__"):
            a = a[1:]
        if not _mine(p):
            return f(*a, **k) if hasattr(f, "__self__") else f(p, *a, **k)
        fs = _fs()
        n = os.fspath(p)
        if name == "open":
            return fs.open(n, a[0] if a else k.get("mode", "r"))
        if name == "read_bytes":
            return fs.open(n, "rb").read()
        if name == "write_bytes":
            return fs.open(n, "wb").write(a[0])
        if name in ("exists", "is_file"):
            return n in fs.files
        if name == "unlink":
            if n not in fs.files:
                if k.get("missing_ok") or (a and a[0]):
                    return None
                raise FileNotFoundError(n)
            del fs.files[n]
            return None
        if name in ("replace", "rename"):
            fs.files[os.fspath(a[0])] = fs.files.pop(n)
            return pathlib.Path(a[0])
        if name == "stat":
            if n not in fs.files:
                raise FileNotFoundError(n)
            return _Stat(_len(len, (fs.files[n],), {}))
        raise Unsupported("Path." + name)


for _n in ("open", "read_bytes", "write_bytes", "exists", "is_file", "unlink", "replace", "rename", "stat", "resolve", "absolute", "touch"):
    _pathm(_n)


@handler(os.path.exists, os.path.isfile)
def _exists(f, a, k):
    return os.fspath(a[0]) in _fs().files if _mine(a[0]) else f(*a, **k)


@handler(os.path.getsize)
def _getsize(f, a, k):
    return _len(len, (_fs().files[os.fspath(a[0])],), {}) if _mine(a[0]) else f(*a, **k)


@handler(os.replace, os.rename)
def _replace(f, a, k):
    if _mine(a[0]):
        fs = _fs()
        fs.files[os.fspath(a[1])] = fs.files.pop(os.fspath(a[0]))
        return None
    return f(*a, **k)


@handler(os.remove, os.unlink)
def _remove(f, a, k):
    if _mine(a[0]):
        fs = _fs()
        if os.fspath(a[0]) not in fs.files:
            raise FileNotFoundError(a[0])
        del fs.files[os.fspath(a[0])]
        return None
    return f(*a, **k)
