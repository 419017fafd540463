"""Symbolic values.  Every class spoofs ``__class__`` so that ``isinstance`` in the code under test behaves."""
from . import engine as E
from .engine import z3, Unsupported, PathDone

_INT_ATTRS = set(dir(int))
_BYTES_ATTRS = set(dir(bytes))
_STR_ATTRS = set(dir(str))
_FLOAT_ATTRS = set(dir(float))


def ctx():
    return E.ctx()


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()


# ------------------------------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return ctx().fork(self.t)

    def __eq__(self, o):
        t = bool_term(o)
        if t is None:
            if is_num(o):
                return as_int(self) == o
            return False
        return mkbool(self.t == t)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        t = bool_term(o)
        return mkbool(z3.And(self.t, t)) if t is not None else as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        t = bool_term(o)
        return mkbool(z3.Or(self.t, t)) if t is not None else as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        t = bool_term(o)
        return mkbool(z3.Xor(self.t, t)) if t is not None else as_int(self) ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~as_int(self)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o): return as_int(self) + o
    __radd__ = __add__
    def __sub__(self, o): return as_int(self) - o
    def __rsub__(self, o): return o - as_int(self)
    def __mul__(self, o): return as_int(self) * o
    __rmul__ = __mul__
    def __lt__(self, o): return as_int(self) < o
    def __le__(self, o): return as_int(self) <= o
    def __gt__(self, o): return as_int(self) > o
    def __ge__(self, o): return as_int(self) >= o
    def __repr__(self): return "<SymBool %s>" % (str(self.t)[:60],)

    def __getattr__(self, n):
        if n in _INT_ATTRS:
            raise Unsupported("bool.%s" % n)
        raise AttributeError("'bool' object has no attribute %r" % n)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bool_term(o):
    """z3 term of a Python/Symbolic boolean, None if ``o`` is not a boolean."""
    if o is True or o is False:
        return z3.BoolVal(o)
    if type(o) is SymBool:
        return o.t
    return None


def cond(o):
    """bool|SymBool -> python bool | z3 term (for prove/assume/fork)."""
    if type(o) is SymBool:
        return o.t
    if o is True or o is False:
        return o
    if z3.is_expr(o):
        return o
    return bool(o)


def and_(*cs):
    ts = []
    for c in cs:
        c = cond(c)
        if c is False:
            return False
        if c is True:
            continue
        ts.append(c)
    if not ts:
        return True
    return mkbool(z3.And(*ts)) if len(ts) > 1 else mkbool(ts[0])


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def not_(c):
    c = cond(c)
    if c is True or c is False:
        return not c
    return mkbool(z3.Not(c))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    """Merge two values under a condition (ints, bools, equal-length byte vectors)."""
    c = cond(c)
    if c is True:
        return a
    if c is False:
        return b
    ta, tb = bool_term(a), bool_term(b)
    if ta is not None and tb is not None:
        return mkbool(z3.If(c, ta, tb))
    if is_num(a) and is_num(b):
        x, y, isint = _coerce(a, b)
        return mkint(z3.If(c, x, y))
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
        va, vb = vec(a), vec(b)
        if va is not None and vb is not None and len(va) == len(vb):
            return mkbytes([[_bite(c, x, y) for x, y in zip(va, vb)]])
    return a if ctx().fork(c) else b


def _bite(c, x, y):
    if isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    return z3.simplify(z3.If(c, bterm(x), bterm(y)))


# ------------------------------------------------------------------------------------------ integers
def is_num(o):
    return isinstance(o, int) or type(o) in (SymInt, SymFlag, SymEnum, SymBool)


def _bvconst(k):
    w = int(k).bit_length() + 1
    return z3.BitVecVal(int(k), w)


def int_term(o):
    """BV (signed, exact) or Int term of a number."""
    if isinstance(o, SymInt):
        return o.t
    if type(o) is SymBool:
        return z3.If(o.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
    if isinstance(o, int):
        return _bvconst(int(o))
    raise Unsupported("not an integer: %r" % (type(o),))


def zint(o):
    """Int-sorted term."""
    if type(o) is int:
        return z3.IntVal(o)
    if z3.is_expr(o):
        t = o
    else:
        t = int_term(o)
    if z3.is_bv(t):
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long())
        return z3.BV2Int(t, is_signed=True)
    return t


def _ext(t, w):
    d = w - t.size()
    return z3.SignExt(d, t) if d > 0 else t


def _coerce(a, b, extra=0):
    x, y = int_term(a), int_term(b)
    if z3.is_int(x) or z3.is_int(y):
        return zint(x), zint(y), True
    w = max(x.size(), y.size()) + extra
    return _ext(x, w), _ext(y, w), False


def mkint(t, narrow=True):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t)


def as_int(o):
    if type(o) is SymBool:
        return mkint(z3.If(o.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)))
    return o


MAX_CONC = 300
HASH_ID = False          # only while a symbolic key is stored into a dict (see intercept.setitem)


def _or_int(a, b):
    """a | b on unbounded integers: disjoint bits only"""
    if isinstance(a, int) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(b, int) and not isinstance(b, Sym) and b >= 0:
        if b == 0:
            return a
        low = b & -b
        if ctx().must(cond(and_(a >= 0, a < low))):
            return a + b
    elif isinstance(b, SymInt) and isinstance(a, SymInt):
        for x, y in ((a, b), (b, a)):
            for k in (7, 8, 16, 24, 14, 21, 28):
                if ctx().must(cond(and_(y >= 0, y < (1 << k)))):
                    if ctx().must(cond(x % (1 << k) == 0)):
                        return x + y
                    break
    raise Unsupported("| on unbounded int")


class SymInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: int)

    # arithmetic
    def _bin(self, o, op, extra):
        if not is_num(o):
            if type(o) is Tab or type(o) is float:
                return NotImplemented
            if type(o) is SymFloat:
                return NotImplemented
            return NotImplemented
        x, y, _ = _coerce(self, o, extra)
        return mkint(op(x, y))

    def __add__(self, o):
        if type(o) is float: return tab(self) + o
        return self._bin(o, lambda x, y: x + y, 1)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is float: return tab(self) - o
        return self._bin(o, lambda x, y: x - y, 1)

    def __rsub__(self, o):
        if type(o) is float: return o - tab(self)
        return self._bin(o, lambda x, y: y - x, 1)

    def __mul__(self, o):
        if type(o) is float: return tab(self) * o
        if not is_num(o):
            return NotImplemented
        x, y = int_term(self), int_term(o)
        if z3.is_int(x) or z3.is_int(y):
            return mkint(zint(x) * zint(y))
        w = x.size() + y.size()
        return mkint(_ext(x, w) * _ext(y, w))
    __rmul__ = __mul__

    def __neg__(self): return 0 - self
    def __pos__(self): return self
    def __abs__(self): return ite(self < 0, 0 - self, self)

    def __floordiv__(self, o):
        if type(o) is float: return tab(self) // o
        return self._divmod(o)[0]

    def __mod__(self, o):
        if type(o) is float: return tab(self) % o
        return self._divmod(o)[1]

    def __divmod__(self, o): return self._divmod(o)

    def _divmod(self, o):
        if not is_num(o):
            raise TypeError("unsupported operand type(s) for divmod")
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        x, y = int_term(self), int_term(o)
        if z3.is_int(x):
            # SMT div/mod is Euclidean == floor for positive divisors
            yv = zint(y)
            if ctx().fork(yv > 0):
                return mkint(x / yv), mkint(x % yv)
            raise Unsupported("negative symbolic divisor")
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        w = max(x.size(), y.size()) + 1
        x, y = _ext(x, w), _ext(y, w)
        q, r = x / y, z3.SRem(x, y)
        adj = z3.And(r != 0, (r < 0) != (y < 0))
        return mkint(z3.If(adj, q - 1, q)), mkint(z3.If(adj, r + y, r))

    def __rfloordiv__(self, o): return mksym(o)._divmod(self)[0]
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return mksym(o)._divmod(self)[1]
    def __rdivmod__(self, o): return mksym(o)._divmod(self)

    def __truediv__(self, o):
        if type(o) is int and o > 0:
            lo, hi = domain(self)
            if hi - lo + 1 > MAX_TAB:
                return BigFloat(self, o)
        return tab(self) / o
    def __rtruediv__(self, o): return o / tab(self)
    def __pow__(self, o, m=None):
        if type(o) is int and o == 2:
            return self * self
        return tab(self) ** o
    def __rpow__(self, o, m=None):
        r = o ** tab(self)
        return r
    def __float__(self):
        raise Unsupported("C-level float() of a symbolic int")

    def __and__(self, o):
        if not is_num(o): return NotImplemented
        x, y = int_term(self), int_term(o)
        if z3.is_int(x):
            if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
                return self % (o + 1)
            if isinstance(o, int) and o > 0:
                # a run of ones: 2^a .. 2^b
                a = (o & -o).bit_length() - 1
                if (o >> a) & ((o >> a) + 1) == 0:
                    return ((self >> a) & (o >> a)) << a
            raise Unsupported("& on unbounded int")
        w = max(x.size(), y.size())
        return _flagres(mkint(_ext(x, w) & _ext(y, w)), self, o)
    __rand__ = __and__

    def __or__(self, o):
        if not is_num(o): return NotImplemented
        x, y, i = _coerce(self, o)
        if i: return _or_int(self, o)
        return _flagres(mkint(x | y), self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if not is_num(o): return NotImplemented
        x, y, i = _coerce(self, o)
        if i: raise Unsupported("^ on unbounded int")
        return _flagres(mkint(x ^ y), self, o)
    __rxor__ = __xor__

    def __invert__(self):
        if z3.is_int(self.t):
            return -1 - self
        return mkint(~self.t)

    def __lshift__(self, k):
        k = int(k)
        if k < 0: raise ValueError("negative shift count")
        if z3.is_int(self.t):
            return self * (1 << k)
        t = _ext(self.t, self.t.size() + k)
        return mkint(t << k)

    def __rshift__(self, k):
        k = int(k)
        if k < 0: raise ValueError("negative shift count")
        if z3.is_int(self.t):
            return self // (1 << k)
        return mkint(self.t >> k)

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    # comparisons
    def _cmp(self, o, op):
        if not is_num(o):
            if type(o) is float or type(o) is Tab:
                return op(tab(self), o)
            return NotImplemented
        x, y, _ = _coerce(self, o)
        return mkbool(op(x, y))

    def __eq__(self, o):
        if not is_num(o):
            if type(o) is float:
                if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                    return False
                return self == int(o)
            if type(o) is Tab:
                return tab(self) == o
            return False
        x, y, _ = _coerce(self, o)
        return mkbool(x == y)

    def __ne__(self, o): return not_(self.__eq__(o))
    def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
    def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
    def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)

    # conversions
    def __bool__(self):
        return ctx().fork(self.t != 0)

    def conc(self, limit=MAX_CONC):
        """Concretise by complete case split (one multi-way decision)."""
        c = ctx()
        t = z3.simplify(self.t)
        if z3.is_bv_value(t): return t.as_signed_long()
        if z3.is_int_value(t): return t.as_long()
        key = ("conc", t.get_id())
        if key in c.memo:
            return c.memo[key]
        c.keep.append(t)
        c.ex.check_budget()
        i = len(c.trace)
        if i < len(c.prefix):
            v = c.prefix[i]
        else:
            vals = []
            c.solver.push()
            try:
                while True:
                    r = c.check()
                    if r == z3.unsat:
                        break
                    if r != z3.sat:
                        raise Unsupported("cannot concretise")
                    mv = c.solver.model().eval(t, model_completion=True)
                    x = mv.as_signed_long() if z3.is_bv_value(mv) else mv.as_long()
                    vals.append(x)
                    if len(vals) > limit:
                        raise Unsupported("too many concrete cases for %s" % str(self.t)[:80])
                    c.solver.add(t != x)
            finally:
                c.solver.pop()
            if not vals:
                raise E.PathDone
            vals.sort()
            v = vals[0]
            for o in reversed(vals[1:]):
                c.ex.push(c.trace + [o])
        c.trace.append(v)
        c.add(t == v)
        c.memo[key] = v
        return v

    def __index__(self): return self.conc()
    def __int__(self): return self.conc()
    def __hash__(self): return id(self) if HASH_ID else hash(self.conc())
    def __repr__(self): return "<SymInt %s>" % (str(self.t)[:60],)
    def __str__(self): return repr(self)
    def __format__(self, spec): return repr(self)
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def to_bytes(self, length, byteorder, signed=False):
        if byteorder not in ("little", "big"):
            raise ValueError("byteorder")
        bs = encode_int(self, int(length), signed, lambda: OverflowError("int too big to convert"))
        if byteorder == "big":
            bs = bs[::-1]
        return mkbytes([bs])

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def __getattr__(self, n):
        if n in _INT_ATTRS:
            raise Unsupported("int.%s" % n)
        raise AttributeError("'int' object has no attribute %r" % n)


def mksym(o):
    return o if isinstance(o, SymInt) else SymInt(int_term(o))


def encode_int(v, n, signed, err):
    """List of n little-endian byte terms of v; raises err() if out of range."""
    if isinstance(v, int) and not isinstance(v, Sym):
        try:
            return list(int(v).to_bytes(n, "little", signed=signed))
        except OverflowError:
            raise err()
    if type(v) is SymBool:
        v = as_int(v)
        if isinstance(v, int):
            return encode_int(v, n, signed, err)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not ctx().fork(cond(and_(v >= lo, v <= hi))):
        raise err()
    t = v.t
    it = None
    if z3.is_int(t):
        it = t
        t = z3.Int2BV(t, 8 * n)
    elif t.size() < 8 * n:
        t = _ext(t, 8 * n)
    out = []
    for i in range(n):
        b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))
        if it is not None and not z3.is_bv_value(b):
            c = ctx()
            c.keep.append(b)
            c.memo[("origin", b.get_id())] = (it, i, n, signed)
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out


def decode_int(elems, signed):
    """Little-endian integer of byte elems."""
    if all(isinstance(b, int) for b in elems):
        return int.from_bytes(bytes(elems), "little", signed=signed)
    if not elems:
        return 0
    o = [None if isinstance(b, int) else ctx().memo.get(("origin", b.get_id())) for b in elems]
    if o[0] is not None and o[0][2] == len(elems) and all(x is not None and x[0].eq(o[0][0]) and x[1] == i and x[2] == len(elems) and bool(x[3]) == bool(signed) for i, x in enumerate(o)):
        return mkint(o[0][0])       # the bytes of one unbounded number that is known to fit
    ts = [bterm(b) for b in reversed(elems)]
    t = z3.Concat(*ts) if len(ts) > 1 else ts[0]
    return mkint(t if signed else z3.ZeroExt(1, t))


class _SymTagged(SymInt):
    __slots__ = ("_cls",)

    def __init__(self, cls, t):
        self._cls = cls
        self.t = t

    __class__ = property(lambda self: self._cls)

    @property
    def value(self):
        return SymInt(self.t)
    _value_ = value

    @property
    def name(self):
        raise Unsupported("name of symbolic enum member")

    def __repr__(self):
        return "<Sym%s %s>" % (self._cls.__name__, str(self.t)[:60])

    def __getattr__(self, n):
        if hasattr(self._cls, n):
            raise Unsupported("%s.%s" % (self._cls.__name__, n))
        raise AttributeError(n)


class SymFlag(_SymTagged):
    """A member of an IntFlag class with a symbolic value."""
    __slots__ = ()

    def __contains__(self, other):
        if not isinstance(other, self._cls):
            raise TypeError("unsupported operand type(s) for 'in'")
        return bool(self.contains(other))

    def contains(self, other):
        if not isinstance(other, self._cls):
            raise TypeError("unsupported operand type(s) for 'in'")
        return (SymInt(self.t) & int(other)) == int(other) if not isinstance(other, Sym) else \
            (other.value & self.value) == other.value

    def __invert__(self):
        return _tagflag(self._cls, SymInt(self.t).__invert__())


class SymEnum(_SymTagged):
    """A member (or pseudo member) of an int-valued Enum class with a symbolic value."""
    __slots__ = ()


def _tagflag(cls, v):
    if isinstance(v, SymInt):
        return SymFlag(cls, v.t)
    return cls(v)


def _flagres(res, a, b):
    """IntFlag operators return a member of the flag class."""
    import enum
    for o in (a, b):
        if type(o) is SymFlag:
            return _tagflag(o._cls, res)
        if isinstance(o, enum.IntFlag):
            return _tagflag(type(o), res)
    return res


def sym_enum(cls, v):
    """cls(v) for an Enum class and a symbolic integer."""
    import enum
    import sys
    if isinstance(v, _SymTagged):
        if v._cls is cls:
            return v
        v = SymInt(v.t)
    if issubclass(cls, enum.IntFlag):
        if z3.is_int(v.t):
            raise Unsupported("flag of unbounded int")
        return SymFlag(cls, v.t)
    ev = sys.modules.get("pyflp._events")
    if ev is not None and issubclass(cls, ev.EventEnum):
        return cls(v.conc())
    missing = getattr(cls._missing_, "__func__", None)
    ct = sys.modules.get("construct_typed.tenum") or sys.modules.get("construct_typed")
    base = getattr(ct, "EnumBase", None)
    if base is not None and issubclass(cls, base) and missing is base._missing_.__func__:
        return SymEnum(cls, v.t)
    if missing is enum.Enum._missing_.__func__:
        vals = sorted({int(m.value) for m in cls})
        if ctx().fork(cond(or_(*[v == k for k in vals]))):
            return SymEnum(cls, v.t)
        raise ValueError("%r is not a valid %s" % (v, cls.__name__))
    return cls(v.conc())


# ------------------------------------------------------------------------------------------ tables
class TwoVars(Unsupported):
    pass


class Tab(Sym):
    """A value that is a finite function of one symbolic integer: table[k] for x == k, k in dom.

    Arithmetic is applied pointwise by the real interpreter, so float semantics are exact."""
    __slots__ = ("x", "lo", "vals")

    def __init__(self, x, lo, vals):
        self.x = x
        self.lo = lo
        self.vals = vals

    __class__ = property(lambda self: type(self.vals[0]))

    def map(self, f):
        out = []
        excs = []
        for i, v in enumerate(self.vals):
            try:
                out.append(f(v))
            except Exception as e:      # noqa: partial function
                out.append(None)
                excs.append((i, e))
        if excs:
            types = {type(e) for _, e in excs}
            if len(types) > 1:
                raise Unsupported("several exception types in table")
            bad = _set_term(self.x, self.lo, [i for i, _ in excs])
            if ctx().fork(bad):
                raise excs[0][1]
            good = next(v for v in out if v is not None)
            badset = {i for i, _ in excs}
            out = [good if i in badset else v for i, v in enumerate(out)]
        return mktab(self.x, self.lo, out)

    def _bin(self, o, f):
        if type(o) is Tab:
            if o.x.t.get_id() == self.x.t.get_id() and o.lo == self.lo and len(o.vals) == len(self.vals):
                pairs = Tab(self.x, self.lo, list(zip(self.vals, o.vals)))
                return pairs.map(lambda p: f(p[0], p[1]))
            if o.x.t.get_id() == self.x.t.get_id() or ctx().must(cond(SymInt.__eq__(self.x, o.x))):
                lo = max(self.lo, o.lo)
                n = min(self.lo + len(self.vals), o.lo + len(o.vals)) - lo
                if n > 0:
                    pairs = Tab(self.x, lo, list(zip(self.vals[lo - self.lo:][:n], o.vals[lo - o.lo:][:n])))
                    return pairs.map(lambda p: f(p[0], p[1]))
            if len(o.vals) <= 64:
                v = o.vals[o.x.conc() - o.lo]
                return self.map(lambda q: f(q, v))
            if len(self.vals) <= 64:
                v = self.vals[self.x.conc() - self.lo]
                return o.map(lambda q: f(v, q))
            raise TwoVars("table arithmetic over two variables")
        if isinstance(o, SymInt):
            if o.t.get_id() == self.x.t.get_id():
                pairs = Tab(self.x, self.lo, [(v, self.lo + i) for i, v in enumerate(self.vals)])
                return pairs.map(lambda p: f(p[0], p[1]))
            t = tab_over(o, self.x, self.lo, len(self.vals))
            if t is not None:
                return self._bin(t, f)
            raise TwoVars("table arithmetic over two variables")
        if isinstance(o, (int, float)):
            return self.map(lambda v: f(v, o))
        return NotImplemented

    def _ar(self, o, f):
        try:
            return self._bin(o, f)
        except TwoVars:
            return BigFloat(None, 0)        # some float, never inspected

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._ar(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._ar(o, lambda a, b: b / a)
    def __floordiv__(self, o): return self._ar(o, lambda a, b: a // b)
    def __mod__(self, o): return self._ar(o, lambda a, b: a % b)
    def __pow__(self, o): return self._ar(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._ar(o, lambda a, b: b ** a)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(abs)
    def __round__(self, n=None): return self.map(lambda a: round(a, n) if n is not None else round(a))

    def _cmp(self, o, f):
        r = self._bin(o, f)
        return r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)) and not isinstance(o, Sym):
            if isinstance(o, str) and isinstance(self.vals[0], str):
                return self.map(lambda a: a == o)
            return False
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o): return not_(self.__eq__(o))

    def __bool__(self):
        r = self.map(bool)
        return bool(r)

    def __hash__(self):
        raise Unsupported("hash of a table value")

    def __float__(self):
        raise Unsupported("C-level float() of a table value")

    def __int__(self):
        raise Unsupported("C-level int() of a table value")

    def __repr__(self):
        return "<Tab %s [%d]>" % (str(self.x.t)[:40], len(self.vals))

    def __getitem__(self, k):
        return self.map(lambda v: v[k])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(self.vals[0], n):
            a = getattr(type(self.vals[0]), n, None)
            if callable(a):
                def meth(*args):
                    for x in args:
                        if isinstance(x, Sym):
                            raise Unsupported("table method with symbolic argument")
                    return self.map(lambda v: getattr(v, n)(*args))
                return meth
            return self.map(lambda v: getattr(v, n))
        raise AttributeError(n)


def _runs(idx):
    out = []
    for i in idx:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def _set_term(x, lo, idx):
    ts = []
    for a, b in _runs(idx):
        if a == b:
            ts.append(cond(x == lo + a))
        else:
            ts.append(cond(and_(x >= lo + a, x <= lo + b)))
    ts = [t for t in ts if t is not False]
    if any(t is True for t in ts):
        return z3.BoolVal(True)
    if not ts:
        return z3.BoolVal(False)
    return z3.Or(*ts) if len(ts) > 1 else ts[0]


def mktab(x, lo, vals):
    v0 = vals[0]
    if all(type(v) is bool for v in vals):
        idx = [i for i, v in enumerate(vals) if v]
        if len(idx) * 2 > len(vals):
            n = [i for i, v in enumerate(vals) if not v]
            return mkbool(z3.Not(_set_term(x, lo, n)))
        return mkbool(_set_term(x, lo, idx))
    if all(type(v) is int for v in vals):
        # affine pieces: runs with constant difference to x
        pieces = []
        for i, v in enumerate(vals):
            d = v - (lo + i)
            if pieces and pieces[-1][2] == ("d", d):
                pieces[-1][1] = i
            elif pieces and pieces[-1][2] == ("c", v):
                pieces[-1][1] = i
            else:
                if pieces and pieces[-1][0] == pieces[-1][1] and vals[pieces[-1][0]] == v:
                    pieces[-1][1] = i
                    pieces[-1][2] = ("c", v)
                else:
                    pieces.append([i, i, ("d", d)])
        if len(pieces) <= 64:
            def pv(p):
                return (x + p[2][1]) if p[2][0] == "d" else p[2][1]
            r = pv(pieces[-1])
            for p in reversed(pieces[:-1]):
                r = ite(x <= lo + p[1], pv(p), r)
            return r
    if len(vals) == 1:
        return v0
    return Tab(x, lo, vals)


MAX_TAB = 1 << 20


def domain(x):
    """Tight [lo, hi] of a symbolic int on the current path (None if too large)."""
    c = ctx()
    key = ("dom", x.t.get_id())
    if key in c.memo:
        return c.memo[key]
    t = x.t
    if z3.is_bv(t):
        w = t.size()
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        lo, hi = -(1 << 70), 1 << 70
    # binary search for bounds
    def le(k): return c.must(cond(x <= k))
    def ge(k): return c.must(cond(x >= k))
    a, b = lo, hi
    while a < b:
        m = (a + b) // 2
        if le(m): b = m
        else: a = m + 1
    hi2 = b
    a, b = lo, hi2
    while a < b:
        m = (a + b + 1) // 2
        if ge(m): a = m
        else: b = m - 1
    c.memo[key] = (a, hi2)
    c.keep.append(t)
    return a, hi2


class BigFloat(Sym):
    """float(n) / d rounded to nearest, n of a domain too large for a table (d a positive int)."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=1):
        self.n = n
        self.d = d

    __class__ = property(lambda self: float)

    def _cmp(self, o, op):
        # rounding is monotone and exact on integers below 2**53, so n / d against an integral bound is exact when d == 1
        if self.d == 1 and type(o) in (int, float) and o == int(o) and abs(o) < 1 << 52:
            return op(self.n, int(o))
        raise Unsupported("comparison of a large float")

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if type(o) is BigFloat and self.d and o.d == self.d and o.n.t.get_id() == self.n.t.get_id():
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o): return not_(self.__eq__(o))
    def __bool__(self):
        if self.n is None:
            raise Unsupported("truth of a large float")
        return bool(self.n != 0)
    def __hash__(self): raise Unsupported("hash of symbolic float")
    def __repr__(self): return "<BigFloat>" if self.n is None else "<BigFloat %s/%d>" % (str(self.n.t)[:40], self.d)

    def __getattr__(self, n):
        if n in _FLOAT_ATTRS:
            raise Unsupported("float.%s" % n)
        raise AttributeError("'float' object has no attribute %r" % n)


def _no_op(name):
    def f(self, *a):
        raise Unsupported("large float arithmetic %s" % name)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__floordiv__", "__mod__",
           "__pow__", "__neg__", "__abs__", "__round__", "__float__", "__int__"):
    setattr(BigFloat, _n, _no_op(_n))


def tab(x):
    if type(x) is Tab:
        return x
    if isinstance(x, _SymTagged):
        x = SymInt(x.t)
    lo, hi = domain(x)
    if hi - lo + 1 > MAX_TAB:
        raise Unsupported("float arithmetic over too large a domain")
    return Tab(x, lo, list(range(lo, hi + 1)))


def tab_over(o, x, lo, n):
    """o as a table over x if o syntactically depends on x's term only (small domains)."""
    if n > 4096:
        return None
    vals = []
    for k in range(lo, lo + n):
        w = x.t.size() if z3.is_bv(x.t) else None
        v = z3.simplify(z3.substitute(o.t, (x.t, z3.BitVecVal(k, w) if w else z3.IntVal(k))))
        if z3.is_bv_value(v): vals.append(v.as_signed_long())
        elif z3.is_int_value(v): vals.append(v.as_long())
        else: return None
    return Tab(x, lo, vals)


# ------------------------------------------------------------------------------------------ floats
class SymFloat(Sym):
    """An opaque float: identified by how it was obtained (bytes + format, or an expression)."""
    __slots__ = ("key", "src")

    def __init__(self, key, src=None):
        self.key = key
        self.src = src          # (fmt, byte elems) when decoded from a payload

    __class__ = property(lambda self: float)

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            if self.key == o.key:
                return True      # reflexive: NaN payloads are excluded by the callers' preconditions
            if self.src and o.src and self.src[0] == o.src[0]:
                return bytes_eq(mkbytes([list(self.src[1])]), mkbytes([list(o.src[1])]))
            return SymBool(z3.Bool("feq(%r,%r)" % tuple(sorted([str(self.key), str(o.key)]))))
        if isinstance(o, (int, float)):
            return SymBool(z3.Bool("feqc(%s,%r)" % (self.key, o)))
        return False

    def __ne__(self, o): return not_(self.__eq__(o))

    def _op(self, name, o, rev=False):
        a, b = (o, self) if rev else (self, o)
        ka = a.key if isinstance(a, SymFloat) else repr(a)
        kb = b.key if isinstance(b, SymFloat) else repr(b)
        if isinstance(a, Sym) and not isinstance(a, SymFloat) or isinstance(b, Sym) and not isinstance(b, SymFloat):
            raise Unsupported("float arithmetic on mixed symbolic operands")
        return SymFloat("(%s %s %s)" % (ka, name, kb))

    def __add__(self, o): return self._op("+", o)
    def __radd__(self, o):
        if type(o) is float and o == 0.0:
            return SymFloat("(0.0 + %s)" % self.key)
        return self._op("+", o, True)
    def __mul__(self, o): return self._op("*", o)
    def __rmul__(self, o): return self._op("*", o, True)
    def __sub__(self, o): return self._op("-", o)
    def __truediv__(self, o): return self._op("/", o)
    def __hash__(self): raise Unsupported("hash of symbolic float")
    def __bool__(self): return bool(self != 0.0)
    def __repr__(self): return "<SymFloat %s>" % (str(self.key)[:60],)
    def __float__(self): raise Unsupported("C-level float() of symbolic float")
    def __lt__(self, o): return SymBool(z3.Bool("flt(%s,%s)" % (self.key, getattr(o, "key", repr(o)))))
    def __le__(self, o): return SymBool(z3.Bool("fle(%s,%s)" % (self.key, getattr(o, "key", repr(o)))))
    def __gt__(self, o): return SymBool(z3.Bool("fgt(%s,%s)" % (self.key, getattr(o, "key", repr(o)))))
    def __ge__(self, o): return SymBool(z3.Bool("fge(%s,%s)" % (self.key, getattr(o, "key", repr(o)))))

    def __getattr__(self, n):
        if n in _FLOAT_ATTRS:
            raise Unsupported("float.%s" % n)
        raise AttributeError("'float' object has no attribute %r" % n)


# ------------------------------------------------------------------------------------------ bytes
def bterm(b):
    return z3.BitVecVal(b, 8) if isinstance(b, int) else b


class Opq:
    """Slice [start, start+length) of the opaque byte sequence ``base``."""
    __slots__ = ("base", "start", "length")

    def __init__(self, base, start, length):
        self.base, self.start, self.length = base, start, length

    def elem(self, i):
        a = z3.Array("bytes:" + self.base, z3.IntSort(), z3.BitVecSort(8))
        idx = z3.simplify(zint(self.start) + zint(i))
        return z3.Select(a, idx)

    def __repr__(self):
        return "Opq(%s,%s,%s)" % (self.base, self.start, self.length)


class Enc:
    """Encoding of a text part (TextAtom or IntStr) in ``codec``."""
    __slots__ = ("part", "codec")

    def __init__(self, part, codec):
        self.part, self.codec = part, codec

    @property
    def length(self):
        return self.part.enclen(self.codec)

    def __repr__(self):
        return "Enc(%r,%s)" % (self.part, self.codec)


def _simp(t):
    """python int or simplified Int term"""
    if isinstance(t, Sym):
        t = zint(t)
    elif isinstance(t, int):
        return t
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


def clen(c):
    if isinstance(c, list):
        return len(c)
    return c.length


def tadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return _simp(zint(a) + zint(b))


def tsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return _simp(zint(a) - zint(b))


def wrapint(t):
    return t if isinstance(t, int) else SymInt(t)


def chunks_of(b):
    if isinstance(b, SymBytes):
        return list(b.chunks)
    if isinstance(b, SymByteArray):
        return list(b.chunks)
    if isinstance(b, (bytes, bytearray, memoryview)):
        return [list(bytes(b))] if len(b) else []
    raise Unsupported("not bytes: %r" % (type(b),))


def normalise(chunks):
    out = []
    for c in chunks:
        if isinstance(c, list):
            if not c:
                continue
            if out and isinstance(out[-1], list):
                out[-1] = out[-1] + c
            else:
                out.append(list(c))
        else:
            if isinstance(c, Opq):
                if isinstance(c.length, int) and c.length == 0:
                    continue
                if out and isinstance(out[-1], Opq) and out[-1].base == c.base:
                    p = out[-1]
                    d = _simp(zint(p.start) + zint(p.length) - zint(c.start))
                    if isinstance(d, int) and d == 0:
                        out[-1] = Opq(p.base, p.start, tadd(p.length, c.length))
                        continue
            out.append(c)
    return out


def mkbytes(chunks):
    chunks = normalise(chunks)
    if not chunks:
        return b""
    if len(chunks) == 1 and isinstance(chunks[0], list) and all(isinstance(b, int) for b in chunks[0]):
        return bytes(chunks[0])
    return SymBytes(chunks)


def vec(b):
    """List of byte elems if the structure is fully known, else None."""
    if isinstance(b, (bytes, bytearray)) and not isinstance(b, Sym):
        return list(b)
    ch = b.chunks
    out = []
    for c in ch:
        if isinstance(c, list):
            out.extend(c)
        elif isinstance(c, Opq) and isinstance(c.length, int) and c.length <= 4096:
            out.extend(c.elem(i) for i in range(c.length))
        else:
            return None
    return out


def total(chunks):
    n = 0
    for c in chunks:
        n = tadd(n, clen(c))
    return n


def le_(a, b):
    """a <= b for python ints / Int terms -> bool | z3"""
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return zint(a) <= zint(b)


def eq_(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zint(a) == zint(b)


def split(chunks, n):
    """(first n bytes, rest); n >= 0 python int or Int term; clipped at the end."""
    left, rest = [], list(chunks)
    c = ctx()
    while rest:
        if isinstance(n, int) and n == 0:
            break
        ch = rest[0]
        L = clen(ch)
        if c.fork(le_(L, n)):
            left.append(rest.pop(0))
            n = tsub(n, L)
            continue
        if isinstance(ch, list):
            k = n if isinstance(n, int) else SymInt(zint(n)).conc()
            left.append(ch[:k])
            rest[0] = ch[k:]
        elif isinstance(ch, Opq):
            if c.fork(eq_(n, 0)):
                break
            left.append(Opq(ch.base, ch.start, n))
            rest[0] = Opq(ch.base, tadd(ch.start, n), tsub(L, n))
        else:
            if c.fork(eq_(n, 0)):
                break
            raise Unsupported("split inside encoded text")
        break
    return normalise(left), normalise(rest)


def bytes_eq(a, b):
    """Equality of two (symbolic) byte strings as bool | SymBool."""
    x, y = normalise(chunks_of(a)), normalise(chunks_of(b))
    c = ctx()
    conds = []
    la, lb = total(x), total(y)
    e = eq_(la, lb)
    if e is False:
        return False
    if e is not True:
        if not c.fork(e):
            return False
    while x and y:
        p, q = x[0], y[0]
        lp, lq = clen(p), clen(q)
        if isinstance(p, list) and isinstance(q, list):
            k = min(lp, lq)
            for i in range(k):
                u, v = p[i], q[i]
                if isinstance(u, int) and isinstance(v, int):
                    if u != v:
                        return False
                else:
                    t = z3.simplify(bterm(u) == bterm(v))
                    if z3.is_false(t):
                        return False
                    if not z3.is_true(t):
                        conds.append(t)
            x = ([p[k:]] if k < lp else []) + x[1:]
            y = ([q[k:]] if k < lq else []) + y[1:]
            continue
        if isinstance(p, Enc) and isinstance(q, Enc) and p.codec == q.codec and p.part.same(q.part):
            x, y = x[1:], y[1:]
            continue
        if isinstance(p, Opq) and isinstance(q, Opq) and p.base == q.base and c.must(eq_(p.start, q.start)):
            if c.fork(le_(lp, lq)):
                d = tsub(lq, lp)
                x = x[1:]
                y = ([Opq(q.base, tadd(q.start, lp), d)] if not (isinstance(d, int) and d == 0) else []) + y[1:]
            else:
                x = [Opq(p.base, tadd(p.start, lq), tsub(lp, lq))] + x[1:]
                y = y[1:]
            continue
        if isinstance(p, Enc) or isinstance(q, Enc):
            # zero-length text?
            done = False
            for side, other in ((x, y), (y, x)):
                if isinstance(side[0], Enc) and not isinstance(clen(side[0]), int) and c.must(eq_(clen(side[0]), 0)):
                    side.pop(0)
                    done = True
                    break
            if done:
                continue
            raise Unsupported("comparison of text bytes with other bytes")
        # explode opaque against vector / differing bases
        if isinstance(p, list) or isinstance(q, list):
            v, o = (p, q) if isinstance(p, list) else (q, p)
            k = len(v)
            # does the opaque chunk cover all of v?
            lo = clen(o)
            if not c.fork(le_(k, lo)):
                k = SymInt(zint(lo)).conc()
            for i in range(k):
                conds.append(bterm(v[i]) == o.elem(i))
            no = tsub(lo, k)
            ro = [] if isinstance(no, int) and no == 0 else [Opq(o.base, tadd(o.start, k), no)]
            rv = [v[k:]] if k < len(v) else []
            if isinstance(p, list):
                x, y = rv + x[1:], ro + y[1:]
            else:
                x, y = ro + x[1:], rv + y[1:]
            continue
        # two different opaque sequences: equal lengths?
        if isinstance(lp, int) and isinstance(lq, int):
            k = min(lp, lq)
            for i in range(k):
                conds.append(p.elem(i) == q.elem(i))
            x = ([Opq(p.base, tadd(p.start, k), lp - k)] if lp > k else []) + x[1:]
            y = ([Opq(q.base, tadd(q.start, k), lq - k)] if lq > k else []) + y[1:]
            continue
        raise Unsupported("comparison of two opaque byte strings")
    for rest in (x, y):
        r = total(rest)
        if not c.must(eq_(r, 0)):
            if not c.fork(eq_(r, 0)):
                return False
    return and_(*conds)


class SymBytes(Sym):
    __slots__ = ("chunks",)

    def __init__(self, chunks):
        self.chunks = chunks

    __class__ = property(lambda self: bytes)

    def length(self):
        return wrapint(total(self.chunks))

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) and not isinstance(n, Sym) else n.conc()

    def __bytes__(self):
        raise Unsupported("C-level bytes() of symbolic bytes")

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mkbytes(chunks_of(self) + chunks_of(o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mkbytes(chunks_of(o) + chunks_of(self))

    def __mul__(self, k):
        return mkbytes(chunks_of(self) * int(k))

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        return bytes_eq(self, o)

    def __ne__(self, o): return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __bool__(self):
        return bool(self.length() != 0)

    def __iter__(self):
        v = vec(self)
        if v is None:
            n = len(self)
            v = []
            for c in self.chunks:
                if isinstance(c, list):
                    v.extend(c)
                elif isinstance(c, Opq):
                    k = clen(c)
                    k = k if isinstance(k, int) else SymInt(k).conc()
                    v.extend(c.elem(i) for i in range(k))
                else:
                    raise Unsupported("iteration over encoded text")
        return iter([decode_int([b], False) for b in v])

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                v = vec(self)
                if v is None:
                    raise Unsupported("stepped slice")
                return mkbytes([v[k]])
            n = total(self.chunks)
            a = 0 if k.start is None else k.start
            b = k.stop
            a, b = _bound(a, n), (n if b is None else _bound(b, n))
            left, rest = split(self.chunks, b)
            _, mid = split(left, a)
            return mkbytes(mid)
        n = total(self.chunks)
        i = k
        if bool(wrapint_(i) < 0):
            i = wrapint_(i) + wrapint(n)
        if bool(wrapint_(i) < 0) or bool(wrapint_(i) >= wrapint(n)):
            raise IndexError("index out of range")
        _, rest = split(self.chunks, _simp(i))
        ch = rest[0]
        if isinstance(ch, list):
            return decode_int([ch[0]], False)
        if isinstance(ch, Opq):
            return decode_int([ch.elem(0)], False)
        raise Unsupported("index into encoded text")

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_text(self, encoding, errors)

    def hex(self):
        raise Unsupported("bytes.hex")

    def _each(self, f):
        v = vec(self)
        if v is None:
            raise Unsupported("bytewise operation on bytes of unknown length")
        out = []
        for x in self:
            y = f(x)
            out.extend([y] if isinstance(y, int) and not isinstance(y, Sym) else encode_int(y, 1, False, lambda: ValueError("byte")))
        return mkbytes([out])

    def lower(self):
        return self._each(lambda x: ite(and_(x >= 65, x <= 90), x + 32, x))

    def upper(self):
        return self._each(lambda x: ite(and_(x >= 97, x <= 122), x - 32, x))

    def _strip(self, chars, left, right):
        chars = b" \t\n\r\x0b\f" if chars is None else chars
        if isinstance(chars, Sym) or vec(self) is None:
            raise Unsupported("bytes.strip")
        xs = list(self)
        a, b = 0, len(xs)
        hit = lambda x: bool(or_(*[x == k for k in chars])) if len(chars) else False
        while left and a < b and hit(xs[a]):
            a += 1
        while right and a < b and hit(xs[b - 1]):
            b -= 1
        return self[a:b]

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        n = len(p)
        return bool(self[:n] == p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        n = len(p)
        if not n:
            return True
        return bool(self[-n:] == p)

    def __repr__(self):
        return "<SymBytes %s>" % (str(self.chunks)[:80],)

    def __getattr__(self, n):
        if n in _BYTES_ATTRS:
            raise Unsupported("bytes.%s" % n)
        raise AttributeError(n)


def wrapint_(i):
    return i


def _bound(a, n):
    """slice bound normalisation against length n (ints or SymInts) -> int | Int term"""
    if isinstance(a, int) and not isinstance(a, Sym) and a >= 0:
        return a
    if bool(a < 0):
        r = tadd(_simp(a), n)
        if ctx().fork(le_(0, r)):
            return r
        return 0
    return _simp(a)


class SymByteArray(Sym):
    """Mutable byte buffer."""
    __slots__ = ("chunks",)

    def __init__(self, chunks=()):
        self.chunks = normalise(chunks)

    __class__ = property(lambda self: bytearray)

    def length(self):
        return wrapint(total(self.chunks))

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) and not isinstance(n, Sym) else n.conc()

    def extend(self, o):
        if isinstance(o, (bytes, bytearray)):
            self.chunks = normalise(self.chunks + chunks_of(o))
        else:
            for x in o:
                self.append(x)

    def append(self, v):
        if not is_num(v):
            raise TypeError("an integer is required")
        if bool(v < 0) or bool(v > 255):
            raise ValueError("byte must be in range(0, 256)")
        self.chunks = normalise(self.chunks + [encode_int(v, 1, False, lambda: ValueError("byte"))])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SymByteArray(chunks_of(self) + chunks_of(o))

    def __radd__(self, o):
        return SymByteArray(chunks_of(o) + chunks_of(self)) if isinstance(o, bytearray) else mkbytes(chunks_of(o) + chunks_of(self))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped bytearray assignment")
            n = total(self.chunks)
            a = _bound(0 if k.start is None else k.start, n)
            b = n if k.stop is None else _bound(k.stop, n)
            left, rest = split(self.chunks, a)
            if not ctx().fork(le_(a, b)):
                b = a
            _, right = split(self.chunks, b)
            self.chunks = normalise(left + chunks_of(v) + right)
        else:
            n = total(self.chunks)
            i = _bound(k, n)
            self[wrapint(i):wrapint(tadd(i, 1))] = mkbytes([encode_int(v, 1, False, lambda: ValueError("byte"))])

    def frozen(self):
        return mkbytes(list(self.chunks))

    def __getitem__(self, k):
        r = self.frozen()[k]
        if isinstance(k, slice):
            return SymByteArray(chunks_of(r))
        return r

    def __iter__(self):
        return iter(self.frozen())

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        return bytes_eq(self, o)

    def __ne__(self, o): return not_(self.__eq__(o))
    def __hash__(self): raise TypeError("unhashable type: 'bytearray'")
    def __bool__(self): return bool(self.length() != 0)

    def decode(self, encoding="utf-8", errors="strict"):
        f = self.frozen()
        return f.decode(encoding, errors)

    def clear(self):
        self.chunks = []

    def copy(self):
        return SymByteArray(list(self.chunks))

    def __repr__(self):
        return "<SymByteArray %s>" % (str(self.chunks)[:80],)

    def __getattr__(self, n):
        if n in dir(bytearray):
            raise Unsupported("bytearray.%s" % n)
        raise AttributeError(n)


# ------------------------------------------------------------------------------------------ text
_STRIDS = {"": 0}


def strid(s):
    if s not in _STRIDS:
        _STRIDS[s] = len(_STRIDS)
    return _STRIDS[s]


class TextAtom:
    """An arbitrary text.  ``code`` identifies its value (0 is the empty text); assumptions:
    encodable in ``codecs``; does not end in NUL when ``nonul``; contains none of ``without``."""

    def __init__(self, name, codecs=(), nonul=True, without=(), forbid=()):
        self.name = name
        self.codecs = set(codecs)
        self.nonul = nonul
        self.without = set(without)
        self.code = z3.Int("text:" + name)
        self.n = z3.Int("textlen:" + name)
        self.enc = {}

    def install(self, c):
        c.add(self.n >= 0)
        c.add((self.n == 0) == (self.code == 0))
        c.add(self.code >= 0)

    def enclen(self, codec):
        if codec == "ascii":
            return self.n
        key = codec
        if key not in self.enc:
            u = z3.Int("textenc:%s:%s" % (codec, self.name))
            c = ctx()
            self.enc[key] = u
            c.add(u >= 0)
            c.add((u == 0) == (self.n == 0))
            if codec == "utf-16-le":
                c.add(u % 2 == 0)
                c.add(u >= 2 * self.n)
                c.add(u <= 4 * self.n)
            elif codec in ("utf8", "utf-8"):
                c.add(u >= self.n)
                c.add(u <= 4 * self.n)
        return self.enc[key]

    def same(self, o):
        return o is self

    def __repr__(self):
        return "Text(%s)" % self.name


class IntStr:
    """Decimal representation of a non-negative symbolic integer."""

    def __init__(self, v):
        self.v = v
        self.n = z3.Int("declen:%d" % v.t.get_id())
        c = ctx()
        c.keep.append(v.t)
        c.add(self.n >= 1)
        if not z3.is_int(v.t):           # number of decimal digits
            k, d = 10, 1
            while k < 1 << v.t.size():
                c.add((self.n > d) == cond(v >= k))
                k, d = k * 10, d + 1
            c.add(self.n <= d)

    def enclen(self, codec):
        if codec in ("ascii", "utf8", "utf-8"):
            return self.n
        if codec == "utf-16-le":
            return _simp(self.n * 2)
        raise Unsupported("codec " + codec)

    def same(self, o):
        return isinstance(o, IntStr) and o.v.t.get_id() == self.v.t.get_id()

    def __repr__(self):
        return "IntStr(%s)" % (str(self.v.t)[:30],)


def _codec(name):
    n = name.lower().replace("_", "-")
    return {"utf8": "utf-8", "utf-16le": "utf-16-le", "us-ascii": "ascii", "utf16le": "utf-16-le"}.get(n, n)


class SymStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    __class__ = property(lambda self: str)

    @staticmethod
    def mk(parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SymStr(out)

    def length(self):
        n = 0
        for p in self.parts:
            n = tadd(n, len(p) if isinstance(p, str) else p.n)
        return wrapint(n)

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) and not isinstance(n, Sym) else n.conc()

    def __add__(self, o):
        if not isinstance(o, str): return NotImplemented
        return SymStr.mk(list(self.parts) + str_parts(o))

    def __radd__(self, o):
        if not isinstance(o, str): return NotImplemented
        return SymStr.mk(str_parts(o) + list(self.parts))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = list(self.parts), str_parts(o)
        while a and b:
            p, q = a[0], b[0]
            if isinstance(p, str) and isinstance(q, str):
                k = min(len(p), len(q))
                if p[:k] != q[:k]:
                    return False
                a[0:1] = [p[k:]] if len(p) > k else []
                b[0:1] = [q[k:]] if len(q) > k else []
            elif not isinstance(p, str) and not isinstance(q, str) and p.same(q):
                a.pop(0), b.pop(0)
            else:
                break
        while a and b:
            p, q = a[-1], b[-1]
            if isinstance(p, str) and isinstance(q, str):
                k = min(len(p), len(q))
                if p[-k:] != q[-k:]:
                    return False
                a[-1:] = [p[:-k]] if len(p) > k else []
                b[-1:] = [q[:-k]] if len(q) > k else []
            elif not isinstance(p, str) and not isinstance(q, str) and p.same(q):
                a.pop(), b.pop()
            else:
                break
        if not a and not b:
            return True
        if len(b) == 1 and len(a) == 1:
            if isinstance(a[0], str):
                a, b = b, a
            if isinstance(a[0], TextAtom) and isinstance(b[0], str):
                s = b[0]
                if any(w in s for w in a[0].without):
                    return False
                if a[0].nonul and s.endswith("\0"):
                    return False
                return mkbool(a[0].code == strid(s))
            if isinstance(a[0], TextAtom) and isinstance(b[0], TextAtom):
                return mkbool(a[0].code == b[0].code)
            if isinstance(a[0], IntStr) and isinstance(b[0], IntStr):
                return a[0].v == b[0].v
            if isinstance(a[0], IntStr) and isinstance(b[0], str):
                s = b[0]
                if s.isascii() and s.isdigit() and str(int(s)) == s:
                    return a[0].v == int(s)
                return False
        if not a or not b:
            rest = a or b
            if any(isinstance(p, (str, IntStr)) for p in rest):
                return False
            return and_(*[mkbool(p.code == 0) for p in rest])
        # pairwise alignment of dotted numbers
        def toks(parts):
            return parts
        raise Unsupported("text comparison %r vs %r" % (a, b))

    def __ne__(self, o): return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __bool__(self):
        if any(isinstance(p, (str, IntStr)) for p in self.parts):
            return True
        return bool(or_(*[mkbool(p.code != 0) for p in self.parts]))

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_text(self, encoding, errors)

    def rstrip(self, chars=None):
        if chars != "\0":
            raise Unsupported("rstrip(%r)" % (chars,))
        parts = list(self.parts)
        while parts:
            p = parts[-1]
            if isinstance(p, str):
                s = p.rstrip("\0")
                parts.pop()
                if s:
                    parts.append(s)
                    break
                continue
            if isinstance(p, IntStr):
                break
            if not p.nonul:
                raise Unsupported("rstrip of text that may end in NUL")
            if len(parts) == 1:
                break
            if ctx().fork(p.code == 0):
                parts.pop()
                continue
            break
        return SymStr.mk(parts)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1 or isinstance(sep, Sym):
            raise Unsupported("str.split")
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            elif isinstance(p, IntStr) and not any(ch.isdigit() for ch in sep):
                out[-1].append(p)
            elif isinstance(p, TextAtom) and sep in p.without:
                out[-1].append(p)
            else:
                raise Unsupported("split of arbitrary text")
        return [SymStr.mk(x) for x in out]

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            if k.start in (None, 0) and isinstance(k.stop, int) and k.stop < 0:
                n = -k.stop
                parts = list(self.parts)
                if isinstance(parts[-1], str) and len(parts[-1]) >= n:
                    parts[-1] = parts[-1][:-n]
                    return SymStr.mk(parts)
            if k.stop is None and isinstance(k.start, int) and k.start >= 0:
                if isinstance(self.parts[0], str) and len(self.parts[0]) >= k.start:
                    return SymStr.mk([self.parts[0][k.start:]] + list(self.parts[1:]))
        raise Unsupported("index into symbolic text")

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        if isinstance(self.parts[0], str) and not isinstance(p, Sym):
            if len(self.parts[0]) >= len(p):
                return self.parts[0].startswith(p)
            if not p.startswith(self.parts[0]):
                return False
        raise Unsupported("startswith on symbolic text")

    def __iter__(self):
        raise Unsupported("iteration over symbolic text")

    def __contains__(self, s):
        if isinstance(s, str) and not isinstance(s, Sym):
            hit = False
            for p in self.parts:
                if isinstance(p, str):
                    if s in p:
                        return True
                elif isinstance(p, TextAtom):
                    if s not in p.without:
                        raise Unsupported("in on symbolic text")
                elif isinstance(p, IntStr) and any(ch.isdigit() for ch in s):
                    raise Unsupported("in on symbolic text")
            if len(s) == 1:
                return False
        raise Unsupported("in on symbolic text")

    def __str__(self):
        return "<SymStr>"

    def __repr__(self):
        return "<SymStr %s>" % (str(self.parts)[:80],)

    def __format__(self, spec):
        return repr(self)

    def __mod__(self, o):
        raise Unsupported("str % on symbolic text")

    def __getattr__(self, n):
        if n in _STR_ATTRS:
            raise Unsupported("str.%s" % n)
        raise AttributeError("'str' object has no attribute %r" % n)


def str_parts(s):
    if isinstance(s, SymStr):
        return list(s.parts)
    return [s] if s else []


def encode_text(s, encoding, errors="strict"):
    if errors != "strict":
        raise Unsupported("encode errors=%r" % errors)
    codec = _codec(encoding)
    chunks = []
    for p in str_parts(s):
        if isinstance(p, str):
            chunks.append(list(p.encode(codec)))
        elif isinstance(p, IntStr):
            chunks.append(Enc(p, codec))
        else:
            if codec not in p.codecs:
                c = ctx()
                if codec in ("utf-8", "utf-16-le") and "ascii" in p.codecs:
                    pass
                elif not c.fork(z3.Bool("encodable:%s:%s" % (codec, p.name))):
                    raise UnicodeEncodeError(codec, "?", 0, 1, "symbolic text not encodable")
            chunks.append(Enc(p, codec))
    return mkbytes(chunks)


def decode_text(b, encoding, errors="strict"):
    if errors != "strict":
        raise Unsupported("decode errors=%r" % errors)
    codec = _codec(encoding)
    parts = []
    pend = []

    def flush():
        if pend:
            parts.append(bytes(pend).decode(codec))
            del pend[:]
    for ch in (b.chunks if isinstance(b, Sym) else [list(b)]):
        if isinstance(ch, list):
            if all(isinstance(x, int) for x in ch):
                pend.extend(ch)
                continue
            if codec == "ascii":
                flush()
                conc = []
                for x in ch:
                    v = decode_int([x], False)
                    conc.append(v if isinstance(v, int) and not isinstance(v, Sym) else v.conc())
                parts.append(bytes(conc).decode(codec))
                continue
            raise Unsupported("decode of symbolic bytes")
        flush()
        if isinstance(ch, Enc):
            if ch.codec == codec:
                parts.append(ch.part)
                continue
            raise Unsupported("decode with a different codec")
        # opaque bytes: either undecodable, or some text whose encoding is these bytes
        c = ctx()
        key = ("dec", codec, ch.base, str(ch.start), str(ch.length))
        if not c.fork(z3.Bool("decodable:%s:%s:%s:%s" % key[1:])):
            raise UnicodeDecodeError(codec, b"", 0, 1, "symbolic bytes not decodable")
        if key not in c.memo:
            a = TextAtom("dec(%s)" % (key[1:],), codecs=[codec], nonul=False)
            a.install(c)
            c.memo[key] = a
        raise Unsupported("decoded opaque bytes")
    flush()
    return SymStr.mk(parts)


# ------------------------------------------------------------------------------------------ streams
class SymStream(Sym):
    """io.BytesIO over possibly symbolic content."""
    __slots__ = ("chunks", "pos")

    def __init__(self, init=b""):
        self.chunks = normalise(chunks_of(init))
        self.pos = 0

    def read(self, n=-1):
        _, rest = split(self.chunks, self.pos)
        if n is None or (isinstance(n, int) and not isinstance(n, Sym) and n < 0):
            self.pos = total(self.chunks) if rest else self.pos
            return mkbytes(rest)
        if isinstance(n, SymInt) and bool(n < 0):
            raise Unsupported("negative symbolic read size")
        got, _ = split(rest, _simp(n))
        self.pos = tadd(self.pos, total(got))
        return mkbytes(got)

    def write(self, b):
        if not isinstance(b, (bytes, bytearray)):
            raise TypeError("a bytes-like object is required")
        end = total(self.chunks)
        if not ctx().must(eq_(self.pos, end)):
            if not ctx().must(cond(wrapint(self.pos) <= wrapint(end))):
                raise Unsupported("write behind the end")
            left, _ = split(self.chunks, self.pos)
            n = tadd(self.pos, total(chunks_of(b)))
            _, right = split(self.chunks, n)
            self.chunks = normalise(left + chunks_of(b) + right)
            self.pos = n
            return wrapint(total(chunks_of(b)))
        self.chunks = normalise(self.chunks + chunks_of(b))
        self.pos = total(self.chunks)
        return wrapint(total(chunks_of(b)))

    def tell(self):
        return wrapint(self.pos)

    def seek(self, off, whence=0):
        o = _simp(off)
        if whence == 0:
            self.pos = o
        elif whence == 1:
            self.pos = tadd(self.pos, o)
        else:
            self.pos = tadd(total(self.chunks), o)
        return wrapint(self.pos)

    def getvalue(self):
        return mkbytes(list(self.chunks))

    def getbuffer(self):
        return self.getvalue()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __getattr__(self, n):
        raise Unsupported("stream.%s" % n)
