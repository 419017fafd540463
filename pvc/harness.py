"""The interface contracts are written against.  One contract = one function ``f(h, **params)``.

The same function is executed in three modes:
  SYM       all paths, symbolic inputs, obligations go to the solver       (instrumented sources)
  CONCRETE  one run with given inputs (replay of a counterexample)         (plain sources)
  RANDOM    seeded inputs: run-time check of the same contract             (plain sources)
"""
import os
import random
import re


class Violated(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, name)
        self.name = name
        self.detail = detail


class Skip(BaseException):
    """Assumption not met (concrete modes); not an Exception, so that the code under test doesn't handle it."""


def unavailable(e):
    """the contract names a module member the current tree no longer has under that name: undecided, not a verdict"""
    if isinstance(e, ImportError) and ("pyflp" in str(e) or "pyflp" in str(getattr(e, "name", ""))):
        return True
    return isinstance(e, AttributeError) and re.match(r"module '?pyflp[.\w]*'? has no attribute", str(e)) is not None


class _Base:
    sym = False

    def u8(self, name): return self.int(name, 0, 255)
    def u16(self, name): return self.int(name, 0, 65535)
    def u32(self, name): return self.int(name, 0, (1 << 32) - 1)
    def i8(self, name): return self.int(name, -128, 127)
    def i16(self, name): return self.int(name, -32768, 32767)
    def i32(self, name): return self.int(name, -(1 << 31), (1 << 31) - 1)

    def outside(self, why):
        """the code does something this contract has no say about: undecided, not a verdict"""
        if self.sym:
            from .engine import Unsupported
            raise Unsupported(why)
        raise Skip(why)

    def raises(self, fn, *excs):
        """Run fn(); returns the exception instance if it raised (one of excs / any Exception) else None."""
        try:
            fn()
        except (excs or (Exception,)) as e:
            return e
        return None

    def save(self, project, name="out.flp"):
        """what saving the project writes"""
        import pyflp
        pyflp.save(project, self.path(name))
        return self.get(name)

    def load(self, data, name="in.flp"):
        import pyflp
        return pyflp.parse(self.put(name, data))

    def eq(self, a, b):
        return a == b

    def proveeq(self, name, a, b):
        self.prove(name, self.eq(a, b), lambda: "%r != %r" % (a, b))


class SymH(_Base):
    sym = True
    sampling = False
    mode = "SYM"

    # ---- files (virtual)
    def _files(self):
        from . import intercept as I
        return I._fs().files

    def put(self, name, data):
        """a file with that content; returns its path"""
        p = "/virtual/" + name
        self._files()[p] = data
        return p

    def get(self, name):
        """content of a file, None if it does not exist"""
        return self._files().get("/virtual/" + name)

    def path(self, name):
        return "/virtual/" + name

    def others(self, *names):
        """files other than these"""
        return sorted(set(self._files()) - {"/virtual/" + n for n in names})

    def __init__(self, c):
        from . import values as V, engine as E
        self.c = c
        self.V = V
        self.z3 = E.z3
        self.E = E

    # ---- inputs
    def int(self, name, lo, hi):
        V, z3 = self.V, self.z3
        w = max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length())
        if lo >= 0 and hi == (1 << w) - 1 and lo == 0:
            bv = z3.BitVec(name, w)
            x = V.SymInt(z3.ZeroExt(1, bv))
            self._in(name, lambda m, t: m.eval(t, model_completion=True).as_long(), bv)
            return x
        bv = z3.BitVec(name, w + 1)
        x = V.SymInt(bv)
        self._in(name, lambda m, t: m.eval(t, model_completion=True).as_signed_long(), bv)
        self.c.assume(V.cond(V.and_(x >= lo, x <= hi)))
        return x

    def anyint(self, name):
        """mathematical integer of any magnitude"""
        z3 = self.z3
        if self.c.choose(2) == 0:           # moderate magnitude: bit-vector
            t = z3.BitVec(name, 49)
            self._in(name, lambda m, t: m.eval(t, model_completion=True).as_signed_long(), t)
            return self.V.SymInt(t)
        t = z3.Int(name + ":big")           # beyond that: linear arithmetic
        self._in(name, lambda m, t: m.eval(t, model_completion=True).as_long(), t)
        self.c.assume(z3.Or(t >= 1 << 48, t < -(1 << 48)))
        return self.V.SymInt(t)

    def number(self, name):
        """natural number of any magnitude"""
        t = self.z3.Int(name)
        self._in(name, lambda m, t: m.eval(t, model_completion=True).as_long(), t)
        self.c.assume(t >= 0)
        return self.V.SymInt(t)

    def _in(self, name, kind, obj):
        self.c.inputs.append((name, kind, obj))

    def bool(self, name):
        t = self.z3.Bool(name)
        self._in(name, lambda m, t: self.z3.is_true(m.eval(t, model_completion=True)), t)
        return self.V.SymBool(t)

    def bytes(self, name, n):
        z3 = self.z3
        els = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        self._in(name, lambda m, ts: {"hex": bytes(m.eval(t, model_completion=True).as_long() for t in ts).hex()}, els)
        return self.V.mkbytes([els])

    def blob(self, name, lo=0, hi=None):
        """bytes of arbitrary length"""
        z3, V = self.z3, self.V
        n = z3.Int("len:" + name)
        self.c.add(n >= lo)
        if hi is not None:
            self.c.add(n <= hi)

        def ext(m, t):
            k = m.eval(t, model_completion=True).as_long()
            if k > 100000:
                raise self.E.Unsupported("blob too large")
            a = z3.Array("bytes:" + name, z3.IntSort(), z3.BitVecSort(8))
            return {"hex": bytes(m.eval(z3.Select(a, z3.IntVal(i)), model_completion=True).as_long() if i < 64 else 0
                                 for i in range(k)).hex()}
        self._in(name, ext, n)
        return V.mkbytes([V.Opq(name, 0, n)])

    def text(self, name, codecs=("ascii", "utf-8", "utf-16-le"), without=(), nonempty=False, nonul=True, maxlen=1 << 20):
        a = self.V.TextAtom(name, codecs=codecs, nonul=nonul, without=without)
        a.install(self.c)
        self.c.add(a.n <= maxlen)
        if nonempty:
            self.c.add(a.n > 0)

        def ext(m, a):
            n = m.eval(a.n, model_completion=True).as_long()
            code = m.eval(a.code, model_completion=True).as_long()
            for s, i in self.V._STRIDS.items():
                if i == code:
                    return s
            al = "bcdefghijklmnoqrstuvwxyz" if "ascii" in codecs else "\u00e9\u00f1\u4e2d\u0436\u03a9"
            return (al[code % len(al)] * min(max(n, 1), 4000))[:max(n, 1)]
        self._in(name, ext, a)
        return self.V.SymStr([a])

    def choice(self, name, seq):
        seq = list(seq)
        i = self.c.choose(len(seq))
        self._in(name, lambda m, i: i, i)
        return seq[i]

    # ---- logic
    def assume(self, c):
        self.c.assume(self.V.cond(c))

    def prove(self, name, c, detail=None):
        self.c.prove(name, self.V.cond(c), detail or "")

    def and_(self, *cs): return self.V.and_(*cs)
    def or_(self, *cs): return self.V.or_(*cs)
    def not_(self, c): return self.V.not_(c)
    def implies(self, a, b): return self.V.implies(a, b)
    def ite(self, c, a, b): return self.V.ite(c, a, b)

    def eq(self, a, b):
        """deep equality without forking"""
        V = self.V
        if a is b:
            return True
        sa, sb = issubclass(type(a), V.Sym), issubclass(type(b), V.Sym)
        if not sa and not sb:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b):
                    return False
                return V.and_(*[self.eq(x, y) for x, y in zip(a, b)])
            if isinstance(a, dict) and isinstance(b, dict):
                a = {k: v for k, v in a.items() if not (isinstance(k, str) and k.startswith("_"))}
                b = {k: v for k, v in b.items() if not (isinstance(k, str) and k.startswith("_"))}
                if set(a) != set(b):
                    return False
                return V.and_(*[self.eq(a[k], b[k]) for k in a])
            r = a == b
            return r
        r = (a == b) if sa else (b == a)
        return False if r is NotImplemented else r

    def byte_at(self, b, i):
        return b[i]

    def fresh_stream(self, b):
        return self.V.SymStream(b)


class _Conc(_Base):
    _dir = None

    def path(self, name):
        if self._dir is None:
            import tempfile
            self._dir = tempfile.mkdtemp(prefix="pvc.")
        return os.path.join(self._dir, name)

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)
        return self.path(name)

    def get(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def others(self, *names):
        self.path("x")
        return sorted(set(os.listdir(self._dir)) - set(names))

    def cleanup(self):
        if self._dir is not None:
            import shutil
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or b
    def ite(self, c, a, b): return a if c else b

    def __init__(self):
        self.proved = {}
        self.used = {}

    def assume(self, c):
        if not c:
            raise Skip()

    def prove(self, name, c, detail=None):
        if not c:
            d = detail() if callable(detail) else (detail or "")
            raise Violated(name, d)
        self.proved[name] = self.proved.get(name, 0) + 1

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            a = {k: v for k, v in a.items() if not (isinstance(k, str) and k.startswith("_"))}
            b = {k: v for k, v in b.items() if not (isinstance(k, str) and k.startswith("_"))}
            return set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(a == b)

    def fresh_stream(self, b):
        import io
        return io.BytesIO(b)


def dec(v):
    if isinstance(v, dict) and "hex" in v:
        return bytes.fromhex(v["hex"])
    return v


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    return v


CURRENT = []        # the sampling harness in use, number of contents drawn


def filler(fixed):
    """source of contents that do not matter: fixed in proofs, random when sampling"""
    if not CURRENT:
        return fixed, ""
    CURRENT[1] += 1
    return CURRENT[0], "~%d." % CURRENT[1]


class ConcreteH(_Conc):
    mode = "CONCRETE"

    def __init__(self, inputs):
        _Conc.__init__(self)
        self.inputs = inputs
        self.sampling = bool(inputs.get("~sampled"))
        CURRENT[:] = [self, 0] if self.sampling else []
        if self.sampling:
            self.used["~sampled"] = True

    def _get(self, name, default):
        v = dec(self.inputs[name]) if name in self.inputs else default
        self.used[name] = enc(v)
        return v

    def int(self, name, lo, hi): return self._get(name, lo if lo > 0 else (0 if hi >= 0 else hi))
    def anyint(self, name): return self._get(name, 0)
    def number(self, name): return self._get(name, 0)
    def bool(self, name): return self._get(name, False)
    def bytes(self, name, n): return self._get(name, b"\0" * n)
    def blob(self, name, lo=0, hi=None): return self._get(name, b"\0" * lo)
    def text(self, name, codecs=(), without=(), nonempty=False, nonul=True, maxlen=1 << 20): return self._get(name, "b" if nonempty else "")

    def choice(self, name, seq):
        seq = list(seq)
        i = self._get(name, 0)
        return seq[i if i < len(seq) else 0]


class RandomH(_Conc):
    mode = "RANDOM"
    sampling = True         # contents that a proof fixes are random as well

    def __init__(self, seed):
        _Conc.__init__(self)
        CURRENT[:] = [self, 0]
        self.used["~sampled"] = True
        self.r = random.Random(seed)

    def _note(self, name, v, raw=None):
        self.used[name] = enc(v if raw is None else raw)
        return v

    def int(self, name, lo, hi):
        r = self.r
        k = r.random()
        if k < 0.25:
            v = r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1), 0 if lo <= 0 <= hi else lo, 1 if lo <= 1 <= hi else lo])
        elif k < 0.45 and hi - lo > 300:
            v = min(hi, max(lo, r.randint(-3, 300)))
        elif k < 0.6 and hi - lo > 300:
            v = min(hi, max(lo, (1 << r.randint(0, max(1, hi.bit_length()))) + r.randint(-1, 1)))
        else:
            v = r.randint(lo, hi)
        return self._note(name, v)

    def anyint(self, name):
        r = self.r
        v = r.choice([0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
                      -128, -129, -32768, -32769, -2 ** 31, -2 ** 31 - 1, r.randint(-10 ** 12, 10 ** 12), r.randint(0, 300)])
        return self._note(name, v)

    def number(self, name): return self._note(name, self.r.choice((0, 0, 1, 1, 2, 3, 7)))
    def bool(self, name): return self._note(name, self.r.random() < 0.5)

    def bytes(self, name, n):
        r = self.r
        k = r.random()
        if k < 0.1:
            v = b"\0" * n
        elif k < 0.2:
            v = b"\xff" * n
        elif k < 0.4:
            v = bytes(r.choice([0, 0, 0, 1, 2, 127, 128, 255]) for _ in range(n))
        else:
            v = bytes(r.getrandbits(8) for _ in range(n))
        return self._note(name, v)

    def blob(self, name, lo=0, hi=None):
        r = self.r
        h = 300 if hi is None else min(hi, 300)
        n = r.choice([lo, lo, min(h, lo + 1), r.randint(lo, max(lo, min(h, 20))), r.randint(lo, max(lo, h))])
        return self._note(name, bytes(r.getrandbits(8) for _ in range(n)))

    def text(self, name, codecs=("ascii", "utf-8", "utf-16-le"), without=(), nonempty=False, nonul=True, maxlen=1 << 20):
        r = self.r
        al = "abcXYZ019 _-.\r\n\t%{}\x7f\x01" if "ascii" in codecs else "abcXYZ019 _-.\r\n\t%{}\u00e9\u4e2d\U0001f600\u0100\ufeff\u3000\u200b"
        if not nonul:
            al += "\0\0"
        al = "".join(ch for ch in al if ch not in without)
        n = r.choice([0, 1, 2, 3, 8, 8, 40, 130])
        if nonempty:
            n = max(1, n)
        s = "".join(r.choice(al) for _ in range(n))
        return self._note(name, s)

    def choice(self, name, seq):
        seq = list(seq)
        i = self.r.randrange(len(seq))
        self._note(name, i)
        return seq[i]

    def assume(self, c):
        if not c:
            raise Skip()


class GuidedH(RandomH):
    """the given inputs; those not given are random"""
    sampling = False

    def __init__(self, seed, inputs):
        RandomH.__init__(self, seed)
        CURRENT[:] = []
        del self.used["~sampled"]
        self.inputs = inputs

    def _given(self, name, draw):
        if name in self.inputs:
            v = dec(self.inputs[name])
            self.used[name] = enc(v)
            return v
        return draw()

    def int(self, name, *a): return self._given(name, lambda: RandomH.int(self, name, *a))
    def anyint(self, name): return self._given(name, lambda: RandomH.anyint(self, name))
    def number(self, name): return self._given(name, lambda: RandomH.number(self, name))
    def bool(self, name): return self._given(name, lambda: RandomH.bool(self, name))
    def bytes(self, name, n): return self._given(name, lambda: RandomH.bytes(self, name, n))
    def blob(self, name, *a, **k): return self._given(name, lambda: RandomH.blob(self, name, *a, **k))
    def text(self, name, *a, **k): return self._given(name, lambda: RandomH.text(self, name, *a, **k))

    def choice(self, name, seq):
        seq = list(seq)
        if name not in self.inputs:
            return RandomH.choice(self, name, seq)
        i = self.inputs[name]
        self.used[name] = i
        return seq[i if i < len(seq) else 0]


class Unit:
    """One contract instance."""

    def __init__(self, name, fn, kw=None, funcs=(), level="proof", max_s=60.0, audit=30, max_paths=20000, note="", sym=True):
        self.name = name
        self.fn = fn
        self.kw = kw or {}
        self.funcs = list(funcs)
        self.level = level        # "proof" (for all inputs) or "bounded" (structure bounded; note says how)
        self.max_s = max_s
        self.audit = audit        # random runs (quick)
        self.max_paths = max_paths
        self.note = note
        self.sym = sym


def borrow(mod, tier, *prefixes):
    """contracts of another property that this one depends on as well"""
    import importlib
    us = [u for u in importlib.import_module("hs." + mod).units(tier) if u.name.startswith(prefixes)]
    for u in us:
        u.name = "%s:%s" % (mod, u.name)
    return us
