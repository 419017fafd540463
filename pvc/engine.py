"""Path exploration, obligations and solver access.

A *harness* is run repeatedly; every run follows one path.  Branches on symbolic conditions call
``CTX.fork`` which explores both sides when both are satisfiable (depth first, by replaying the harness
with a decision prefix).  ``CTX.prove`` turns a claim into the obligation  path-condition => claim.
"""
import os
import subprocess
import tempfile
import time
import traceback

from . import z3load
from .harness import unavailable

z3 = z3load.load()


class PathDone(BaseException):
    """The current path ends here (infeasible, or cut by an invariant)."""


class Unsupported(BaseException):
    """The engine has no sound model for what the code just did: obligation undecided."""


class Budget(BaseException):
    """Path or time budget exhausted: undecided."""


CTX = None
SOLVER_TIMEOUT_MS = 20000


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.cvc5 = 0
        self.syntactic = 0
        self.by = {"z3": 0, "cvc5": 0, "simplify": 0, "eval": 0}


class Ctx:
    """State of one path."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []          # decisions taken: (choice, n_alternatives_left)
        self.solver = z3.Solver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.known = {}
        self.inputs = []         # (name, kind, term/obj) in creation order
        self.fresh_n = 0
        self.fs = {}             # virtual file system
        self.notes = []
        self.memo = {}           # per-path memo tables for symbolic libraries
        self.keep = []           # keep z3 asts alive so that ids stay unique
        self.while_policy = None
        self.blocks = {}         # id of abstract bytes -> (bytes, number of frames in it)
        self.recs = {}           # name -> block of records (pvc.blocks)
        self.recs_open = set()   # record sizes whose hypothesis has not been discharged
        self.symdicts = {}       # id -> dict with symbolic keys

    # ---- solver -------------------------------------------------------------------
    def check(self, *conds):
        st = self.ex.stats
        t = time.time()
        r = self.solver.check(*conds)
        st.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            with open("/tmp/slow.txt", "a") as f:
                f.write("%.1fs %s\n%s\n--\n%s\n%s\n\n" % (time.time() - t, r, "".join(traceback.format_stack(limit=9)[:-1]), self.solver.sexpr()[-6000:], conds))
        st.queries += 1
        return r

    def add(self, cond):
        self.keep.append(cond)
        self.solver.add(cond)
        self._learn(cond, True)

    def _learn(self, cond, val):
        self.known[cond.get_id()] = val
        if z3.is_not(cond):
            c = cond.arg(0)
            self.keep.append(c)
            self._learn(c, not val)
        elif val and z3.is_and(cond):
            for c in cond.children():
                self.keep.append(c)
                self._learn(c, True)

    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    # ---- branching ------------------------------------------------------------------
    def fork(self, cond):
        """Truth of ``cond`` on this path; explores both values if both are possible."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.keep.append(cond)
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        i = len(self.trace)
        self.ex.check_budget()
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append(val)
        else:
            ncond = z3.Not(cond)
            rt = self.check(cond)
            if rt == z3.unsat:
                val = False
            else:
                rf = self.check(ncond)
                if rf == z3.unsat:
                    val = True
                else:
                    val = True
                    self.ex.push(self.trace + [False])
            self.trace.append(val)
        if val:
            self.add(cond)
        else:
            self.keep.append(z3.Not(cond))
            self.add(z3.Not(cond))
            self.known[cond.get_id()] = False
        return val

    def choose(self, n):
        """Nondeterministic choice among range(n), all explored."""
        if n <= 1:
            return 0
        i = len(self.trace)
        self.ex.check_budget()
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.ex.push(self.trace + [alt])
        self.trace.append(v)
        return v

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathDone
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathDone
        self.add(cond)
        if len(self.trace) >= len(self.prefix):
            if self.check() == z3.unsat:
                raise PathDone

    def must(self, cond):
        """Is cond entailed by the path condition? (False also when unknown)"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.keep.append(cond)
        if cond.get_id() in self.known:
            return self.known[cond.get_id()]
        return self.check(z3.Not(cond)) == z3.unsat

    # ---- obligations ---------------------------------------------------------------
    def prove(self, name, cond, detail=""):
        ex = self.ex
        if self.memo.get("inside"):
            raise Unsupported("a loop is left at an element of an abstract block")
        if cond is True:
            ex.ok(name, "eval")
            return True
        if cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                ex.ok(name, "simplify")
                return True
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.check(neg)
        if r == z3.unsat:
            if cond is False:
                raise PathDone      # the path itself is infeasible
            ex.ok(name, "z3")
            if ex.cross:
                self.cross_check(name, neg)
            return True
        if r == z3.sat:
            ex.fail(name, self.extract(self.solver.model()), detail, self)
            raise PathDone
        r2 = self.cvc5(neg)
        if r2 == "unsat":
            ex.ok(name, "cvc5")
            return True
        ex.undecided(name, "solver: unknown (%s)" % self.solver.reason_unknown(), self)
        return False

    def smt2(self, neg):
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(neg)
        return s.to_smt2()

    def cvc5(self, neg, timeout=20):
        self.ex.stats.cvc5 += 1
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + self.smt2(neg))
            p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), f.name],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 5)
            out = p.stdout.decode().strip().splitlines()
            return out[0] if out else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.ex.stats.solver_s += time.time() - t
            try:
                os.unlink(f.name)
            except OSError:
                pass

    def cross_check(self, name, neg):
        r = self.cvc5(neg)
        self.ex.cross_results.append((name, r))
        if r == "sat":
            self.ex.undecided(name, "cvc5 disagrees with z3")

    def extract(self, model):
        """Concrete values of all inputs created on this path."""
        out = {}
        for name, kind, obj in self.inputs:
            try:
                out[name] = kind(model, obj)
            except Unsupported:
                pass
        return out

    def model_value(self, term):
        """Some feasible value of an integer/bv/bool term (None if unknown)."""
        if self.check() != z3.sat:
            return None
        return self.solver.model().eval(term, model_completion=True)


SLOW = float(os.environ.get("PVC_SLOW", 0))


class Failure(dict):
    pass


class Explorer:
    """Runs one harness over all its paths."""

    def __init__(self, fn, max_paths=20000, max_s=600.0, cross=False, max_failures=3):
        self.fn = fn
        self.max_paths = max_paths
        self.deadline = time.time() + max_s
        self.stack = [[]]
        self.stats = Stats()
        self.obligations = {}     # name -> dict(discharged, failed, undecided)
        self.failures = []
        self.undec = []
        self.paths = 0
        self.done_paths = 0
        self.cross = cross
        self.cross_results = []
        self.max_failures = max_failures
        self.covered = set()
        self.sample = None
        self.witnesses = []       # inputs that lead to undecided paths

    def push(self, prefix):
        self.stack.append(prefix)

    def check_budget(self):
        if time.time() > self.deadline:
            raise Budget("time")

    def _ob(self, name):
        return self.obligations.setdefault(name, {"ok": 0, "fail": 0, "undec": 0})

    def ok(self, name, how):
        self._ob(name)["ok"] += 1
        self.stats.by[how] += 1

    def fail(self, name, inputs, detail, ctx):
        self._ob(name)["fail"] += 1
        try:
            detail = detail() if callable(detail) else detail
        except Exception:
            detail = ""
        self.failures.append(Failure(
            obligation=name, inputs=inputs, detail=str(detail)[:2000],
            trace=list(ctx.trace), notes=list(ctx.notes),
            smt=[str(a)[:300] for a in ctx.solver.assertions()][:40]))

    def exception(self, c, e):
        """An exception escaped the contract: a violation if it reproduces on the real code."""
        name = "no unexpected exception"
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        r = c.check()
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.undecided(name, "solver: unknown")
            return
        self._ob(name)["fail"] += 1
        self.failures.append(Failure(obligation=name, kind="exception", inputs=c.extract(c.solver.model()),
                                     detail=tb[-3000:], trace=list(c.trace), notes=list(c.notes), smt=[]))

    def undecided(self, name, why, c=None):
        self._ob(name)["undec"] += 1
        self.undec.append((name, why))
        if c is not None and len(self.witnesses) < 24:
            try:
                if c.check() == z3.sat:
                    self.witnesses.append({"obligation": name, "why": why, "inputs": c.extract(c.solver.model())})
            except (Unsupported, Budget, z3.Z3Exception):
                pass

    def run(self):
        global CTX
        while self.stack:
            if self.paths >= self.max_paths or time.time() > self.deadline:
                self.undecided("<exploration>", "budget: %d paths" % self.paths)
                break
            if len(self.failures) >= self.max_failures:
                break
            prefix = self.stack.pop()
            self.paths += 1
            CTX = Ctx(self, prefix)
            try:
                self.fn(CTX)
                self.done_paths += 1
            except PathDone:
                pass
            except Unsupported as e:
                self.undecided("<path>", "unsupported: %s" % (e,), CTX)
            except Budget as e:
                self.undecided("<exploration>", "budget: %s" % (e,))
                break
            except RecursionError:
                self.undecided("<path>", "recursion limit", CTX)
            except Exception as e:
                if unavailable(e):
                    self.undecided("<path>", "contract does not apply: %s" % (e,), CTX)
                else:
                    self.exception(CTX, e)
            finally:
                CTX = None
        return self


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside of a path")
    return CTX
