"""Import hook: loads the current sources through an AST pass that makes C-level calls, ``in``, f-strings, ``%`` on
text, literal conditional expressions, loops and comprehensions observable.  Nothing else is changed."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import intercept as I
from . import loops as L

REPO = os.environ.get("PVC_REPO", "/repo")
SITE = None
ROOTS = {}

_NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__", "isinstance", "issubclass", "TypeVar",
           "ParamSpec", "NamedTuple", "cast", "overload", "field", "dataclass"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _assigned(fn):
    """Local names of a function node (not of nested scopes)."""
    out, excl = set(), set()
    args = fn.args
    for a in list(args.args) + list(args.kwonlyargs) + list(getattr(args, "posonlyargs", [])):
        out.add(a.arg)
    for a in (args.vararg, args.kwarg):
        if a:
            out.add(a.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            excl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            excl.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        for ch in ast.iter_child_nodes(n):
            walk(ch)
    for s in fn.body:
        walk(s)
    return sorted(x for x in out - excl if not x.startswith("_pv_"))


class T(ast.NodeTransformer):
    def __init__(self, modname, loops):
        self.mod = modname
        self.loops = loops
        self.within = None
        self.fn = []          # stack of (node, locals) ; None for class scope
        self.n = 0

    # --- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fn.append((n, _assigned(n)))
        n.body = self._body(n.body)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.fn.append(None)
        old, self.within = self.within, n.name
        n.body = self._body(n.body)
        self.within = old
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.fn.append((n, []))
        n.body = self.visit(n.body)
        self.fn.pop()
        return n

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # --- calls
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in _NOCALL:
            n.args = [self.visit(a) for a in n.args]
            n.keywords = [self.visit(k) for k in n.keywords]
            return n
        self.generic_visit(n)
        return ast.copy_location(ast.Call(func=_name("_pv_call_"), args=[n.func] + n.args, keywords=n.keywords), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.BinOp)):
            return ast.copy_location(ast.Call(func=_name("_pv_sub_"), args=[n.value, n.slice], keywords=[]), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.BinOp)):
            o = t.value
            return ast.copy_location(ast.Expr(ast.Call(func=_name("_pv_setitem_"), args=[n.value, o, t.slice], keywords=[])), n)
        if len(n.targets) > 1 and self.fn and self.fn[-1] is not None and any(isinstance(x, ast.Subscript) for x in n.targets):
            self.n += 1
            tmp = "_pv_t%d" % self.n
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=n.value)]
            for x in n.targets:         # assigned from left to right
                if isinstance(x, ast.Subscript) and isinstance(x.slice, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.BinOp)):
                    out.append(ast.Expr(ast.Call(func=_name("_pv_setitem_"), args=[_name(tmp), x.value, x.slice], keywords=[])))
                else:
                    out.append(ast.Assign(targets=[x], value=_name(tmp)))
            return [ast.copy_location(x, n) for x in out]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "_pv_in_" if isinstance(n.ops[0], ast.In) else "_pv_notin_"
            return ast.copy_location(ast.Call(func=_name(f), args=[n.left, n.comparators[0]], keywords=[]), n)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant):
            return ast.copy_location(ast.Call(func=_name("_pv_ifexp_"), args=[n.test, n.body, n.orelse], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                if v.format_spec is None:
                    spec = ast.Constant("")
                else:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name("_pv_fstr_"), args=parts, keywords=[]), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(func=_name("_pv_mod_"), args=[n.left, n.right], keywords=[]), n)
        return n

    # --- loops
    def _closures(self, n):
        if not (self.loops is True or self.loops and self.within in self.loops) or not self.fn or self.fn[-1] is None or isinstance(self.fn[-1][0], ast.Lambda):
            return None
        fn, names = self.fn[-1]
        self.n += 1
        k = self.n
        site = "%s:%s:%d" % (self.mod, fn.name, n.lineno)
        src = ["def _pv_g%d():" % k, "    _pv_d = {}"]
        for x in names:
            src += ["    try: _pv_d[%r] = %s" % (x, x), "    except NameError: pass"]
        src += ["    return _pv_d"]
        src += ["def _pv_s%d(_pv_d):" % k]
        if names:
            src += ["    nonlocal " + ", ".join(names)]
        for x in names:
            src += ["    if %r in _pv_d: %s = _pv_d[%r]" % (x, x, x)]
        src += ["    return None"]
        defs = ast.parse("\n".join(src)).body
        return k, site, defs

    def visit_While(self, n):
        self.generic_visit_stmt(n)
        c = self._closures(n)
        if c is None:
            return n
        k, site, defs = c
        head = ast.parse("_pv_while_(%r, _pv_g%d, _pv_s%d)" % (site, k, k), mode="eval").body
        n.test = ast.BoolOp(op=ast.And(), values=[head, n.test])
        init = ast.parse("_pv_while0_(%r, _pv_g%d)" % (site, k)).body
        return defs + [n]

    def visit_For(self, n):
        self.generic_visit_stmt(n)
        c = self._closures(n)
        if c is None:
            return n
        k, site, defs = c
        it = ast.parse("_pv_iter_(0, %r, _pv_g%d, _pv_s%d)" % (site, k, k), mode="eval").body
        it.args[0] = n.iter
        n.iter = it
        return defs + [n]

    def generic_visit_stmt(self, n):
        if isinstance(n, ast.While):
            n.test = self.visit(n.test)
        else:
            n.target = self.visit(n.target)
            n.iter = self.visit(n.iter)
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)

    # --- comprehensions
    def _comp(self, kind, n):
        ok = (self.loops is True and len(n.generators) == 1 and not n.generators[0].is_async
              and self.fn and self.fn[-1] is not None)
        if ok:
            for c in ast.walk(n):
                if isinstance(c, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or \
                        (isinstance(c, ast.Name) and c.id == "super"):
                    ok = False
        if not ok:
            self.generic_visit(n)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        tgt = g.target
        if isinstance(tgt, ast.Name):
            names, star = [tgt.id], False
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            names, star = [e.id for e in tgt.elts], True
        else:
            self.generic_visit(n)
            return n
        self.fn.append((ast.Lambda(args=None, body=None), []))
        elt = self.visit(n.elt) if kind != "dict" else ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        ifs = [self.visit(i) for i in g.ifs]
        self.fn.pop()
        args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], vararg=None, kwonlyargs=[],
                             kw_defaults=[], kwarg=None, defaults=[])
        lam = ast.Lambda(args=args, body=elt)
        if ifs:
            body = ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)
            cnd = ast.Lambda(args=args, body=body)
        else:
            cnd = ast.Constant(None)
        return ast.copy_location(ast.Call(func=_name("_pv_comp_"), args=[
            ast.Constant(kind), it, lam, cnd, ast.Constant(star)], keywords=[]), n)

    def visit_ListComp(self, n): return self._comp("list", n)
    def visit_SetComp(self, n): return self._comp("set", n)
    def visit_DictComp(self, n): return self._comp("dict", n)
    def visit_GeneratorExp(self, n): return self._comp("gen", n)


def transform(src, filename, modname, loops=True):
    tree = ast.parse(src, filename)
    t = T(modname, loops)
    tree.body = t._body(tree.body)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, loops):
        self.name, self.path, self.loops = name, path, loops

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = compile(transform(src, self.path, self.name, self.loops), self.path, "exec", dont_inherit=True)
        LOADED[self.name] = self.path
        exec(code, module.__dict__)

    def get_source(self, fullname):
        with open(self.path, encoding="utf-8") as f:
            return f.read()


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        root = ROOTS.get(top)
        if root is None:
            return None
        base, loops = root
        p = os.path.join(base, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f, loops), submodule_search_locations=[p])
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=Loader(name, p + ".py", loops))
        return None


def install(verif):
    """Install the hook (symbolic mode).  Must run before pyflp/construct are imported."""
    site = None
    for p in sys.path:
        if os.path.isdir(os.path.join(p, "construct")) and os.path.isdir(os.path.join(p, "construct_typed")):
            site = p
    if site is None:
        raise ImportError("construct not found on sys.path")
    ROOTS.update({"pyflp": (REPO, True), "construct": (site, ("GreedyRange",)), "construct_typed": (site, False),
                  "hs": (verif, False)})
    builtins._pv_call_ = I.call
    builtins._pv_sub_ = I.subscript
    builtins._pv_setitem_ = I.setitem
    builtins._pv_in_ = I.contains
    builtins._pv_notin_ = I.notcontains
    builtins._pv_ifexp_ = I.ifexp
    builtins._pv_fstr_ = I.fstr
    builtins._pv_mod_ = I.strmod
    builtins._pv_while_ = L.while_head
    builtins._pv_iter_ = L.iter_
    builtins._pv_comp_ = L.comp
    sys.meta_path.insert(0, Finder())
    # construct's compiler generates Python source: that goes through the same pass
    @I.handler(compile)
    def _compile(f, a, k):
        if len(a) == 3 and not k and a[1] == "" and a[2] == "exec" and isinstance(a[0], str) and "generated by Construct" in a[0]:
            return compile(transform(a[0], "<construct>", "construct.generated", False), "<construct>", "exec", dont_inherit=True)
        return compile(*a, **k)
