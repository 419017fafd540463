"""Loop hooks: invariant cuts for loops over abstract (unbounded) data."""
import collections

from . import engine as E
from . import blocks as B
from . import gaps as G
from . import intercept as I


def while_head(site, get, set_):
    c = E.CTX
    if c is None or c.while_policy is None:
        return True
    return c.while_policy(site, get, set_)


def iter_(it, site, get, set_):
    if E.CTX is not None and E.CTX.recs and site.startswith("construct.core:"):
        return B.greedy(it, site, get, set_)
    if E.CTX is not None and "gaps" in E.CTX.memo:
        it = G.unwrap(it)
    m = getattr(type(it), "_pv_loop_", None)
    if m is not None:
        return m(it, site, get, set_)
    if E.CTX is not None and E.CTX.recs:
        if isinstance(it, collections.UserList):
            it = it.data
        if B.is_blocklist(it):
            return B.over_records(it, site, get, set_)
    return it


def comp(kind, it, elt, cond, star):
    if E.CTX is not None and "gaps" in E.CTX.memo:
        it = G.unwrap(it)
    m = getattr(type(it), "_pv_comp_", None)
    if m is not None:
        return m(it, kind, elt, cond, star)
    if E.CTX is not None and E.CTX.recs:
        if isinstance(it, collections.UserList):
            it = it.data
        if B.is_blocklist(it):
            raise E.Unsupported("comprehension over a list with abstract blocks")
    if kind == "gen":
        return _gen(iter(it), elt, cond, star)
    out = []
    if star:
        for x in it:
            if cond is None or cond(*x):
                out.append(elt(*x))
    else:
        for x in it:
            if cond is None or cond(x):
                out.append(elt(x))
    if kind == "dict":
        return I.mkdict(out)
    return out if kind == "list" else I.mkset(out)


def _gen(it, elt, cond, star):
    for x in it:
        if star:
            if cond is None or cond(*x):
                yield elt(*x)
        elif cond is None or cond(x):
            yield elt(x)
