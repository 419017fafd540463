"""one-off: dump the descriptor tables of the models (reviewed, then frozen as hs/attrs.py)"""
import sys, importlib, pprint
sys.path.insert(0, "/repo")
import pyflp
from pyflp._descriptors import *
from pyflp import _descriptors as D
from pyflp._models import ModelBase
out, nested = {}, {}
def walk(cls, name, mod):
    for a, d in vars(cls).items():
        if isinstance(d, type) and issubclass(d, object) and not a.startswith("__") and d.__module__ == mod.__name__ and a[0].isupper():
            walk(d, name + "." + a, mod)
        if isinstance(d, D.NestedProp):
            nested.setdefault(name, {})[a] = (d._type.__name__, tuple(int(i) for i in d._ids))
        elif isinstance(d, D.FlagProp):
            out.setdefault(name, {})[a] = ("flag", tuple(int(i) for i in d._ids), d._prop, int(d._flag), d._inverted, d._default)
        elif isinstance(d, D.StructProp):
            out.setdefault(name, {})[a] = (type(d).__name__, tuple(int(i) for i in d._ids), d._prop, d._default, d._readonly)
        elif isinstance(d, D.EventProp):
            out.setdefault(name, {})[a] = ("EventProp", tuple(int(i) for i in d._ids), None, d._default, d._readonly)
        elif hasattr(d, "__get__") and not callable(d) and type(d).__name__ not in ("property", "classmethod", "staticmethod"):
            out.setdefault(name, {})[a] = (type(d).__name__, {k: v for k, v in vars(d).items()})
        elif type(d).__name__ == "property":
            out.setdefault(name, {})[a] = ("property", d.fset is not None)
for m in ("arrangement", "channel", "controller", "mixer", "pattern", "plugin", "project", "timemarker"):
    mod = importlib.import_module("pyflp." + m)
    for n, cls in sorted(vars(mod).items()):
        if isinstance(cls, type) and issubclass(cls, ModelBase) and cls.__module__ == mod.__name__:
            walk(cls, m + "." + n, mod)
pprint.pprint(out, width=160)
pprint.pprint(nested, width=160)
