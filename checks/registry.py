"""Maps property ids to their checks."""
import importlib
import os
import pkgutil

_c = {}


def _load():
    if _c:
        return
    here = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(x.name for x in pkgutil.iter_modules([here])):
        if m in ('registry',) or m.startswith('_'):
            continue
        mod = importlib.import_module('checks.' + m)
        for c in getattr(mod, 'CHECKS', []):
            _c[c.pid] = c


def ids():
    _load()
    return sorted(_c)


def get(pid):
    _load()
    return _c[pid]
