"""Property registry."""
import importlib, os
_R = {}


def prop(pid, level='other'):
    def d(f):
        assert pid not in _R, pid
        _R[pid] = (f, level)
        return f
    return d


def _load():
    for f in sorted(os.listdir(os.path.dirname(__file__))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('rules.' + f[:-3])


def get(pid):
    _load()
    return _R[pid]


def all_ids():
    _load()
    return sorted(_R)
