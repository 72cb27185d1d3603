"""Watches state shared by all threads of the process while a call runs alone.

Only used to aim preemptions: a step at which module globals, class attributes, default arguments, function
caches or process-wide settings have just changed is a step at which another thread may see or destroy
something. No judgement depends on it.
"""
import sys
import types
import warnings

import numpy as np

_ATOM = (int, float, complex, str, bytes, bool, type(None), np.generic)
_CODE = (types.ModuleType, types.BuiltinFunctionType, np.ufunc)


def _mods():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == "robpy" or n.startswith("robpy."))]


def _mutable(v):
    if isinstance(v, _ATOM) or isinstance(v, _CODE):
        return False
    if isinstance(v, (type, types.FunctionType, types.MethodType)):
        return False
    if isinstance(v, tuple):
        return any(_mutable(u) for u in v)
    return (type(v).__module__ or "").startswith("robpy") or \
        isinstance(v, (dict, list, set, np.ndarray, bytearray)) or hasattr(v, "cache_info") or \
        (type(v).__module__ or "") in ("collections", "_thread", "threading", "weakref", "contextvars")


def fp(v, depth=0):
    if isinstance(v, _ATOM):
        return v if v == v else "nan"
    if depth > 3:
        return id(v)
    if isinstance(v, np.ndarray):
        return (id(v), v.shape, v.tobytes() if v.nbytes < 2048 and v.dtype != object else
                v.ravel()[:64].tobytes() + v.ravel()[-64:].tobytes() if v.dtype != object else 0)
    if isinstance(v, dict):
        return (id(v), len(v), tuple((str(k)[:40], fp(u, depth + 1)) for k, u in list(v.items())[:24]))
    if isinstance(v, (list, tuple, set, frozenset)):
        return (id(v) if not isinstance(v, tuple) else 0, len(v),
                tuple(fp(u, depth + 1) for u in list(v)[:24]))
    if hasattr(v, "cache_info"):
        try:
            return str(v.cache_info())
        except Exception:
            return 0
    if (type(v).__module__ or "").startswith("robpy") and hasattr(v, "__dict__"):
        return (id(v), tuple((k, fp(u, depth + 1)) for k, u in list(vars(v).items())[:40]))
    return id(v)


class Probe:
    """Call it with (step, site) at every line; `changes` collects the steps at which something changed."""

    def __init__(self, extra=(), process=True):
        self.cells, self.roots, seen = [], [], set()
        self.dicts = []
        for m in _mods():
            if m.__name__ == "robpy.utils.logging":
                continue  # its registry of handlers changes in every constructor
            self.dicts.append(vars(m))
            for n, v in list(vars(m).items()):
                if n.startswith("__"):
                    continue
                if isinstance(v, type):
                    if v.__module__.startswith("robpy") and id(v) not in seen:
                        seen.add(id(v))
                        self._cls(v)
                elif isinstance(v, types.FunctionType) or hasattr(v, "cache_info"):
                    if (v.__module__ or "").startswith("robpy") and id(v) not in seen:
                        seen.add(id(v))
                        self._fn(v)
                elif not isinstance(v, _CODE):
                    self._cell(vars(m), n, v)
        self.roots += list(extra)
        self.process = process
        self.last = None
        self.count = {}
        self.changes = []  # (step, site)

    def _cell(self, space, n, v):
        self.cells.append((space, n))
        if _mutable(v):
            self.roots.append(v)

    def _fn(self, f):
        f = getattr(f, "__func__", f)
        if hasattr(f, "cache_info"):
            self.roots.append(f)
            f = getattr(f, "__wrapped__", None)
        if not isinstance(f, types.FunctionType):
            return
        self.roots.append(f.__dict__)
        for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
            if _mutable(d):
                self.roots.append(d)
        for c in f.__closure__ or ():
            try:
                if _mutable(c.cell_contents):
                    self.roots.append(c.cell_contents)
            except ValueError:
                pass

    def _cls(self, c):
        for n, v in list(vars(c).items()):
            g = v.fget if isinstance(v, property) else v.__func__ if isinstance(
                v, (staticmethod, classmethod)) else v
            if isinstance(g, types.FunctionType) or hasattr(g, "cache_info"):
                self._fn(g)
            elif not n.startswith("__") and not n.startswith("_abc") and not isinstance(v, (type, property)):
                self._cell(vars(c), n, v)
        self.dicts.append(vars(c))

    def state(self):
        out = [id(s.get(n)) for s, n in self.cells]
        out += [len(d) - ("__warningregistry__" in d) - ("__slotnames__" in d) for d in self.dicts]
        out += [0 if type(v) is dict and not v else fp(v) for v in self.roots]
        if self.process:
            out.append((id(warnings.filters), len(warnings.filters), id(warnings.showwarning),
                        tuple(np.geterr().values())))
        return out

    def __call__(self, step, site):
        k = self.count.get(site, 0)
        self.count[site] = k + 1
        if k > 4 and k % 64:
            return
        s = self.state()
        if self.last is not None and s != self.last:
            self.changes.append((step, site))
        self.last = s
