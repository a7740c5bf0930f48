"""Source-line granularity control over the system under test.

``LineHook`` is a ``sys.settrace`` tracer that reports every source line executed in files of
probnum (and nothing else) to ``on_line(hot)``; ``hot`` is true if the line executed just before
stored to an attribute or item (the places where shared state becomes visible).
"""
import dis
import functools
import importlib
import os
import pkgutil
import sys

from . import env
from .tasks import SwitchLock

PREFIX = os.path.join(os.path.abspath(env.REPO), "src", "probnum") + os.sep
_STORES = {"STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_SUBSCR"}
_code = {}


def hot_lines(code):
    """None if the code is not probnum's, else the set of lines that store to shared places."""
    try:
        return _code[code]
    except KeyError:
        pass
    res = None
    if os.path.abspath(code.co_filename).startswith(PREFIX):
        res, line = set(), code.co_firstlineno
        if code.co_name not in ("__init__", "<module>"):  # a constructor's stores are not shared yet
            for ins in dis.get_instructions(code):
                if ins.starts_line is not None:
                    line = ins.starts_line
                if ins.opname in _STORES or (ins.opname in ("LOAD_GLOBAL", "LOAD_NAME") and ins.argval == "setattr"):
                    res.add(line)
    _code[code] = res
    return res


class LineHook:
    def __init__(self, on_line):
        self.on_line = on_line
        self.ret_hot = False
        self.where = None

    def _global(self, frame, event, arg):
        hot = hot_lines(frame.f_code)
        if hot is None:
            return None

        last = False  # the line this frame executed last stores to a shared place

        def local(frame, event, arg):
            nonlocal last
            if event == "line":
                was = last or self.ret_hot
                self.ret_hot = False
                last = frame.f_lineno in hot
                self.where = frame
                self.on_line(was)
            elif event == "return" and last:
                self.ret_hot = True
            return local
        return local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def location(self):
        f = self.where
        if f is None:
            return "?"
        return f"{os.path.relpath(f.f_code.co_filename, PREFIX)}:{f.f_lineno}:{f.f_code.co_name}"


_prepared = False
_caches = []


def prepare():
    """Once per process: import everything, find caches, wrap the locks of cached properties."""
    global _prepared
    if not _prepared:
        _prepared = True
        try:  # PyPy's JIT repeats line events now and then, which would make schedules unrepeatable
            import pypyjit

            pypyjit.set_param("off")
        except ImportError:
            pass
        import probnum

        for m in pkgutil.walk_packages(probnum.__path__, "probnum."):
            try:
                importlib.import_module(m.name)
            except Exception:  # noqa: BLE001
                pass
        seen = set()
        for name in sorted(sys.modules):
            mod = sys.modules[name]
            if not (name == "probnum" or name.startswith("probnum.")) or mod is None:
                continue
            _scan(vars(mod), seen)
    for c in _caches:
        c.cache_clear()


def _scan(ns, seen):
    for k in sorted(ns, key=str):
        v = ns[k]
        if id(v) in seen:
            continue
        if isinstance(v, functools.cached_property):
            seen.add(id(v))
            if hasattr(v, "lock") and not isinstance(v.lock, SwitchLock):
                v.lock = SwitchLock(v.lock)
        elif hasattr(v, "cache_clear") and callable(getattr(v, "cache_clear", None)):
            seen.add(id(v))
            _caches.append(v)
        elif isinstance(v, (staticmethod, classmethod)) and hasattr(v.__func__, "cache_clear"):
            seen.add(id(v))
            _caches.append(v.__func__)
        elif isinstance(v, type) and (v.__module__ or "").startswith("probnum"):
            seen.add(id(v))
            _scan(dict(vars(v)), seen)
