"""Snapshot and restore module- and class-level state of the code under test,
so that every explored path starts from the state right after import."""
import collections
import sys
import types

CONTAINERS = (list, dict, set, collections.deque)


class Snapshot(object):
    def __init__(self, prefixes):
        self.saved = {}          # id(container) -> (container, shallow copy)
        self.attrs = []          # (owner, {name: value})
        self.caches = []
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is not None and name.split(".")[0] in prefixes:
                self._owner(mod, prefixes)

    def _owner(self, owner, prefixes):
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        names = {k: v for k, v in vars(owner).items()
                 if not (k.startswith("__") and k.endswith("__"))
                 and not k.startswith("_sx_")}
        self.attrs.append((owner, names))
        for v in names.values():
            if isinstance(v, type):
                if v.__module__.split(".")[0] in prefixes:
                    self._owner(v, prefixes)
            elif isinstance(v, (staticmethod, classmethod)):
                self._function(v.__func__)
            elif isinstance(v, types.FunctionType):
                self._function(v)
            elif isinstance(v, property):
                pass
            else:
                if hasattr(v, "cache_clear"):
                    self.caches.append(v)
                self._container(v)

    def _function(self, fn):
        for d in (getattr(fn, "__defaults__", None) or ()):
            self._container(d)
        for d in (getattr(fn, "__kwdefaults__", None) or {}).values():
            self._container(d)
        if hasattr(fn, "cache_clear"):
            self.caches.append(fn)
        if getattr(fn, "__dict__", None):
            self._container(fn.__dict__)

    def _container(self, v):
        if not isinstance(v, CONTAINERS) or id(v) in self.saved:
            return
        self.saved[id(v)] = (v, v.copy())
        for x in (list(v.values()) if isinstance(v, dict) else list(v)):
            self._container(x)

    def restore(self):
        for owner, names in self.attrs:
            cur = vars(owner)
            for k in [k for k in cur if k not in names and
                      not (k.startswith("__") and k.endswith("__")) and
                      not k.startswith("_sx_")]:
                if isinstance(cur[k], types.ModuleType):
                    continue           # a submodule imported meanwhile
                try:
                    delattr(owner, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in names.items():
                if cur.get(k, self) is not v:
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
        for v, copy in self.saved.values():
            if isinstance(v, dict):
                if len(v) != len(copy) or any(
                        k not in v or v[k] is not x
                        for k, x in copy.items()) or \
                        any(a is not b for a, b in zip(v, copy)):
                    v.clear()
                    v.update(copy)
            elif isinstance(v, list):
                v[:] = copy
            else:
                v.clear()
                (v.extend if hasattr(v, "extend") else v.update)(copy)
        for c in self.caches:
            c.cache_clear()
