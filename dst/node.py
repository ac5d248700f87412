"""Simulated processes ("nodes") of the library.

A node is a fresh, independent copy of every normalize module, executed from
/repo's working tree inside this one OS process.  Dropping a node is a process
crash: all module level state (type registries, caches, generated classes) is
gone, only what was serialised survives.  Loading another node is a restart.

Seams owned here:
 * module loading       - a meta path finder that compiles the working tree once
                          and executes it per node;
 * iteration order of sets - the name ``set`` in every library module resolves
                          to SimSet, whose order is a function of a seed (salt);
 * locks                - ``threading.Lock``/``RLock`` resolve to simulator locks.
"""
import builtins
import datetime
import decimal
import importlib.abc
import importlib.machinery
import numbers
import os
import sys
import threading
import types
import warnings

from . import sim as simmod

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "normalize"
SCHEMA = "simschema"
_codes = {}
_real_set = set


def _owned(name):
    return name == PKG or name.startswith(PKG + ".") or \
        name == SCHEMA or name.startswith(SCHEMA + ".")


def schema_module(name):
    """A module of the user's, made on first use (inside a node)."""
    m = sys.modules.get(name)
    if m is None:
        m = sys.modules[name] = types.ModuleType(name)
        if name != SCHEMA:
            up, _, last = name.rpartition(".")
            setattr(schema_module(up), last, m)
    return m


# ---------------------------------------------------------------- SimSet
class _SimSetMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_set)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_set)


class _SimFrozenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, frozenset)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, frozenset)


def make_simset(salt):
    """A set and a frozenset type iterating in an order decided by ``salt`` (0: insertion)."""

    class SimSet(_real_set, metaclass=_SimSetMeta):
        __hash__ = None

        def __init__(self, it=()):
            _real_set.__init__(self)
            self._o = {}
            for x in it:
                self.add(x)

        # -- order
        def _ordered(self):
            seq = list(self._o)
            n = len(seq)
            if salt and n > 1:
                r = (salt >> 1) % n
                seq = seq[r:] + seq[:r]
                if salt & 1:
                    seq.reverse()
                if salt & 8:
                    seq = seq[::2] + seq[1::2]
            return seq

        def __iter__(self):
            n = len(self)
            for x in self._ordered():
                if len(self) != n:
                    raise RuntimeError("Set changed size during iteration")
                yield x

        def __reduce__(self):
            return (_real_set, (list(self._ordered()),))

        def __repr__(self):
            return "{%s}" % ", ".join(map(repr, self)) if self else "set()"

        # -- mutation
        def add(self, x):
            _real_set.add(self, x)
            self._o.setdefault(x, None)

        def discard(self, x):
            _real_set.discard(self, x)
            self._o.pop(x, None)

        def remove(self, x):
            _real_set.remove(self, x)
            self._o.pop(x, None)

        def pop(self):
            if not self._o:
                raise KeyError("pop from an empty set")
            x = self._ordered()[0]
            self.remove(x)
            return x

        def clear(self):
            _real_set.clear(self)
            self._o.clear()

        def update(self, *its):
            for it in its:
                for x in list(it):
                    self.add(x)

        def __ior__(self, o):
            if not isinstance(o, (_real_set, frozenset)):
                return NotImplemented
            self.update(o)
            return self

        def difference_update(self, *its):
            for it in its:
                for x in list(it):
                    self.discard(x)

        def __isub__(self, o):
            self.difference_update(o)
            return self

        def intersection_update(self, *its):
            for it in its:
                keep = _real_set(it)
                for x in list(self._o):
                    if x not in keep:
                        self.discard(x)

        def __iand__(self, o):
            self.intersection_update(o)
            return self

        def symmetric_difference_update(self, it):
            for x in list(it):
                if x in self:
                    self.discard(x)
                else:
                    self.add(x)

        def __ixor__(self, o):
            self.symmetric_difference_update(o)
            return self

        # -- algebra
        def copy(self):
            return SimSet(self._o)

        __copy__ = copy

        def union(self, *its):
            r = self.copy()
            r.update(*its)
            return r

        def difference(self, *its):
            r = self.copy()
            r.difference_update(*its)
            return r

        def intersection(self, *its):
            r = self.copy()
            r.intersection_update(*its)
            return r

        def symmetric_difference(self, it):
            r = self.copy()
            r.symmetric_difference_update(it)
            return r

        def _op(name):
            def f(self, o):
                if not isinstance(o, (_real_set, frozenset)):
                    return NotImplemented
                return getattr(self, name)(o)
            return f

        __or__ = _op("union")
        __and__ = _op("intersection")
        __sub__ = _op("difference")
        __xor__ = _op("symmetric_difference")

        def __rsub__(self, o):
            return SimSet(o).difference(self)

        __ror__ = __or__
        __rand__ = __and__
        __rxor__ = __xor__

    SimSet.__name__ = SimSet.__qualname__ = "set"

    class SimFrozen(frozenset, metaclass=_SimFrozenMeta):
        def __new__(cls, it=()):
            o = dict.fromkeys(it)
            self = frozenset.__new__(cls, o)
            self._o = o
            return self

        _ordered = SimSet._ordered

        def __iter__(self):
            return iter(self._ordered())

        def __reduce__(self):
            return (frozenset, (list(self._ordered()),))

        def __repr__(self):
            return "frozenset({%s})" % ", ".join(map(repr, self)) \
                if self else "frozenset()"

        def copy(self):
            return self

        __copy__ = copy

        def _op(name):
            def meth(self, *its):
                return SimFrozen(getattr(SimSet(self._o), name)(*its)._o)

            def f(self, o):
                if not isinstance(o, (_real_set, frozenset)):
                    return NotImplemented
                return meth(self, o)
            return meth, f

        union, __or__ = _op("union")
        intersection, __and__ = _op("intersection")
        difference, __sub__ = _op("difference")
        symmetric_difference, __xor__ = _op("symmetric_difference")

    SimFrozen.__name__ = SimFrozen.__qualname__ = "frozenset"
    return SimSet, SimFrozen


# ---------------------------------------------------------------- loader
class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == PKG or name.startswith(PKG + "."):
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p):
                return importlib.machinery.ModuleSpec(
                    name, self, origin=p + "/__init__.py", is_package=True)
            if os.path.exists(p + ".py"):
                return importlib.machinery.ModuleSpec(
                    name, self, origin=p + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        origin = mod.__spec__.origin
        code = _codes.get(origin)
        if code is None:
            with open(origin, "rb") as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                code = compile(src, origin, "exec", dont_inherit=True)
            _codes[origin] = code
            simmod.instrument(code)
        if mod.__spec__.submodule_search_locations is not None:
            mod.__path__ = [os.path.dirname(origin)]
        mod.__file__ = origin
        mod.__dict__["set"] = _loading.simset
        mod.__dict__["frozenset"] = _loading.simfrozen
        exec(code, mod.__dict__)


_finder = _Finder()
_loading = None
_active = None
_first = [True]
# modules of other packages into which the library writes generated names
_shared = [builtins, datetime, decimal, numbers]
_shared_base = {m: _real_set(vars(m)) for m in _shared}


class Node:
    """One simulated process."""

    def __init__(self, salt=0):
        self.salt = salt
        self.simset, self.simfrozen = make_simset(salt)
        self.mods = {}
        self.extra = {m: {} for m in _shared}
        self.alive = True
        global _loading
        with self:
            schema = types.ModuleType(SCHEMA)
            sys.modules[SCHEMA] = schema
            self.schema = schema
            _loading = self
            try:
                __import__(PKG)
            finally:
                _loading = None
        self.ns = self.mods[PKG]

    def mod(self, name):
        """A library module by dotted name, imported if need be."""
        if name not in self.mods:
            global _loading
            with self:
                _loading = self
                try:
                    __import__(name)
                finally:
                    _loading = None
        return self.mods[name]

    def __enter__(self):
        global _active
        assert _active is None or _active is self, "another node is active"
        self._depth = getattr(self, "_depth", 0) + 1
        if self._depth > 1:
            return self
        assert self.alive
        _active = self
        if _finder not in sys.meta_path:
            sys.meta_path.insert(0, _finder)
        if _first[0]:
            _first[0] = False
            for name in [n for n in sys.modules if _owned(n)]:
                del sys.modules[name]
        sys.modules.update(self.mods)
        self._nmods = len(sys.modules)
        for m, extra in self.extra.items():
            for k, v in extra.items():
                setattr(m, k, v)
        self._locks = (threading.Lock, threading.RLock)
        threading.Lock, threading.RLock = simmod.SimLock, simmod.SimRLock
        global _loading
        self._prev_loading, _loading = _loading, self
        return self

    def __exit__(self, *a):
        global _active, _loading
        self._depth -= 1
        if self._depth:
            return
        threading.Lock, threading.RLock = self._locks
        _loading = self._prev_loading
        if len(sys.modules) != self._nmods:
            names = [n for n in sys.modules if _owned(n)]
        else:
            names = list(self.mods)
        for name in names:
            self.mods[name] = sys.modules.pop(name)
        for m in _shared:
            base = _shared_base[m]
            extra = self.extra[m]
            extra.clear()
            for k in [k for k in vars(m) if k not in base]:
                if k.startswith("__") or k == "_":
                    continue
                extra[k] = getattr(m, k)
                delattr(m, k)
        _active = None

    def crash(self):
        """Everything in memory is lost."""
        self.alive = False
        self.mods = {}
        self.extra = {}
        self.ns = self.schema = None
