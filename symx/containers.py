"""dict / set replacements created by instrumented code: ordinary native storage
until a symbolic key appears, then an association list whose look-ups decide key
equality symbolically."""
from . import core
from .core import Proxy, band, isinstance_proxy
from .strings import LazyStr, SymStr, norm


def sym_key(k):
    t = type(k)
    if issubclass(t, Proxy):
        return True
    if t is tuple:
        return any(sym_key(x) for x in k)
    return False


def norm_key(k):
    t = type(k)
    if t is SymStr:
        return norm(k)
    if t is LazyStr:
        return norm(k._force())
    if t is tuple and sym_key(k):
        return tuple(norm_key(x) for x in k)
    return k


def keq(a, b):
    if a is b:
        return True
    return bool(a == b)


_MISS = object()


class SxDict(dict):
    __slots__ = ("_s", "default_factory", "_hasdf")

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._s = None
        self.default_factory = None
        self._hasdf = False
        if a or k:
            self.update(*a, **k)

    def _find(self, k):
        """native key or index; returns (mode, position) or None"""
        k = norm_key(k)
        if self._s is None:
            if not sym_key(k):
                return ("n", k) if dict.__contains__(self, k) else None
            if type(k) is tuple:
                hash_ok = True
            for k2 in dict.keys(self):
                if keq(k2, k):
                    return ("n", k2)
            return None
        if not sym_key(k):
            hash(k)
        for i, e in enumerate(self._s):
            if keq(e[0], k):
                return ("s", i)
        return None

    def _to_sym(self):
        if self._s is None:
            self._s = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def __getitem__(self, k):
        if self._s is None and not issubclass(type(k), Proxy) and type(k) is not tuple:
            try:
                return dict.__getitem__(self, k)
            except KeyError:
                if self._hasdf:
                    return self.__missing__(k)
                raise
        p = self._find(k)
        if p is None:
            if self._hasdf:
                return self.__missing__(k)
            raise KeyError(k)
        return dict.__getitem__(self, p[1]) if p[0] == "n" else self._s[p[1]][1]

    def __missing__(self, k):
        if not self._hasdf or self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def get(self, k, default=None):
        p = self._find(k)
        if p is None:
            return default
        return dict.__getitem__(self, p[1]) if p[0] == "n" else self._s[p[1]][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def __setitem__(self, k, v):
        p = self._find(k)
        if p is not None:
            if p[0] == "n":
                dict.__setitem__(self, p[1], v)
            else:
                self._s[p[1]][1] = v
            return
        k = norm_key(k)
        if self._s is None and not sym_key(k):
            dict.__setitem__(self, k, v)
            return
        self._to_sym()
        self._s.append([k, v])

    def __delitem__(self, k):
        p = self._find(k)
        if p is None:
            raise KeyError(k)
        if p[0] == "n":
            dict.__delitem__(self, p[1])
        else:
            del self._s[p[1]]

    def pop(self, k, default=_MISS):
        p = self._find(k)
        if p is None:
            if default is _MISS:
                raise KeyError(k)
            return default
        if p[0] == "n":
            return dict.pop(self, p[1])
        return self._s.pop(p[1])[1]

    def popitem(self):
        if self._s is None:
            return dict.popitem(self)
        if not self._s:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self._s.pop())

    def setdefault(self, k, default=None):
        p = self._find(k)
        if p is None:
            self[k] = default
            return default
        return dict.__getitem__(self, p[1]) if p[0] == "n" else self._s[p[1]][1]

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for k, v in list(o.items()):
                    self[k] = v
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def keys(self):
        if self._s is None:
            return dict.keys(self)
        return KeyView([e[0] for e in self._s])

    def values(self):
        if self._s is None:
            return dict.values(self)
        return [e[1] for e in self._s]

    def items(self):
        if self._s is None:
            return dict.items(self)
        return [tuple(e) for e in self._s]

    def __iter__(self):
        if self._s is None:
            return dict.__iter__(self)
        return iter([e[0] for e in self._s])

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return dict.__len__(self) if self._s is None else len(self._s)

    def __bool__(self):
        return len(self) > 0

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not isinstance(o, SxDict):
            o = SxDict(o)
        for k, v in self.items():
            p = o._find(k)
            if p is None:
                return False
            w = dict.__getitem__(o, p[1]) if p[0] == "n" else o._s[p[1]][1]
            if not (v is w or bool(v == w)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def clear(self):
        dict.clear(self)
        self._s = None

    def copy(self):
        d = SxDict(self)
        d.default_factory, d._hasdf = self.default_factory, self._hasdf
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = SxDict()
        memo[id(self)] = d
        d.default_factory, d._hasdf = self.default_factory, self._hasdf
        for k, v in self.items():
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def __or__(self, o):
        d = SxDict(self)
        d.update(o)
        return d

    def __ror__(self, o):
        d = SxDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    def __reduce__(self):
        return (dict, (list(self.items()),))

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SxDict()
        for k in it:
            d[k] = v
        return d


class KeyView(list):
    def __and__(self, o):
        return SxSet(self) & o

    def __or__(self, o):
        return SxSet(self) | o

    def __sub__(self, o):
        return SxSet(self) - o

    def __eq__(self, o):
        return SxSet(self) == SxSet(o)


def mkset(it):
    return SxSet(it)


class SxSet(set):
    __slots__ = ("_s",)

    def __init__(self, it=()):
        set.__init__(self)
        self._s = None
        for x in it:
            self.add(x)

    def _has(self, x):
        x = norm_key(x)
        if self._s is None:
            if not sym_key(x):
                return set.__contains__(self, x)
            for y in list(set.__iter__(self)):
                if keq(y, x):
                    return True
            return False
        for y in self._s:
            if keq(y, x):
                return True
        return False

    def __contains__(self, x):
        return self._has(x)

    def add(self, x):
        x = norm_key(x)
        if self._s is None and not sym_key(x):
            set.add(self, x)
            return
        if self._has(x):
            return
        if self._s is None:
            self._s = list(set.__iter__(self))
            set.clear(self)
        self._s.append(x)

    def discard(self, x):
        x = norm_key(x)
        if self._s is None and not sym_key(x):
            set.discard(self, x)
            return
        if self._s is None:
            for y in list(set.__iter__(self)):
                if keq(y, x):
                    set.discard(self, y)
                    return
            return
        for i, y in enumerate(self._s):
            if keq(y, x):
                del self._s[i]
                return

    def remove(self, x):
        if not self._has(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if self._s is None:
            return set.pop(self)
        if not self._s:
            raise KeyError("pop from an empty set")
        return self._s.pop()

    def clear(self):
        set.clear(self)
        self._s = None

    def __iter__(self):
        return set.__iter__(self) if self._s is None else iter(list(self._s))

    def __len__(self):
        return set.__len__(self) if self._s is None else len(self._s)

    def __bool__(self):
        return len(self) > 0

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def union(self, *its):
        r = SxSet(self)
        r.update(*its)
        return r

    def difference(self, *its):
        others = [o if isinstance(o, SxSet) else SxSet(o) for o in its]
        return SxSet(x for x in self if not any(x in o for o in others))

    def intersection(self, *its):
        others = [o if isinstance(o, SxSet) else SxSet(o) for o in its]
        return SxSet(x for x in self if all(x in o for o in others))

    def symmetric_difference(self, o):
        o = SxSet(o)
        return self.difference(o) | o.difference(self)

    def difference_update(self, *its):
        r = self.difference(*its)
        self.clear()
        self.update(r)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.clear()
        self.update(r)

    def issubset(self, o):
        o = o if isinstance(o, SxSet) else SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset, KeyView)) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset, KeyView)) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset, KeyView)) else NotImplemented

    def __rsub__(self, o):
        return SxSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return SxSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SxSet(self)

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}" if len(self) else "set()"

    def __reduce__(self):
        return (set, (list(self),))
