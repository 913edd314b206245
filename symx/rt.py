"""Run-time hooks called by instrumented code."""
import base64
import binascii
import builtins
import collections
import copy
import datetime
import enum
import functools
import itertools
import json
import operator
import re
import types
import typing
import urllib.parse

import z3

from . import core, models, rx
from .containers import SxDict, SxSet, sym_key
from .core import EngineAbort, Proxy, SymBool, SymInt, SymReal, band, bnot, bor
from .strings import (
    LazyStr, SymStr, int_to_str, items_of, lazy_str, lift, mk, norm, str_to_float, str_to_int,
)

FUNCS = set()


def enter(name):
    FUNCS.add(name)


class SymEnum(Proxy):
    """One member of an Enum class, chosen by a finite-domain variable."""

    __slots__ = ("cls", "members", "e")

    def __init__(self, cls, members, e):
        self.cls, self.members, self.e = cls, members, e

    @property
    def __class__(self):
        return self.cls

    def _is(self, m):
        for i, x in enumerate(self.members):
            if x is m:
                return core.zbool(self.e == i)
        return False

    def __eq__(self, o):
        if type(o) is SymEnum:
            return core.zbool(self.e == o.e) if o.members == self.members else self._realize() == o._realize()
        if isinstance(o, self.cls):
            return self._is(o)
        if isinstance(o, Proxy):
            return self._realize() == o
        return bor(*[core.zbool(self.e == i) for i, m in enumerate(self.members) if m == o])

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _realize(self):
        for i, m in enumerate(self.members[:-1]):
            b = core.zbool(self.e == i)
            if b is True or (b is not False and bool(b)):
                return m
        return self.members[-1]

    def __hash__(self):
        return hash(self._realize())

    def __getattr__(self, name):
        return getattr(self._realize(), name)

    def __repr__(self):
        return repr(self._realize())

    def __str__(self):
        return str(self._realize())

    def __bool__(self):
        return bool(self._realize())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- predicates
def has_sym(x, depth=4):
    t = type(x)
    if issubclass(t, Proxy):
        return True
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset) or t is SxSet:
        return any(has_sym(y, depth - 1) for y in x)
    if issubclass(t, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def realize_deep(x):
    t = type(x)
    if issubclass(t, Proxy):
        return core.realize(x)
    if t is list:
        return [realize_deep(y) for y in x]
    if t is tuple:
        return tuple(realize_deep(y) for y in x)
    if t is SxSet or t is set:
        return {realize_deep(y) for y in x}
    if issubclass(t, dict):
        return {realize_deep(k): realize_deep(v) for k, v in x.items()}
    return x


def sx_type(x):
    t = type(x)
    if issubclass(t, Proxy) or t is rx.SymMatch:
        return x.__class__
    if t is SxDict:
        return collections.defaultdict if x._hasdf else dict
    if t is SxSet:
        return set
    return t


def sx_isinstance(x, cls):
    t = type(x)
    if issubclass(t, Proxy) or t is rx.SymMatch:
        return _issub(x.__class__, cls)
    if t is SxDict and x._hasdf and cls is collections.defaultdict:
        return True
    return isinstance(x, cls)


def _issub(c, cls):
    if isinstance(cls, tuple):
        return any(_issub(c, y) for y in cls)
    return issubclass(c, cls)


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool:
        if sx_type(a) is bool and sx_type(b) is bool:
            return a == b if ta is SymBool else b == a
        return False
    if ta is SymEnum or tb is SymEnum:
        e, o = (a, b) if ta is SymEnum else (b, a)
        if type(o) is SymEnum or isinstance(o, enum.Enum):
            return e == o if sx_isinstance(o, e.cls) else False
        return False
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return bnot(r) if type(r) is SymBool else not r


def in_(a, b):
    tb = type(b)
    if tb is SymStr:
        return b.contains(a)
    if tb is LazyStr:
        return lift(b._force()).contains(a)
    if isinstance(b, str):
        if type(a) in (SymStr, LazyStr):
            return lift(str(b) if not isinstance(b, enum.Enum) else b.value).contains(a)
        return a in b
    if issubclass(type(a), Proxy) or (type(a) is tuple and sym_key(a)):
        if isinstance(b, (dict,)) and tb is not SxDict:
            return any(bool(k == a) for k in list(b))
        if isinstance(b, (set, frozenset)) and tb is not SxSet:
            return any(bool(k == a) for k in list(b))
        if isinstance(b, (type({}.keys()), type({}.values()), type({}.items()))):
            return any(bool(k == a) for k in list(b))
    return a in b


def not_in(a, b):
    r = in_(a, b)
    return bnot(r) if type(r) is SymBool else not r


def mod(a, b):
    if isinstance(a, str) and not isinstance(a, Proxy) and has_sym(b):
        return LazyStr([lambda: a % realize_deep(b)])
    return a % b


def fstr(*parts):
    """parts: str constants or (value, conversion, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv in (-1, 115) and (not spec):
            t = type(v)
            if t is SymStr or t is LazyStr:
                sym = True
                out.append(v)
                continue
            if not has_sym(v) and conv == -1:
                out.append(format(v, ""))
                continue
        if has_sym(v) or has_sym(spec) or _obj_sym(v):
            sym = True
            out.append(lambda v=v, conv=conv, spec=spec: _fmt(v, conv, spec))
        else:
            out.append(_fmt(v, conv, spec))
    if not sym:
        return "".join(out)
    if all(isinstance(p, str) and type(p) is not LazyStr for p in out):
        items = []
        for p in out:
            items.extend(items_of(p))
        return mk(items)
    flat = []
    for p in out:
        flat.extend(p.parts if type(p) is LazyStr else [p])
    return LazyStr(flat)


def _obj_sym(v):
    return type(v).__module__.startswith(("src", "harness")) and not isinstance(v, (enum.Enum, type))


def _fmt(v, conv, spec):
    if conv == 114:
        v = repr_(v)
    elif conv == 115:
        v = str_(v)
    elif conv == 97:
        v = ascii(realize_deep(v))
    if not spec:
        if isinstance(v, str):
            return v if isinstance(v, Proxy) else format(v, "")
        return str_(v)
    return format(realize_deep(v), realize_deep(spec))


def str_(x):
    t = type(x)
    if t is SymStr or t is LazyStr:
        return x
    if t is SymInt:
        return LazyInt(x)
    if issubclass(t, Proxy):
        return str(x)
    if t in (list, tuple) or issubclass(t, dict) or t is SxSet:
        if has_sym(x):
            return str(realize_deep(x))
        return str(x)
    m = getattr(t, "__str__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    m = getattr(t, "__repr__", None)
    if isinstance(m, types.FunctionType) and t.__str__ is object.__str__:
        return m(x)
    return str(x)


def LazyInt(x):
    return int_to_str(x)


def repr_(x):
    t = type(x)
    if issubclass(t, Proxy):
        return repr(x)
    if has_sym(x):
        return repr(realize_deep(x))
    m = getattr(t, "__repr__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return repr(x)


# ---------------------------------------------------------------- displays
def mkdict(*pairs):
    d = SxDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def dictcomp(gen):
    d = SxDict()
    for k, v in gen:
        d[k] = v
    return d


def mkset(it):
    return SxSet(it)


# ---------------------------------------------------------------- caches
CACHES = []


class SymCache:
    def __init__(self, fn, typed=False):
        functools.update_wrapper(self, fn)
        self.fn = fn
        self.d = SxDict()
        self.typed = typed
        CACHES.append(self)

    def __call__(self, *a, **k):
        key = a + tuple(x for kv in sorted(k.items()) for x in kv)
        key += tuple(sx_type(x) for x in key) if self.typed else ()
        if not sym_key(key):
            hash(key)
        if key in self.d:
            return self.d[key]
        r = self.fn(*a, **k)
        self.d[key] = r
        return r

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return functools.partial(self, obj)

    def cache_clear(self):
        self.d.clear()

    def cache_info(self):
        return (0, 0, None, len(self.d))


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SymCache(maxsize)
    return lambda fn: SymCache(fn, typed)


def deco(d):
    if d is functools.lru_cache:
        return lru_cache
    if d is functools.cache:
        return SymCache
    return d


# ---------------------------------------------------------------- calls
def _c_str(x="", *a, **k):
    if a or k:
        return str(core.realize(x), *a, **k)
    return str_(x)


def _c_int(x=0, *a, **k):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymReal:
        return x.trunc()
    if t is SymStr or t is LazyStr:
        return str_to_int(x, *a, **k)
    return int(realize_deep(x), *a, **k)


def _c_float(x=0.0):
    t = type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return SymReal(z3.ToReal(x.e), x.v)
    if t is SymBool:
        return SymReal(z3.ToReal(x.as_int().e), x.vars())
    if t is SymStr or t is LazyStr:
        return str_to_float(x)
    return float(realize_deep(x))


def _c_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) in (SymInt, SymReal):
        return x != 0
    return bool(x)


def _c_len(x):
    return len(x)


def _c_ord(c):
    it = items_of(c)
    if it is None or len(it) != 1:
        raise TypeError("ord() expected a character")
    return it[0] if type(it[0]) is int else SymInt(it[0].z(), it[0].vars())


def _c_list(x=()):
    return list(x)


def _c_round(x, n=None):
    return round(x) if n is None else round(x, n)


def _c_hash(x):
    return hash(x)


def _c_getattr(o, n, *d):
    return getattr(o, core.realize(n), *d)


def _c_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _c_bytes(x=b"", *a, **k):
    if type(x) is SymStr or type(x) is LazyStr:
        if not a and not k:
            raise TypeError("string argument without an encoding")
        return models.encode_str(lift(x), *a, **k)
    return bytes(realize_deep(x), *a, **k)


def _c_deepcopy(x, memo=None):
    return copy.deepcopy(x)


def _c_json_dumps(x, *a, **k):
    return json.dumps(realize_deep(x), *a, **k)


def _c_contains(a, b):
    return in_(b, a)


def _c_any(it):
    for x in it:
        if x:
            return True
    return False


def _c_all(it):
    for x in it:
        if not x:
            return False
    return True


def _c_range(*a):
    return range(*[core.realize(x) for x in a])


SYM_IMPL = {
    str: _c_str, int: _c_int, float: _c_float, bool: _c_bool, ord: _c_ord, bytes: _c_bytes,
    getattr: _c_getattr, repr: repr_, sum: _c_sum, any: _c_any, all: _c_all, range: _c_range,
    operator.contains: _c_contains, operator.not_: lambda x: bnot(x) if type(x) is SymBool else not x,
    operator.is_: is_, operator.is_not: is_not,
    base64.b64decode: models.b64decode, base64.b64encode: models.b64encode,
    base64.standard_b64decode: models.b64decode, base64.standard_b64encode: models.b64encode,
    binascii.a2b_base64: models.a2b_base64,
    json.dumps: _c_json_dumps,
    datetime.datetime.fromisoformat: models.fromisoformat,
}

# always intercepted, even without symbolic arguments
ALWAYS = {
    isinstance: sx_isinstance,
    type: lambda *a: sx_type(*a) if len(a) == 1 else type(*a),
    dict: SxDict,
    set: SxSet,
    functools.lru_cache: lru_cache,
    functools.cache: SymCache,
}


def _defaultdict(df=None, *a, **k):
    d = SxDict(*a, **k)
    d.default_factory, d._hasdf = df, True
    return d


ALWAYS[collections.defaultdict] = _defaultdict
ALWAYS[repr] = repr_
ALWAYS[dict.fromkeys] = SxDict.fromkeys

# C callables that treat arguments as opaque objects (or use the protocol only)
OPAQUE = {
    len, sorted, reversed, enumerate, zip, iter, next, map, filter, min, max, list, tuple, frozenset,
    id, callable, hasattr, setattr, delattr, issubclass, print, abs, divmod, round, hash, slice,
    vars, dir, super, property, staticmethod, classmethod,
    operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.getitem,
    operator.setitem, operator.add, operator.sub, operator.mul, operator.and_, operator.or_,
    operator.truth, operator.itemgetter, operator.attrgetter, operator.methodcaller,
    functools.partial, functools.reduce, functools.cmp_to_key, functools.wraps,
    itertools.chain, itertools.zip_longest, itertools.islice, itertools.groupby, itertools.product,
    itertools.takewhile, itertools.dropwhile, itertools.count, itertools.repeat,
    copy.copy, copy.deepcopy, object, typing.cast,
}
for _n in ("pairwise", "starmap", "accumulate", "filterfalse", "compress", "combinations", "permutations", "tee"):
    OPAQUE.add(getattr(itertools, _n))

_OPAQUE_SELF = (list, tuple, collections.deque, dict, set, types.GeneratorType)
_BUILTIN_FN = (types.BuiltinFunctionType, types.MethodWrapperType, type(re.compile("").match))
_DESCR = (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)
_PATTERN = re.Pattern
_LRU_TYPE = type(functools.lru_cache(lambda: 0))
_RE_FUNCS = {getattr(re, n): n for n in ("match", "fullmatch", "search", "finditer", "findall", "split", "sub", "subn")}
OVERRIDES = {}      # python-level library functions with instrumented copies


def _wrap_fn_arg(f):
    """functions handed to map/sorted/... that C code would call directly"""
    t = type(f)
    if t in _DESCR or (t in _BUILTIN_FN) or f in (str, int, float, bool, bytes, isinstance, type):
        return lambda *a, **k: call(f, *a, **k)
    return f


_HOF = {map, filter, sorted, min, max, functools.reduce, functools.partial, itertools.groupby,
        itertools.takewhile, itertools.dropwhile, itertools.starmap, itertools.filterfalse,
        functools.cmp_to_key}


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        if a and f in OVERRIDES and (has_sym(a) or has_sym(k)):
            return OVERRIDES[f](*a, **k)
        n = _RE_FUNCS.get(f)
        if n is not None:
            return _re_func(n, *a, **k)
        if f in SYM_IMPL and (has_sym(a) or has_sym(k)):
            return SYM_IMPL[f](*a, **k)
        mod_ = f.__module__
        if mod_ is not None and not getattr(f, "__globals__", {}).get("_sx_call_") and _foreign(mod_):
            if has_sym(a) or has_sym(k):
                a = tuple(realize_deep(x) for x in a)
                k = {x: realize_deep(y) for x, y in k.items()}
        return f(*a, **k)
    if t is types.MethodType:
        return f(*a, **k)
    if t is _LRU_TYPE:
        if f in OVERRIDES and (has_sym(a) or has_sym(k)):
            return OVERRIDES[f](*a, **k)
        if has_sym(a) or has_sym(k):
            a = tuple(realize_deep(x) for x in a)
            k = {x: realize_deep(y) for x, y in k.items()}
        return f(*a, **k)
    try:
        alw = ALWAYS.get(f)
    except TypeError:
        return f(*a, **k)
    if alw is not None:
        return alw(*a, **k)
    if f in _HOF:
        a = tuple(_wrap_fn_arg(x) if callable(x) and not isinstance(x, Proxy) else x for x in a)
        if "key" in k and k["key"] is not None:
            k["key"] = _wrap_fn_arg(k["key"])
        return f(*a, **k)
    if isinstance(f, type):
        if f in SYM_IMPL:
            if has_sym(a) or has_sym(k) or (f is str and a and _obj_sym(a[0])):
                return SYM_IMPL[f](*a, **k)
            return f(*a, **k)
        if f in OPAQUE:
            return f(*a, **k)
        if f.__module__ == "datetime" and (has_sym(a) or has_sym(k)):
            return f(*[realize_deep(x) for x in a], **{x: realize_deep(y) for x, y in k.items()})
        if issubclass(f, enum.Enum) and has_sym(a):
            return f(*[realize_deep(x) for x in a])
        return f(*a, **k)
    if f in OPAQUE:
        return f(*a, **k)
    if t in _BUILTIN_FN:
        self_ = f.__self__
        ts = type(self_)
        if ts is str or (isinstance(self_, str) and not isinstance(self_, Proxy)):
            if f.__name__ == "format":
                return _str_format(self_, a, k)
            if f.__name__ == "join" and a and not isinstance(a[0], (list, tuple, str)):
                a = (list(a[0]),)
            if has_sym(a, 2) or has_sym(k, 2):
                return getattr(lift(self_), f.__name__)(*a, **k)
            return f(*a, **k)
        if ts is _PATTERN:
            return _pat_method(self_, f.__name__, *a, **k)
        if isinstance(self_, _OPAQUE_SELF):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            impl = SYM_IMPL.get(f)
            if impl is not None:
                return impl(*a, **k)
            if isinstance(self_, type) and issubclass(self_, (dict,)):
                return f(*a, **k)
            a = tuple(realize_deep(x) for x in a)
            k = {x: realize_deep(y) for x, y in k.items()}
        return f(*a, **k)
    if t in _DESCR:
        oc = f.__objclass__
        if oc is str and a and (has_sym(a, 2) or has_sym(k, 2)):
            if not sx_isinstance(a[0], str):
                raise TypeError(f"descriptor {f.__name__!r} requires a 'str' object")
            return getattr(lift(a[0]), f.__name__)(*a[1:], **k)
        if oc in (dict, set, list, tuple, object, type):
            if oc is dict and a and type(a[0]) is SxDict:
                return getattr(a[0], f.__name__)(*a[1:], **k)
            if oc is set and a and type(a[0]) is SxSet:
                return getattr(a[0], f.__name__)(*a[1:], **k)
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            a = tuple(realize_deep(x) for x in a)
            k = {x: realize_deep(y) for x, y in k.items()}
        return f(*a, **k)
    return f(*a, **k)


_LIB_OK = ("functools", "itertools", "copy", "typing", "dataclasses", "collections", "contextlib", "abc",
           "enum", "operator", "z3", "symx", "harness", "src", "_sxlib", "__main__")


def _foreign(mod_):
    return mod_.split(".")[0] not in _LIB_OK


def _re_func(name, pattern, *a, **k):
    flags = k.pop("flags", 0)
    if isinstance(pattern, Proxy):
        pattern = core.realize(pattern)
    if isinstance(pattern, str):
        if name in ("match", "fullmatch", "search", "finditer", "findall") and len(a) > 1:
            flags = a[1]
            a = a[:1]
        pattern = re.compile(pattern, flags)
    return _pat_method(pattern, name, *a, **k)


def _pat_method(pattern, name, *a, **k):
    if has_sym(a, 1) or has_sym(k, 1):
        pos = 1 if name in ("sub", "subn") else 0
        subject = a[pos] if len(a) > pos else k.get("string")
        if subject is not None and not sx_isinstance(subject, str):
            raise TypeError("expected string or bytes-like object, got %r" % sx_type(subject).__name__)
        if type(subject) is LazyStr:
            a = a[:pos] + (subject._force(),) + a[pos + 1:]
        return getattr(rx.compiled(pattern), name)(*a, **k)
    return getattr(pattern, name)(*a, **k)


def _str_format(s, a, k):
    if not (has_sym(a) or has_sym(k) or any(_obj_sym(x) for x in a) or any(_obj_sym(x) for x in k.values())):
        return s.format(*a, **k)
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        m = re.match(r"[^.\[]*", field)
        if m.end() != len(field):
            parts.append(lambda f=field, c=conv, sp=spec: ("{" + f + ("!" + c if c else "") + (":" + sp if sp else "") + "}").format(*realize_deep(a), **{x: realize_deep(y) for x, y in k.items()}))
            continue
        v = a[int(field)] if field.isdigit() else k[field]
        parts.append(lambda v=v, c=conv, sp=spec: _fmt(v, ord(c) if c else -1, sp))
    return LazyStr(parts)


HOOKS = {
    "_sx_call_": call, "_sx_is_": is_, "_sx_isnot_": is_not, "_sx_in_": in_, "_sx_notin_": not_in,
    "_sx_mod_": mod, "_sx_fstr_": fstr, "_sx_dict_": mkdict, "_sx_dictcomp_": dictcomp,
    "_sx_set_": mkset, "_sx_enter_": enter, "_sx_deco_": deco,
}
