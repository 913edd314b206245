"""Symbolic strings: sequences of concrete length whose items are concrete
codepoints, symbolic characters (a variable, possibly under a character map) or
arithmetic character expressions (digits of a symbolic integer)."""
import unicodedata

import z3

from . import core
from .alphabet import (
    ALPH, ASCII, BIT, CASEFOLD, FULL, LOWER, SWAP, UPPER, compose, mask_chars, mask_of,
    mask_values, single,
)
from .core import EngineAbort, Proxy, SymBool, SymInt, SymReal, band, bnot, bor, mask_expr, ubool, zbool

_MAPZ = {}


def _map_expr(z, cmap):
    """z3 If-chain for cmap applied to codepoint expression z."""
    key = (z.get_id(), cmap.name)
    hit = _MAPZ.get(key)
    if hit is not None and hit[0].eq(z):
        return hit[1]
    groups = {}
    for c, t in cmap.table.items():
        if t != c:
            groups[t - c] = groups.get(t - c, 0) | BIT[c]
    e = z
    for delta, m in groups.items():
        e = z3.If(mask_expr(z, m), z + delta, e)
    _MAPZ[key] = (z, e)
    return e


class SymChar:
    __slots__ = ("var", "map")

    def __init__(self, var, cmap=None):
        self.var = var
        self.map = cmap

    def mask(self):
        d = core.CTX.dom[self.var.i]
        return d if self.map is None else self.map.image(d)

    def isin(self, mask):
        if self.map is not None:
            mask = self.map.preimage(mask)
        return ubool(self.var, mask)

    def z(self):
        return self.var.z if self.map is None else _map_expr(self.var.z, self.map)

    def vars(self):
        return frozenset((self.var.i,))


class ExprChar:
    """character given by an arithmetic expression; `m` over-approximates it."""

    __slots__ = ("e", "m", "v")

    def __init__(self, e, m, v=frozenset()):
        self.e = e
        self.m = m
        self.v = v

    def mask(self):
        return self.m

    def isin(self, mask):
        if not self.m & mask:
            return False
        if not self.m & ~mask:
            return True
        return zbool(mask_expr(self.e, mask), self.v)

    def z(self):
        return self.e

    def vars(self):
        return self.v


def norm_item(it):
    if type(it) is int:
        return it
    s = single(it.mask())
    return it if s is None else s


def char_in(it, mask):
    """bool/SymBool: item lies in mask."""
    if type(it) is int:
        b = BIT.get(it)
        if b is None:
            raise EngineAbort("alphabet", hex(it))
        return bool(b & mask)
    return it.isin(mask)


def char_is(it, pred, mask):
    """class membership that also works for concrete chars outside the alphabet."""
    if type(it) is int:
        return pred(chr(it))
    return it.isin(mask)


def char_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a == b
    if ta is int:
        a, b, ta, tb = b, a, tb, ta
    if tb is int:
        bit = BIT.get(b)
        return False if bit is None else a.isin(bit)
    if ta is SymChar and tb is SymChar and a.var is b.var:
        if a.map is b.map:
            return True
        m = 0
        for c in mask_values(core.CTX.dom[a.var.i]):
            x = c if a.map is None else a.map.table.get(c)
            y = c if b.map is None else b.map.table.get(c)
            if x == y:
                m |= BIT[c]
        return ubool(a.var, m)
    ma, mb = a.mask(), b.mask()
    if not ma & mb:
        return False
    s = single(ma)
    if s is not None:
        return b.isin(BIT[s])
    s = single(mb)
    if s is not None:
        return a.isin(BIT[s])
    return zbool(a.z() == b.z(), a.vars() | b.vars())


def _zc(it):
    return z3.IntVal(it) if type(it) is int else it.z()


def _vc(it):
    return frozenset() if type(it) is int else it.vars()


def char_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int:
        m = 0
        for c in ALPH:
            if c < b:
                m |= BIT[c]
        return a.isin(m)
    if type(a) is int:
        m = 0
        for c in ALPH:
            if c > a:
                m |= BIT[c]
        return b.isin(m)
    return zbool(a.z() < b.z(), a.vars() | b.vars())


def mk(items):
    """SymStr or, when every item is determined, a plain str."""
    out = []
    conc = True
    for it in items:
        if type(it) is not int:
            it = norm_item(it)
            if type(it) is not int:
                conc = False
        out.append(it)
    if conc:
        return "".join(map(chr, out))
    return SymStr(tuple(out))


def items_of(s):
    t = type(s)
    if t is SymStr:
        return s.items
    if t is LazyStr:
        return items_of(s._force())
    if isinstance(s, str) and not issubclass(t, Proxy):
        # str subclasses such as str-enums compare by their value
        return tuple(map(ord, s))
    return None


def norm(s):
    """plain str when the symbolic string is already determined."""
    if type(s) is SymStr:
        return mk(s.items)
    return s


_SPACE = mask_of(str.isspace)
_PRED = {
    n: mask_of(getattr(str, n))
    for n in ("isalpha", "isdigit", "isalnum", "isspace", "isdecimal", "isnumeric", "isascii",
              "isprintable")
}
_UPPERC = mask_of(str.isupper)
_LOWERC = mask_of(str.islower)


class SymStr(Proxy):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return str

    # -- basics
    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        for it in self.items:
            yield mk((it,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[core.realize(x) if x is not None else None for x in (k.start, k.stop, k.step)])
            return mk(self.items[k])
        return mk((self.items[core.realize(k)],))

    def __add__(self, o):
        if type(o) is LazyStr:
            return LazyStr([self] + o.parts)
        it = items_of(o)
        if it is None:
            if isinstance(o, Proxy):
                raise TypeError(f'can only concatenate str (not "{o.__class__.__name__}") to str')
            return NotImplemented
        return mk(self.items + it)

    def __radd__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return mk(it + self.items)

    def __mul__(self, n):
        return mk(self.items * core.realize(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._realize() % o

    def __eq__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        if len(it) != len(self.items):
            return False
        return band_items(self.items, it)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def _lex(self, o, strict_less, other_first=False):
        it = items_of(o)
        if it is None:
            return NotImplemented
        a, b = (it, self.items) if other_first else (self.items, it)
        n = min(len(a), len(b))
        # fork char by char: first difference decides
        for i in range(n):
            if not bool(char_eq(a[i], b[i])):
                return char_lt(a[i], b[i])
        return len(a) < len(b) if strict_less else len(a) <= len(b)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return self._lex(o, True, True)

    def __ge__(self, o):
        return self._lex(o, False, True)

    def __hash__(self):
        return hash(self._realize())

    def __repr__(self):
        return repr(self._realize())

    def __str__(self):
        return self._realize()

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (self._realize(),))

    def _realize(self):
        out = []
        c = core.CTX
        for it in self.items:
            it = norm_item(it)
            if type(it) is not int:
                c.concretised += 1
                vals = mask_values(it.mask())
                for v in vals[:-1]:
                    if bool(char_eq(it, v)):
                        it = v
                        break
                else:
                    if bool(char_eq(it, vals[-1])):
                        it = vals[-1]
                    else:
                        raise EngineAbort("infeasible")
            out.append(it)
        return "".join(map(chr, out))

    # -- searching
    def _at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.items):
            return False
        return band_items(self.items[i:i + len(sub)], sub)

    def _bounds(self, start, end):
        n = len(self.items)
        start = 0 if start is None else core.realize(start)
        end = n if end is None else core.realize(end)
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def contains(self, sub):
        """formula (no fork)"""
        it = items_of(sub)
        if it is None:
            raise TypeError(f"'in <string>' requires string as left operand, not {type(sub).__name__}")
        return bor(*[self._at(it, i) for i in range(len(self.items) - len(it) + 1)])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def _sub(self, sub):
        it = items_of(sub)
        if it is None:
            raise TypeError(f"must be str, not {sub.__class__.__name__}")
        return it

    def find(self, sub, start=None, end=None):
        it = self._sub(sub)
        a, b = self._bounds(start, end)
        for i in range(a, b - len(it) + 1):
            if bool(self._at(it, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        it = self._sub(sub)
        a, b = self._bounds(start, end)
        for i in range(b - len(it), a - 1, -1):
            if bool(self._at(it, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        it = self._sub(sub)
        a, b = self._bounds(start, end)
        if not it:
            return max(0, b - a + 1)
        n = 0
        i = a
        while i + len(it) <= b:
            if bool(self._at(it, i)):
                n += 1
                i += len(it)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        a, b = self._bounds(start, end)
        if isinstance(prefix, tuple):
            return bor(*[mk(self.items).startswith(p, a, b) if type(norm(self)) is str and type(p) is str
                         else SymStr(self.items).startswith(p, a, b) for p in prefix])
        it = self._sub(prefix)
        if len(it) > b - a:
            return False
        return band_items(self.items[a:a + len(it)], it)

    def endswith(self, suffix, start=None, end=None):
        a, b = self._bounds(start, end)
        if isinstance(suffix, tuple):
            return bor(*[SymStr(self.items).endswith(p, a, b) for p in suffix])
        it = self._sub(suffix)
        if len(it) > b - a:
            return False
        return band_items(self.items[b - len(it):b], it)

    # -- building
    def replace(self, old, new, count=-1):
        o, n = self._sub(old), self._sub(new)
        count = core.realize(count)
        out = []
        i = 0
        k = 0
        L = len(self.items)
        if not o:
            for j in range(L + 1):
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                if j < L:
                    out.append(self.items[j])
            return mk(out)
        while i < L:
            if (count < 0 or k < count) and i + len(o) <= L and bool(self._at(o, i)):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(self.items[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = core.realize(maxsplit)
        out = []
        L = len(self.items)
        if sep is None:
            i = 0
            n = 0
            while i < L:
                while i < L and bool(char_is(self.items[i], str.isspace, _SPACE)):
                    i += 1
                if i >= L:
                    break
                j = i
                if 0 <= maxsplit <= n:
                    j = L
                    while j > i and bool(char_is(self.items[j - 1], str.isspace, _SPACE)):
                        j -= 1
                    out.append(mk(self.items[i:j]))
                    break
                while j < L and not bool(char_is(self.items[j], str.isspace, _SPACE)):
                    j += 1
                out.append(mk(self.items[i:j]))
                n += 1
                i = j
            return out
        s = self._sub(sep)
        if not s:
            raise ValueError("empty separator")
        i = start = 0
        while i + len(s) <= L and (maxsplit < 0 or len(out) < maxsplit):
            if bool(self._at(s, i)):
                out.append(mk(self.items[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(mk(self.items[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self._realize().rsplit(sep, maxsplit)
        s = self._sub(sep)
        out = []
        end = len(self.items)
        i = end - len(s)
        while i >= 0 and len(out) < maxsplit:
            if bool(self._at(s, i)):
                out.append(mk(self.items[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mk(self.items[:end]))
        return out[::-1]

    def partition(self, sep):
        if not self._sub(sep):
            raise ValueError("empty separator")
        i = self.find(sep)
        if i < 0:
            return mk(self.items), "", ""
        n = len(items_of(sep))
        return mk(self.items[:i]), sep, mk(self.items[i + n:])

    def rpartition(self, sep):
        if not self._sub(sep):
            raise ValueError("empty separator")
        i = self.rfind(sep)
        if i < 0:
            return "", "", mk(self.items)
        n = len(items_of(sep))
        return mk(self.items[:i]), sep, mk(self.items[i + n:])

    def splitlines(self, keepends=False):
        return self._realize().splitlines(keepends)

    def _strip_test(self, chars):
        if chars is None:
            return lambda it: bool(char_is(it, str.isspace, _SPACE))
        cs = items_of(chars)
        if all(type(c) is int for c in cs):
            st = set(cs)
            m = mask_chars(map(chr, cs))
            return lambda it: (it in st) if type(it) is int else bool(it.isin(m))
        return lambda it: bool(bor(*[char_eq(it, c) for c in cs]))

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.items) and t(self.items[i]):
            i += 1
        return mk(self.items[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        j = len(self.items)
        while j > 0 and t(self.items[j - 1]):
            j -= 1
        return mk(self.items[:j])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars) if type(s) is SymStr else lift(s).rstrip(chars)

    def _mapped(self, cmap):
        out = []
        for it in self.items:
            if type(it) is int:
                out.extend(map(ord, cmap.fn(chr(it))))
                continue
            if type(it) is ExprChar:
                if it.mask() & ~_PRED["isdigit"]:
                    raise EngineAbort("unsupported", "case map of expression char")
                out.append(it)
                continue
            m2 = cmap if it.map is None else compose(cmap, it.map)
            odd = m2.odd & core.CTX.dom[it.var.i]
            if odd:
                if bool(ubool(it.var, odd)):
                    for v in mask_values(odd)[:-1]:
                        if bool(ubool(it.var, BIT[v])):
                            break
                    v = single(core.CTX.dom[it.var.i])
                    if v is None:
                        v = ord(mk((SymChar(it.var),))._realize())
                    base = chr(v) if it.map is None else it.map.fn(chr(v))
                    out.extend(map(ord, cmap.fn(base)))
                    continue
            out.append(SymChar(it.var, m2))
        return mk(out)

    def lower(self):
        return self._mapped(LOWER)

    def upper(self):
        return self._mapped(UPPER)

    def casefold(self):
        return self._mapped(CASEFOLD)

    def swapcase(self):
        return self._mapped(SWAP)

    def title(self):
        return self._realize().title()

    def capitalize(self):
        return self._realize().capitalize()

    def istitle(self):
        return self._realize().istitle()

    def maketrans(self, *a):
        return str.maketrans(*a)

    def join(self, seq):
        out = []
        first = True
        for x in seq:
            it = items_of(x)
            if it is None:
                raise TypeError(f"sequence item: expected str instance, {x.__class__.__name__} found")
            if not first:
                out.extend(self.items)
            first = False
            out.extend(it)
        return mk(out)

    def removeprefix(self, p):
        return mk(self.items[len(items_of(p)):]) if bool(self.startswith(p)) else mk(self.items)

    def removesuffix(self, p):
        n = len(items_of(p))
        return mk(self.items[:len(self.items) - n]) if n and bool(self.endswith(p)) else mk(self.items)

    def _all(self, name):
        if not self.items:
            return name in ("isascii", "isprintable")
        f = getattr(str, name)
        return band(*[char_is(it, f, _PRED[name]) for it in self.items])

    def isalpha(self):
        return self._all("isalpha")

    def isdigit(self):
        return self._all("isdigit")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isascii(self):
        return self._all("isascii")

    def isprintable(self):
        return self._all("isprintable")

    def isupper(self):
        return band(bor(*[char_is(i, str.isupper, _UPPERC) for i in self.items]),
                    *[bnot(char_is(i, str.islower, _LOWERC)) for i in self.items])

    def islower(self):
        return band(bor(*[char_is(i, str.islower, _LOWERC) for i in self.items]),
                    *[bnot(char_is(i, str.isupper, _UPPERC)) for i in self.items])

    def isidentifier(self):
        return self._realize().isidentifier()

    def zfill(self, n):
        return self._realize().zfill(n)

    def ljust(self, n, fill=" "):
        return mk(self.items + tuple(map(ord, fill)) * max(0, core.realize(n) - len(self.items)))

    def rjust(self, n, fill=" "):
        return mk(tuple(map(ord, fill)) * max(0, core.realize(n) - len(self.items)) + self.items)

    def encode(self, encoding="utf-8", errors="strict"):
        from .models import encode_str
        return encode_str(self, encoding, errors)

    def format(self, *a, **k):
        return self._realize().format(*a, **k)

    def translate(self, table):
        return self._realize().translate(table)

    def expandtabs(self, n=8):
        return self._realize().expandtabs(n)

    def center(self, *a):
        return self._realize().center(*a)


def band_items(a, b):
    out = []
    for x, y in zip(a, b):
        r = char_eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return band(*out) if out else True


def lift(s):
    if type(s) is SymStr:
        return s
    if type(s) is LazyStr:
        return lift(s._force())
    return SymStr(tuple(map(ord, s)))


class LazyStr(Proxy):
    """A formatted message whose exact text is produced only if somebody looks."""

    __slots__ = ("parts", "_v")

    def __init__(self, parts):
        self.parts = parts      # str | SymStr | callable -> str/SymStr
        self._v = None

    @property
    def __class__(self):
        return str

    def _force(self):
        if self._v is None:
            out = []
            for p in self.parts:
                if callable(p) and not isinstance(p, Proxy):
                    p = p()
                out.extend(items_of(p))
            self._v = mk(out)
        return self._v

    def _realize(self):
        return core.realize(self._force())

    def __getattr__(self, name):
        return getattr(lift(self._force()), name)

    def __add__(self, o):
        if isinstance(o, str):
            return LazyStr(self.parts + (o.parts if type(o) is LazyStr else [o]))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return LazyStr([o] + self.parts)
        return NotImplemented

    def __len__(self):
        return len(self._force())

    def __iter__(self):
        return iter(self._force())

    def __getitem__(self, k):
        return self._force()[k]

    def __eq__(self, o):
        if items_of_lazy_differs(self, o):
            return False
        return self._force() == o

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __lt__(self, o):
        return self._force() < o

    def __le__(self, o):
        return self._force() <= o

    def __gt__(self, o):
        return self._force() > o

    def __ge__(self, o):
        return self._force() >= o

    def __contains__(self, o):
        return o in lift(self._force())

    def __hash__(self):
        return hash(self._realize())

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, str) and len(p):
                return True
        return bool(self._force())

    def __mod__(self, o):
        return self._realize() % o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def items_of_lazy_differs(a, o):
    return not isinstance(o, str)


# ---------------------------------------------------------------- conversions
_DEC = {}
for _c in ALPH:
    _d = unicodedata.decimal(chr(_c), None)
    if _d is not None:
        _DEC[_c] = int(_d)
_DECMASK = mask_of(lambda ch: ord(ch) in _DEC)


def digit_value(it):
    """(int or z3 expr, vars) of an item known to be a decimal digit."""
    if type(it) is int:
        return unicodedata.decimal(chr(it)), frozenset()
    m = it.mask() & _DECMASK
    s = single(m)
    if s is not None:
        return _DEC[s], frozenset()
    z = it.z()
    e = None
    groups = {}
    for c in mask_values(m):
        groups.setdefault(c - _DEC[c], 0)
        groups[c - _DEC[c]] |= BIT[c]
    for base, gm in groups.items():
        t = z - base
        e = t if e is None else z3.If(mask_expr(z, gm), t, e)
    return e, it.vars()


def _isdec(it):
    return bool(char_is(it, lambda ch: unicodedata.decimal(ch, None) is not None, _DECMASK))


_CTRLSEP = mask_chars("\x1c\x1d\x1e\x1f")


def _num_strip(s):
    """white space int()/float() ignore (\\x1c-\\x1f are white space to str.strip only)"""
    t = lift(s).strip()
    n = len(s) - len(t)
    if n:
        its = items_of(s)
        k = 0
        while k < len(its) and bool(char_is(its[k], str.isspace, _SPACE)):
            k += 1
        outer = its[:k] + its[k + len(t):]
        if any(bool(char_is(it, lambda ch: ch in "\x1c\x1d\x1e\x1f", _CTRLSEP)) for it in outer):
            return None
    return t


def str_to_int(s, base=10):
    s = norm(s._force() if type(s) is LazyStr else s)
    if type(s) is str:
        return int(s, base)
    if base != 10:
        return int(s._realize(), base)

    def bad():
        return ValueError("invalid literal for int() with base 10: ...")

    t = _num_strip(s)
    if t is None:
        raise bad()
    its = items_of(t)
    i = 0
    neg = False
    if its and bool(char_eq(its[0], ord("-"))):
        neg = True
        i = 1
    elif its and bool(char_eq(its[0], ord("+"))):
        i = 1
    if i >= len(its):
        raise bad()
    val = 0
    vs = frozenset()
    prev_digit = False
    while i < len(its):
        it = its[i]
        if _isdec(it):
            d, v = digit_value(it)
            val = val * 10 + d
            vs |= v
            prev_digit = True
        elif prev_digit and i + 1 < len(its) and bool(char_eq(it, ord("_"))):
            prev_digit = False
        else:
            raise bad()
        i += 1
    if not prev_digit:
        raise bad()
    if neg:
        val = -val
    if isinstance(val, int):
        return val
    return core.mkint(val, vs)


def str_to_float(s):
    s = norm(s._force() if type(s) is LazyStr else s)
    if type(s) is str:
        return float(s)

    def bad():
        return ValueError("could not convert string to float: ...")

    t = _num_strip(s)
    if t is None:
        raise bad()
    if type(t) is str:
        return float(t)
    its = t.items
    i = 0
    n = len(its)
    neg = False
    if n and bool(char_eq(its[0], ord("-"))):
        neg, i = True, 1
    elif n and bool(char_eq(its[0], ord("+"))):
        i = 1
    rest = mk(its[i:])
    rl = rest.lower()
    for word in ("inf", "infinity", "nan"):
        # float() special words are ASCII case-insensitive only
        if len(rl) == len(word) and bool(lift(rl) == word):
            asc = lift(rest).isascii()
            if bool(asc):
                return float(("-" if neg else "") + word)
            raise bad()

    def digits(i):
        """digit run with single underscores between digits"""
        out = []
        prev = False
        while i < n:
            if _isdec(its[i]):
                out.append(its[i])
                prev = True
                i += 1
            elif prev and i + 1 < n and bool(char_eq(its[i], ord("_"))) and _isdec(its[i + 1]):
                prev = False
                i += 1
            else:
                break
        return out, i

    ip, i = digits(i)
    fp = []
    if i < n and bool(char_eq(its[i], ord("."))):
        fp, i = digits(i + 1)
    if not ip and not fp:
        raise bad()
    exp = 0
    if i < n and bool(bor(char_eq(its[i], ord("e")), char_eq(its[i], ord("E")))):
        i += 1
        es = 1
        if i < n and bool(char_eq(its[i], ord("-"))):
            es = -1
            i += 1
        elif i < n and bool(char_eq(its[i], ord("+"))):
            i += 1
        ed, i = digits(i)
        if not ed:
            raise bad()
        if i < n:
            raise bad()
        exp = es * int(mk(ed)._realize() if type(mk(ed)) is SymStr else mk(ed))
    if i < n:
        raise bad()
    val = 0
    vs = frozenset()
    for d in ip + fp:
        x, v = digit_value(d)
        val = val * 10 + x
        vs |= v
    exp -= len(fp)
    if isinstance(val, int):
        return float(("-" if neg else "") + f"{val}e{exp}")
    if abs(exp) > 15 or len(ip) + len(fp) > 15:
        # outside the exactly modelled range: concrete digits
        val = core.realize(core.mkint(val, vs))
        return float(("-" if neg else "") + f"{val}e{exp}")
    e = z3.ToReal(val)
    e = e * z3.RealVal(10 ** exp) if exp >= 0 else e / z3.RealVal(10 ** (-exp))
    if neg:
        e = -e
    return SymReal(z3.simplify(e), vs)


def int_to_str(x):
    neg = bool(x < 0)
    e = -x.e if neg else x.e
    k = 1
    while k < 40 and not bool(zbool(e < 10 ** k, x.v)):
        k += 1
    dm = mask_chars("0123456789")
    its = [ord("-")] if neg else []
    for j in range(k - 1, -1, -1):
        d = z3.simplify((e / (10 ** j)) % 10 + 48)
        its.append(d.as_long() if z3.is_int_value(d) else ExprChar(d, dm, x.v))
    return mk(its)


def to_str(x):
    """str(x) for possibly symbolic x (may be lazy)."""
    t = type(x)
    if t is SymStr or t is LazyStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if issubclass(t, Proxy):
        return str(x)
    return str(x)


def lazy_str(x):
    """part for a message: defers forks."""
    t = type(x)
    if t is SymStr or t is LazyStr or t is str:
        return x
    return lambda: to_str(x)
