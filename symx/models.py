"""Models of C-implemented library functions, used only on symbolic arguments.
Each is differential-tested against the real function (selftest.py)."""
import base64
import binascii

import z3

from . import core
from .alphabet import mask_chars, mask_of
from .core import EngineAbort, Proxy, band, bnot
from .strings import SymStr, char_eq, char_in, char_is, items_of, lift, mk


class SymBytes(Proxy):
    """bytes of concrete length; items are ints, or (z3 expr, vars)."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def _z(self, i):
        it = self.items[i]
        return (z3.IntVal(it), frozenset()) if type(it) is int else it

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if not isinstance(o, Proxy):
                o = SymBytes(o)
            if len(o) != len(self):
                return False
            out = []
            for i in range(len(self)):
                if type(self.items[i]) is int and type(o.items[i]) is int:
                    if self.items[i] != o.items[i]:
                        return False
                    continue
                a, va = self._z(i)
                b, vb = o._z(i)
                out.append(core.zbool(a == b, va | vb))
            return band(*out) if out else True
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return hash(self._realize())

    def _realize(self):
        out = []
        for it in self.items:
            out.append(it if type(it) is int else core.realize(core.mkint(*it)))
        return bytes(out)

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = SymBytes(self.items[k])
            if all(type(i) is int for i in r.items):
                return bytes(r.items)
            return r
        it = self.items[k]
        return it if type(it) is int else core.mkint(*it)

    def __iter__(self):
        for i in range(len(self.items)):
            yield self[i]

    def decode(self, encoding="utf-8", errors="strict"):
        return self._realize().decode(encoding, errors)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._realize(), name)


def encode_str(s, encoding="utf-8", errors="strict"):
    enc = str(encoding).lower().replace("_", "-")
    if enc not in ("ascii", "us-ascii", "utf-8", "utf8", "latin-1", "latin1"):
        return s._realize().encode(encoding, errors)
    out = []
    asc = mask_of(str.isascii)
    for it in s.items:
        if type(it) is int:
            out.extend(chr(it).encode(encoding, errors))
        elif bool(it.isin(asc)):
            out.append((it.z(), it.vars()))
        elif enc in ("ascii", "us-ascii") and errors == "strict":
            raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
        else:
            out.extend(mk((it,))._realize().encode(encoding, errors) if type(mk((it,))) is SymStr
                       else mk((it,)).encode(encoding, errors))
    if all(type(i) is int for i in out):
        return bytes(out)
    return SymBytes(out)


_B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _byte_in(it, chars):
    """decided membership of a byte item in a bytes set"""
    if type(it) is int:
        return it in chars
    e, v = it
    from .core import mask_expr
    m = mask_chars(chr(c) for c in chars)
    return bool(core.zbool(mask_expr(e, m), v))


def _six(it):
    """6-bit value expr of a byte item known to be in the base64 alphabet"""
    if type(it) is int:
        return z3.IntVal(_B64.index(it)), frozenset()
    e, v = it
    r = z3.If(z3.And(e >= 65, e <= 90), e - 65,
              z3.If(z3.And(e >= 97, e <= 122), e - 71,
                    z3.If(z3.And(e >= 48, e <= 57), e + 4, z3.If(e == 43, z3.IntVal(62), z3.IntVal(63)))))
    return r, v


def _chr6(e):
    return z3.If(e < 26, e + 65, z3.If(e < 52, e + 71, z3.If(e < 62, e - 4, z3.If(e == 62, z3.IntVal(43), z3.IntVal(47)))))


def _as_bytes(x):
    if type(x) is SymStr:
        # ascii strings are accepted
        try:
            x = encode_str(x, "ascii")
        except UnicodeEncodeError:
            raise ValueError("string argument should contain only ASCII characters")
    if type(x) is SymBytes:
        return x.items
    return tuple(x if isinstance(x, (bytes, bytearray)) else x.encode("ascii"))


def _simp(e, v):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else (e, v)


def _mkb(items):
    items = list(items)
    if all(type(i) is int for i in items):
        return bytes(items)
    return SymBytes(items)


def b64decode(s, altchars=None, validate=False):
    if altchars is not None:
        return base64.b64decode(core.realize(s), altchars, validate)
    return a2b_base64(s, strict_mode=validate)


def a2b_base64(s, *, strict_mode=False):
    """CPython binascii.a2b_base64."""
    items = _as_bytes(s)
    if strict_mode:
        return binascii.a2b_base64(core.realize(_mkb(items)), strict_mode=True)
    out = []
    quad = 0
    pads = 0
    left = None
    for it in items:
        if _byte_in(it, b"="):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return _mkb(out)
            continue
        if not _byte_in(it, _B64):
            continue
        pads = 0
        e, v = _six(it)
        if quad == 0:
            quad = 1
            left = (e, v)
        elif quad == 1:
            quad = 2
            out.append(_simp(left[0] * 4 + e / 16, left[1] | v))
            left = (e % 16, v)
        elif quad == 2:
            quad = 3
            out.append(_simp(left[0] * 16 + e / 4, left[1] | v))
            left = (e % 4, v)
        else:
            quad = 0
            out.append(_simp(left[0] * 64 + e, left[1] | v))
            left = None
    if quad != 0:
        raise binascii.Error("Incorrect padding")
    return _mkb(out)


def b64encode(s, altchars=None):
    if altchars is not None:
        return base64.b64encode(core.realize(s), altchars)
    items = [(z3.IntVal(i), frozenset()) if type(i) is int else i for i in _as_bytes(s)]
    out = []
    for k in range(0, len(items), 3):
        g = items[k:k + 3]
        a = g[0]
        out.append(_simp(_chr6(a[0] / 4), a[1]))
        if len(g) == 1:
            out.append(_simp(_chr6((a[0] % 4) * 16), a[1]))
            out += [61, 61]
            continue
        b = g[1]
        out.append(_simp(_chr6((a[0] % 4) * 16 + b[0] / 16), a[1] | b[1]))
        if len(g) == 2:
            out.append(_simp(_chr6((b[0] % 16) * 4), b[1]))
            out.append(61)
            continue
        c = g[2]
        out.append(_simp(_chr6((b[0] % 16) * 4 + c[0] / 64), b[1] | c[1]))
        out.append(_simp(_chr6(c[0] % 64), c[1]))
    return _mkb(out)


def fromisoformat(s):
    """datetime.fromisoformat: shorter than 7 characters is always an error;
    otherwise every feasible string is tried."""
    import datetime
    if len(s) < 7:
        raise ValueError("Invalid isoformat string")
    # the first characters must be decimal digits: decide that before concretising
    dig = mask_chars("0123456789")
    its = items_of(s)
    for it in its[:4]:
        if not bool(char_is(it, lambda ch: ch in "0123456789", dig)):
            raise ValueError("Invalid isoformat string")
    return datetime.datetime.fromisoformat(core.realize(s))
