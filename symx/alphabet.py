"""The character alphabet of symbolic strings.

All of ASCII, plus representatives of every class of non-ASCII character the
code under test can distinguish: letters with case pairs, letters whose
upper/lower mapping changes length or leaves the pair (sharp s, long s, Kelvin
sign), non-ASCII digits, superscript digits, non-ASCII white space, line
separator, ideographs and a non-BMP character.
"""

_EXTRA = [
    0x85, 0xA0, 0xAA, 0xB2, 0xC9, 0xDF, 0xE9, 0x17F, 0x660, 0x661, 0x2028, 0x212A, 0x3000,
    0x4E2D, 0x1F600,
]
ALPH = list(range(128)) + _EXTRA
IDX = {c: i for i, c in enumerate(ALPH)}
N = len(ALPH)
FULL = (1 << N) - 1
BIT = {c: 1 << i for c, i in IDX.items()}
ASCII = (1 << 128) - 1


def mask_of(pred):
    m = 0
    for i, c in enumerate(ALPH):
        if pred(chr(c)):
            m |= 1 << i
    return m


def mask_chars(chars):
    m = 0
    for ch in chars:
        m |= BIT.get(ord(ch), 0)
    return m


_vals = {}


def mask_values(mask):
    """codepoints in mask, ascending."""
    r = _vals.get(mask)
    if r is None:
        r = []
        m = mask
        while m:
            low = m & -m
            r.append(ALPH[low.bit_length() - 1])
            m ^= low
        if len(_vals) < 20000:
            _vals[mask] = r
    return r


def single(mask):
    """the codepoint if mask has exactly one, else None."""
    if mask and not mask & (mask - 1):
        return ALPH[mask.bit_length() - 1]
    return None


_ranges = {}


def mask_ranges(mask):
    """codepoint ranges covering exactly mask within the alphabet (gaps between
    consecutive alphabet members may be merged: variables are constrained to the
    alphabet by their declaration)."""
    r = _ranges.get(mask)
    if r is None:
        r = []
        prev = None
        for i, c in enumerate(ALPH):
            if mask >> i & 1:
                if prev is not None and prev == i - 1 and (c - r[-1][1] == 1):
                    r[-1][1] = c
                else:
                    r.append([c, c])
                prev = i
        if len(_ranges) < 20000:
            _ranges[mask] = r
    return r


class CharMap:
    """A per-character mapping (lower, upper, casefold, ...) over the alphabet.
    Characters whose image is not one character of the alphabet are `odd`."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.table = {}
        self.odd = 0
        for i, c in enumerate(ALPH):
            t = fn(chr(c))
            if len(t) == 1 and ord(t) in IDX:
                self.table[c] = ord(t)
            else:
                self.odd |= 1 << i
        self._img = {}
        self._pre = {}

    def image(self, mask):
        r = self._img.get(mask)
        if r is None:
            r = 0
            for c in mask_values(mask & ~self.odd):
                r |= BIT[self.table[c]]
            if len(self._img) < 20000:
                self._img[mask] = r
        return r

    def preimage(self, mask):
        r = self._pre.get(mask)
        if r is None:
            r = 0
            for c, t in self.table.items():
                if mask & BIT[t]:
                    r |= BIT[c]
            if len(self._pre) < 20000:
                self._pre[mask] = r
        return r


LOWER = CharMap("lower", str.lower)
UPPER = CharMap("upper", str.upper)
CASEFOLD = CharMap("casefold", str.casefold)
SWAP = CharMap("swapcase", str.swapcase)


def compose(outer, inner, _cache={}):
    k = (outer.name, inner.name)
    if k not in _cache:
        def fn(ch):
            return outer.fn(inner.fn(ch))
        _cache[k] = CharMap(outer.name + "∘" + inner.name, fn)
    return _cache[k]
