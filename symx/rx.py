"""Regular expressions over symbolic strings: a backtracking matcher over the
parse tree of CPython's own `re` parser; every character-class test is a decided
(forked) condition, so each execution path matches exactly as `re` does."""
import re
from re import _constants as C
from re import _parser as P

from . import core
from .alphabet import ALPH, BIT, mask_of
from .core import EngineAbort
from .strings import SymStr, char_eq, char_is, items_of, lift, mk

_cache = {}


def compiled(pattern):
    key = (pattern.pattern, pattern.flags)
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = Rx(pattern)
    return r


def _is_word(ch):
    return ch.isalnum() or ch == "_"


class Rx:
    def __init__(self, pattern):
        self.py = pattern
        if not isinstance(pattern.pattern, str):
            raise EngineAbort("unsupported", "bytes regex")
        self.tree = P.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        self.flags = pattern.flags
        self.groups = pattern.groups
        self.groupindex = dict(pattern.groupindex)
        self._masks = {}
        if self.flags & re.LOCALE:
            raise EngineAbort("unsupported", "re.LOCALE")

    # ---- character classes
    def _cat(self, cat, ch):
        asc = self.flags & re.ASCII
        if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
            r = ch.isdecimal() and (not asc or ch.isascii())
            return r == (cat is C.CATEGORY_DIGIT)
        if cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            r = (ch in " \t\n\r\f\v") if asc else ch.isspace()
            return r == (cat is C.CATEGORY_SPACE)
        if cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
            r = _is_word(ch) and (not asc or ch.isascii())
            return r == (cat is C.CATEGORY_WORD)
        raise EngineAbort("unsupported", f"regex category {cat}")

    def _in(self, items, ch):
        neg = False
        r = False
        variants = {ch}
        if self.flags & re.IGNORECASE:
            for f in (str.lower, str.upper):
                v = f(ch)
                if len(v) == 1:
                    variants.add(v)
                    w = v.lower()
                    if len(w) == 1:
                        variants.add(w)
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                r = r or any(ord(v) == av for v in variants)
            elif op is C.RANGE:
                r = r or any(av[0] <= ord(v) <= av[1] for v in variants)
            elif op is C.CATEGORY:
                r = r or self._cat(av, ch)
            else:
                raise EngineAbort("unsupported", f"regex class {op}")
        return r != neg

    def _pred(self, op, av):
        if op is C.LITERAL:
            return lambda ch: self._in([(C.LITERAL, av)], ch)
        if op is C.NOT_LITERAL:
            return lambda ch: not self._in([(C.LITERAL, av)], ch)
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return lambda ch: True
            return lambda ch: ch != "\n"
        return lambda ch: self._in(av, ch)

    def _test(self, node, it):
        op, av = node
        key = id(node) if op is C.IN else (op, av)
        e = self._masks.get(key)
        if e is None:
            pred = self._pred(op, av)
            e = self._masks[key] = (pred, mask_of(pred), node)
        return bool(char_is(it, e[0], e[1]))

    # ---- matcher (continuation passing)
    def m(self, seq, k, pos, st, cont):
        if k == len(seq):
            return cont(pos, st)
        op, av = node = seq[k]
        s, end = self.s, self.endpos
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < end and self._test(node, s[pos]):
                return self.m(seq, k + 1, pos + 1, st, cont)
            return None
        if op is C.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                raise EngineAbort("unsupported", "inline regex flags")

            def after(pos2, st2):
                if gid is not None:
                    st2 = dict(st2)
                    st2[gid] = (pos, pos2)
                return self.m(seq, k + 1, pos2, st2, cont)

            return self.m(p, 0, pos, st, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(alt, 0, pos, st, lambda p2, st2: self.m(seq, k + 1, p2, st2, cont))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            rest = lambda p2, st2: self.m(seq, k + 1, p2, st2, cont)
            if op is C.MAX_REPEAT:
                return self._max(p, lo, hi, 0, pos, st, rest, None)
            return self._min(p, lo, hi, 0, pos, st, rest)
        if op is C.AT:
            return self.m(seq, k + 1, pos, st, cont) if self._at(av, pos) else None
        if op is C.GROUPREF:
            g = st.get(av)
            if g is None:
                return None
            sub = s[g[0]:g[1]]
            for j, it in enumerate(sub):
                if pos + j >= end or not bool(char_eq(it, s[pos + j])):
                    return None
            return self.m(seq, k + 1, pos + len(sub), st, cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise EngineAbort("unsupported", "variable lookbehind")
                q = pos - lo
                r = None if q < 0 else self.m(p, 0, q, st, lambda p2, st2: (p2, st2))
            else:
                r = self.m(p, 0, pos, st, lambda p2, st2: (p2, st2))
            if (r is not None) != (op is C.ASSERT):
                return None
            if r is not None:
                st = r[1]
            return self.m(seq, k + 1, pos, st, cont)
        if op is C.ATOMIC_GROUP:
            r = self.m(av, 0, pos, st, lambda p2, st2: (p2, st2))
            return None if r is None else self.m(seq, k + 1, r[0], r[1], cont)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            r = self._max(p, lo, hi, 0, pos, st, lambda p2, st2: (p2, st2), None)
            return None if r is None else self.m(seq, k + 1, r[0], r[1], cont)
        raise EngineAbort("unsupported", f"regex op {op}")

    def _max(self, p, lo, hi, n, pos, st, rest, last):
        if n < hi and (n < lo or pos != last):
            r = self.m(p, 0, pos, st,
                       lambda p2, st2: (self._max(p, lo, hi, n + 1, p2, st2, rest, pos)
                                        if (p2 != pos or n < lo) else None))
            if r is not None:
                return r
        if n >= lo:
            return rest(pos, st)
        return None

    def _min(self, p, lo, hi, n, pos, st, rest):
        if n >= lo:
            r = rest(pos, st)
            if r is not None:
                return r
        if n < hi:
            return self.m(p, 0, pos, st,
                          lambda p2, st2: (self._min(p, lo, hi, n + 1, p2, st2, rest)
                                           if (p2 != pos or n < lo) else None))
        return None

    def _word_at(self, i):
        if not 0 <= i < len(self.s):
            return False
        asc = self.flags & re.ASCII
        pred = (lambda ch: _is_word(ch) and ch.isascii()) if asc else _is_word
        key = ("word", bool(asc))
        e = self._masks.get(key)
        if e is None:
            e = self._masks[key] = mask_of(pred)
        return bool(char_is(self.s[i], pred, e))

    def _at(self, av, pos):
        ml = self.flags & re.MULTILINE
        n = self.endpos
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not ml):
            return pos == 0
        if av is C.AT_BEGINNING:
            return pos == 0 or bool(char_eq(self.s[pos - 1], 10))
        if av is C.AT_END_STRING:
            return pos == n
        if av is C.AT_END:
            if pos == n:
                return True
            if ml or pos == n - 1:
                return bool(char_eq(self.s[pos], 10))
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            b = self._word_at(pos - 1) != (self._word_at(pos) if pos < n else False)
            return b == (av is C.AT_BOUNDARY)
        raise EngineAbort("unsupported", f"regex at {av}")

    # ---- api
    def run(self, s, pos, endpos, full=False, search=False):
        its = items_of(s)
        n = len(its)
        pos = max(0, min(core.realize(pos), n))
        endpos = n if endpos is None else max(0, min(core.realize(endpos), n))
        self.s, self.endpos = its, endpos
        i = pos
        while i <= endpos:
            r = self.m(self.tree, 0, i, {},
                       lambda p2, st2: (p2, st2) if not full or p2 == endpos else None)
            if r is not None:
                return SymMatch(self, s, i, r[0], r[1], pos, endpos)
            if not search:
                return None
            i += 1
        return None

    def match(self, s, pos=0, endpos=None):
        return self.run(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        return self.run(s, pos, endpos, full=True)

    def search(self, s, pos=0, endpos=None):
        return self.run(s, pos, endpos, search=True)

    def finditer(self, s, pos=0, endpos=None):
        n = len(items_of(s))
        endpos = n if endpos is None else endpos
        i = pos
        last_empty_at = None
        while i <= endpos:
            m = self._search_from(s, i, endpos, last_empty_at)
            if m is None:
                return
            yield m
            if m.end() == m.start():
                last_empty_at = None
                # after an empty match, the next match may start here if non-empty
                m2 = self._nonempty_at(s, m.end(), endpos)
                if m2 is not None:
                    yield m2
                    i = m2.end()
                    last_empty_at = None
                else:
                    i = m.end() + 1
            else:
                i = m.end()

    def _search_from(self, s, i, endpos, _):
        return self.run(s, i, endpos, search=True)

    def _nonempty_at(self, s, i, endpos):
        its = items_of(s)
        self.s, self.endpos = its, endpos
        r = self.m(self.tree, 0, i, {}, lambda p2, st2: (p2, st2) if p2 != i else None)
        return None if r is None else SymMatch(self, s, i, r[0], r[1], i, endpos)

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple("" if g is None else g for g in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(lift(s)[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(lift(s)[last:])
        return out

    def subn(self, repl, s, count=0):
        out = []
        last = 0
        n = 0
        its = items_of(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(its[last:m.start()])
            if callable(repl) and not isinstance(repl, str):
                r = repl(m)
            else:
                if type(repl) is SymStr:
                    repl = repl._realize()
                r = repl
                if "\\" in repl:
                    out_ = []
                    for part in _template(self.py, repl):
                        out_.extend(items_of(part if isinstance(part, str) else (m.group(part) or "")))
                    out.extend(out_)
                    last = m.end()
                    n += 1
                    continue
            out.extend(items_of(r))
            last = m.end()
            n += 1
        out.extend(its[last:])
        return mk(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


class SymMatch:
    def __init__(self, rx, s, start, end, groups, pos, endpos):
        self.rx = rx
        self.string = s
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.pos = pos
        self.endpos = endpos
        self.re = rx.py

    @property
    def __class__(self):
        return re.Match

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self.rx.groupindex:
                raise IndexError("no such group")
            return self.rx.groupindex[g]
        g = core.realize(g)
        if not 0 <= g <= self.rx.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        sp = self._g.get(self._gid(g))
        return default if sp is None else lift(self.string)[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.rx.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.rx.groupindex}

    def span(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        gs = [(self._g[g][1], -self._g[g][0], g) for g in self._g if g]
        return max(gs)[2] if gs else None

    def __bool__(self):
        return True


def _template(pattern, repl):
    import re._parser as rp
    return [x for x in rp.parse_template(repl, pattern) if x != ""]
