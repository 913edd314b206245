"""Harness API, in a symbolic and in a concrete (replay) flavour."""
import enum
import math

import z3

from . import core
from .alphabet import ASCII, BIT, FULL, mask_chars, mask_of
from .core import EngineAbort, PropertyViolation, Proxy, SymBool, SymInt, SymReal, band, bnot, bor

HARNESSES = {}


class Harness:
    def __init__(self, prop, fn, quick, thorough, bounds, reach, budget):
        self.prop, self.fn = prop, fn
        self.name = fn.__name__
        self.quick, self.thorough = quick, thorough
        self.bounds = bounds
        self.reach = reach
        self.budget = budget


def harness(prop, quick=None, thorough=None, bounds="", reach=(), budget=None):
    """quick/thorough: a dict of parameters or a list of such dicts (one run each)."""

    def deco(fn):
        q = quick or {}
        t = thorough or q
        h = Harness(prop, fn, q if isinstance(q, list) else [q], t if isinstance(t, list) else [t],
                    bounds, list(reach), budget)
        HARNESSES.setdefault(prop, {})[h.name] = h
        return fn

    return deco


ASCII_MASK = ASCII
FULL_MASK = FULL


def _mask(chars):
    if chars is None:
        return FULL
    if chars == "ascii":
        return ASCII
    if chars == "printable":
        return mask_of(lambda c: c.isascii() and c.isprintable())
    if chars == "word":
        return mask_of(lambda c: c.isascii() and (c.isalnum() or c == "_"))
    return mask_chars(chars)


class Base:
    """operations common to both flavours"""

    symbolic = False

    def outcome(self, fn, *a, **k):
        """('ok', value) or ('raise', exception type name)"""
        try:
            return "ok", fn(*a, **k)
        except Exception as e:  # noqa
            return "raise", type(e).__name__

    def json(self, name, depth=1, kinds="nbifsld", slen=(0, 2), chars=None, nlist=1, keys=None):
        """an arbitrary JSON-like value within the bounds"""
        ks = [k for k in kinds if depth > 0 or k not in "ld"]
        k = ks[self.pick(name + ".kind", len(ks))]
        if k == "n":
            return None
        if k == "b":
            return self.bool(name)
        if k == "i":
            return self.int(name, -2, 3)
        if k == "f":
            return self.real(name, -8, 8, 4)
        if k == "x":
            return [math.inf, -math.inf, math.nan][self.pick(name + ".special", 3)]
        if k == "s":
            return self.string(name, *slen, chars=chars)
        if k == "l":
            n = self.pick(name + ".len", nlist + 1)
            return [self.json(f"{name}[{i}]", depth - 1, kinds, slen, chars, nlist, keys) for i in range(n)]
        if k == "d":
            opts = [None] + list(keys or [])
            j = self.pick(name + ".key", len(opts) + 1)
            if j == 0:
                return {}
            key = self.string(name + ".anykey", *slen, chars=chars) if j == 1 else self.case(name + ".k", opts[j - 1])
            return self.mkdict([(key, self.json(f"{name}.v", depth - 1, kinds, slen, chars, nlist, keys))])
        raise ValueError(k)


class SymSx(Base):
    symbolic = True

    def outcome(self, fn, *a, **k):
        from . import rt
        try:
            return "ok", rt.call(fn, *a, **k)
        except Exception as e:  # noqa
            return "raise", type(e).__name__

    @staticmethod
    def mkdict(pairs):
        from .containers import SxDict
        d = SxDict()
        for k, v in pairs:
            d[k] = v
        return d

    def __init__(self, c):
        self.c = c

    def _reg(self, name, ev):
        if name in self.c.input_names:
            raise EngineAbort("harness", f"duplicate input {name}")
        self.c.input_names[name] = ev

    def bool(self, name):
        b = z3.Bool(name)
        self._reg(name, lambda m: z3.is_true(m.eval(b, model_completion=True)))
        return SymBool("z", b, frozenset())

    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.c.add(x >= lo)
        if hi is not None:
            self.c.add(x <= hi)
        self._reg(name, lambda m: m.eval(x, model_completion=True).as_long())
        if lo is not None and lo == hi:
            return lo
        return SymInt(x)

    def real(self, name, lo, hi, den=4):
        """n/den for integer lo <= n <= hi; den a power of two (exact floats)"""
        x = z3.Int(name)
        self.c.add(x >= lo)
        self.c.add(x <= hi)
        self._reg(name, lambda m: m.eval(x, model_completion=True).as_long() / den)
        return SymReal(z3.ToReal(x) / z3.RealVal(den))

    def string(self, name, lo, hi=None, chars=None):
        from .strings import SymChar, mk
        hi = lo if hi is None else hi
        n = lo + self.c.choose(hi - lo + 1)
        mask = _mask(chars)
        vs = [self.c.char_var(f"{name}#{i}", mask) for i in range(n)]
        self._reg(name, lambda m: "".join(chr(m.eval(v.z, model_completion=True).as_long()) for v in vs))
        if not vs:
            return ""
        return mk([SymChar(v) for v in vs])

    def chars(self, name, masks):
        """string whose i-th char comes from masks[i] (a str of options)"""
        from .strings import SymChar, mk
        vs = [self.c.char_var(f"{name}#{i}", mask_chars(o)) for i, o in enumerate(masks)]
        self._reg(name, lambda m: "".join(chr(m.eval(v.z, model_completion=True).as_long()) for v in vs))
        return mk([SymChar(v) for v in vs])

    def case(self, name, word):
        """word with every letter in either case"""
        return self.chars(name, [ch.lower() + ch.upper() if ch.isascii() and ch.isalpha() else ch for ch in word])

    def pick(self, name, n):
        k = self.c.choose(n)
        self._reg(name, lambda m: k)
        return k

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def enum(self, name, cls, members=None):
        from .rt import SymEnum
        ms = list(members or cls)
        x = z3.Int(name)
        self.c.add(x >= 0)
        self.c.add(x < len(ms))
        self._reg(name, lambda m: m.eval(x, model_completion=True).as_long())
        return SymEnum(cls, ms, x)

    # ---- verdicts
    def check(self, cond, msg):
        c = self.c
        c.assertions += 1
        if type(cond) is SymBool:
            e = cond.z()
            r, m = c.check(z3.Not(e))
            if r == z3.sat:
                raise PropertyViolation(msg, m)
            return
        if not cond:
            raise PropertyViolation(msg)

    def assume(self, cond):
        if type(cond) is SymBool:
            ft, ff, m_t, _ = self.c._feasible(cond)
            if not ft:
                raise EngineAbort("assume")
            self.c.assume(cond, True, m_t)
            return
        if not cond:
            raise EngineAbort("assume")

    def known(self, kid, cond=True):
        """cond describes the inputs of known finding kid (known_findings.json): the
        harness skips its assertion exactly there."""
        if cond:
            self.c.reach.add("known:" + kid)
            return True
        return False

    def reach(self, label):
        self.c.reach.add(label)

    def observe(self, label, value):
        self.c.obs.append((label, value))

    And = staticmethod(lambda *b: band(*b))
    Or = staticmethod(lambda *b: bor(*b))
    Not = staticmethod(bnot)

    @staticmethod
    def Implies(a, b):
        return bor(bnot(a), b)

    @staticmethod
    def Iff(a, b):
        if type(a) is SymBool:
            return a == (b if type(b) is SymBool else bool(b))
        if type(b) is SymBool:
            return b == bool(a)
        return bool(a) == bool(b)


class ConcreteViolation(Exception):
    pass


class AssumeFailed(Exception):
    pass


class ConcSx(Base):
    def __init__(self, inputs):
        self.i = inputs
        self.obs = []
        self.reached = set()
        self.knowns = set()

    mkdict = staticmethod(dict)

    def known(self, kid, cond=True):
        if cond:
            self.knowns.add(kid)
        return bool(cond)

    def bool(self, name):
        return bool(self.i.get(name, False))

    def int(self, name, lo=None, hi=None):
        return int(self.i.get(name, lo or 0))

    def real(self, name, lo, hi, den=4):
        return float(self.i.get(name, lo / den))

    def string(self, name, lo, hi=None, chars=None):
        return self.i.get(name, " " * lo)

    def chars(self, name, masks):
        return self.i.get(name, "".join(m[0] for m in masks))

    def case(self, name, word):
        return self.i.get(name, word)

    def pick(self, name, n):
        return self.i.get(name, 0)

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def enum(self, name, cls, members=None):
        return list(members or cls)[self.i.get(name, 0)]

    def check(self, cond, msg):
        if not cond:
            raise ConcreteViolation(msg)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, value):
        self.obs.append((label, value))

    And = staticmethod(lambda *b: all(b))
    Or = staticmethod(lambda *b: any(b))
    Not = staticmethod(lambda b: not b)
    Implies = staticmethod(lambda a, b: (not a) or bool(b))
    Iff = staticmethod(lambda a, b: bool(a) == bool(b))


def canon(v, ev=None, depth=0):
    """canonical comparable form of an observed value (ev: model evaluator)"""
    if depth > 12:
        return "<deep>"
    if ev is not None:
        done, v = ev(v)
        if done:
            return canon(v, None, depth)
    if v is None or v is True or v is False:
        return repr(v)
    if isinstance(v, enum.Enum):
        return "enum:" + v.name
    t = type(v)
    if t is int:
        return f"i{v}"
    if t is float:
        return f"f{v if v else 0.0!r}"
    if t is str:
        return "s" + v
    if isinstance(v, (list, tuple)):
        return ["L"] + [canon(x, ev, depth + 1) for x in v]
    if isinstance(v, dict):
        return ["D"] + sorted(([canon(k, ev, depth + 1), canon(x, ev, depth + 1)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return ["S"] + sorted((canon(x, ev, depth + 1) for x in v), key=repr)
    if hasattr(t, "to_dict") and t.__name__ in ("SCIMDataContainer", "Filter", "ValidationIssues"):
        return [t.__name__, canon(v.to_dict(), ev, depth + 1)]
    if t.__name__ in ("InvalidType", "MissingType"):
        return t.__name__
    if t.__name__ == "MatchResult":
        return "MatchResult:" + v.status.name
    return "<" + t.__name__ + ">"
