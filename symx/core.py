"""symx core: path context, symbolic booleans / ints / reals / enums.

One *path* of the program under test runs in one (forked) process.  Branch
conditions over symbolic values are decided by `Ctx.decide`; infeasible sides
are ruled out by z3 (or, for a constraint over one otherwise unconstrained
character, by an exact finite-domain computation which is cross-checked by z3
on the full path condition when the path ends).
"""
import time
from fractions import Fraction

import z3

from .alphabet import ALPH, IDX, FULL, mask_ranges


class EngineAbort(BaseException):
    """Stops the current path (infeasible, out of budget, unsupported)."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class PropertyViolation(BaseException):
    def __init__(self, detail, model=None):
        super().__init__(detail)
        self.detail = detail
        self.model = model


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


_MASKZ = {}


def mask_expr(z, mask):
    """z3 formula: character z (an Int codepoint expression) lies in mask."""
    rs = mask_ranges(mask)
    parts = []
    for a, b in rs:
        if a == b:
            parts.append(z == a)
        else:
            parts.append(z3.And(z >= a, z <= b))
    if not parts:
        return z3.BoolVal(False)
    if len(parts) == 1:
        return parts[0]
    return z3.Or(parts)


class CharVar:
    __slots__ = ("name", "z", "i")

    def __init__(self, name, i):
        self.name = name
        self.i = i
        self.z = z3.Int(name)


class Ctx:
    def __init__(self, prefix=(), limits=None):
        self.prefix = list(prefix)
        self.trail = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set("rlimit", 40_000_000)
        self.pending = []        # constraints not yet in the solver
        self.vars = []           # CharVar
        self.dom = []            # per CharVar domain mask
        self.related = set()     # CharVar indexes under non-unary constraints
        self.model = None
        self.inputs = []         # (name, kind, object)
        self.input_names = {}
        self.reach = set()
        self.obs = []
        self.queries = 0
        self.checks = 0
        self.fast = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretised = 0
        self.assertions = 0
        self.limits = limits or {}
        self.max_decisions = self.limits.get("max_decisions", 4000)
        self.fresh_n = 0

    # ---- variables
    def char_var(self, name, mask):
        v = CharVar(name, len(self.vars))
        self.vars.append(v)
        self.dom.append(mask)
        self.pending.append(("m", v, mask))
        return v

    def add(self, zexpr):
        self.pending.append(zexpr)
        self.model = None

    def fresh(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    # ---- solver
    def _sync(self):
        for p in self.pending:
            if isinstance(p, tuple):
                _, v, mask = p
                self.solver.add(mask_expr(v.z, mask))
            else:
                self.solver.add(p)
        self.pending = []

    def check(self, extra=None):
        """(status, model) for path condition plus extra."""
        self._sync()
        t = time.perf_counter()
        self.queries += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise EngineAbort("infeasible")
            if m is None:
                raise EngineAbort("unknown")
            self.model = m
        return self.model

    # ---- decisions
    def choose(self, n):
        """n-way structural choice."""
        if n == 1:
            return 0
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trail.append(v)
            return v
        self._budget()
        base = tuple(self.trail)
        for j in range(n - 1, 0, -1):
            self.alts.append(base + (j,))
        self.trail.append(0)
        return 0

    def _budget(self):
        if len(self.trail) > self.max_decisions:
            raise EngineAbort("max_decisions")

    def decide(self, b):
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trail.append(v)
            self.assume(b, bool(v))
            return bool(v)
        self._budget()
        ft, ff, m_t, m_f = self._feasible(b)
        if ft and ff:
            self.alts.append(tuple(self.trail) + (0,))
            self.trail.append(1)
            self.assume(b, True, m_t)
            return True
        if ft:
            self.trail.append(1)
            self.assume(b, True, m_t)
            return True
        if ff:
            self.trail.append(0)
            self.assume(b, False, m_f)
            return False
        raise EngineAbort("infeasible")

    def _feasible(self, b):
        k = b.kind
        if k == "u":
            i = b.a.i
            if i not in self.related:
                self.fast += 1
                d = self.dom[i]
                return bool(d & b.b), bool(d & ~b.b), None, None
        elif k == "c":
            if not any(v.i in self.related for v, _ in b.a):
                self.fast += 1
                ft = all(self.dom[v.i] & m for v, m in b.a)
                ff = any(self.dom[v.i] & ~m for v, m in b.a)
                return (ft, ff, None, None) if not b.b else (ff, ft, None, None)
        e = b.z()
        e_s = z3.simplify(e)
        if z3.is_true(e_s):
            return True, False, self.model, None
        if z3.is_false(e_s):
            return False, True, None, self.model
        m = self.get_model()
        val = m.eval(e, model_completion=True)
        if z3.is_true(val):
            r, m2 = self.check(z3.Not(e))
            return True, r != z3.unsat, m, m2
        r, m2 = self.check(e)
        return r != z3.unsat, True, m2, m

    def assume(self, b, val, model=None):
        """Adds b == val to the path condition (known feasible)."""
        k = b.kind
        if k == "u":
            m = b.b if val else (FULL & ~b.b)
            self.pending.append(("m", b.a, m))
            self.dom[b.a.i] &= m
            if b.a.i in self.related:
                self.model = model
            else:
                self.model = None
            return
        if k == "c":
            pos = val != b.b
            if pos or len(b.a) == 1:
                for v, m in b.a:
                    m = m if pos else (FULL & ~m)
                    self.pending.append(("m", v, m))
                    self.dom[v.i] &= m
                self.model = model
                return
            self.related.update(v.i for v, _ in b.a)
            e = b.z()
            self.pending.append(e if val else z3.Not(e))
            self.model = model
            return
        self.related.update(b.b)
        e = b.z()
        self.pending.append(e if val else z3.Not(e))
        self.model = model


def is_symbolic(x):
    return isinstance_proxy(x)


class Proxy:
    __slots__ = ()


def isinstance_proxy(x):
    return issubclass(type(x), Proxy)


_FALSE = ("const", False)


class SymBool(Proxy):
    """kind 'u': a=CharVar, b=mask;  'c': a=[(CharVar, mask)], b=negated;
    'z': a=z3 expr, b=frozenset of CharVar indexes occurring in it."""

    __slots__ = ("kind", "a", "b", "_z")

    def __init__(self, kind, a, b):
        self.kind = kind
        self.a = a
        self.b = b
        self._z = None

    def z(self):
        if self._z is None:
            if self.kind == "u":
                self._z = mask_expr(self.a.z, self.b)
            elif self.kind == "c":
                e = z3.And([mask_expr(v.z, m) for v, m in self.a])
                self._z = z3.Not(e) if self.b else e
            else:
                self._z = self.a
        return self._z

    def vars(self):
        if self.kind == "u":
            return frozenset((self.a.i,))
        if self.kind == "c":
            return frozenset(v.i for v, _ in self.a)
        return self.b

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.decide(self)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return zbool(self.z() == o.z(), self.vars() | o.vars())
        if o is True or o is False:
            return self if o else bnot(self)
        if isinstance(o, (int, float)):
            if type(o) in (SymInt, SymReal):
                return SymInt(z3.If(self.z(), 1, 0), self.vars()) == o
            if o == 1:
                return self
            if o == 0:
                return bnot(self)
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def as_int(self):
        return SymInt(z3.If(self.z(), z3.IntVal(1), z3.IntVal(0)), self.vars())

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __and__(self, o):
        if isinstance(o, bool):
            return band(self, o)
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return bor(self, o)
        return int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return bnot(self == o)
        return int(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(self)

    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    def __rmul__(self, o):
        return o * int(self)

    def __neg__(self):
        return -int(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def zbool(e, vars_=frozenset()):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool("z", e, vars_)


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if type(b) is not SymBool:
        return not b
    if b.kind == "u":
        return ubool(b.a, FULL & ~b.b)
    if b.kind == "c":
        return SymBool("c", b.a, not b.b)
    return SymBool("z", z3.Not(b.a), b.b)


def ubool(var, mask):
    d = CTX.dom[var.i]
    m = d & mask
    if m == d:
        return True
    if not m:
        return False
    return SymBool("u", var, m)


def band(*bs):
    conj = {}
    order = []
    rest = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if type(b) is not SymBool:
            if not b:
                return False
            continue
        items = None
        if b.kind == "u":
            items = [(b.a, b.b)]
        elif b.kind == "c" and not b.b:
            items = b.a
        if items is not None:
            for v, m in items:
                if v.i in conj:
                    conj[v.i] = (v, conj[v.i][1] & m)
                    if not conj[v.i][1] & CTX.dom[v.i]:
                        return False
                else:
                    conj[v.i] = (v, m)
                    order.append(v.i)
        else:
            rest.append(b)
    if not rest:
        if not order:
            return True
        if len(order) == 1:
            return ubool(*conj[order[0]])
        return SymBool("c", tuple(conj[i] for i in order), False)
    if len(rest) == 1 and not order:
        return rest[0]
    es = [mask_expr(conj[i][0].z, conj[i][1]) for i in order] + [r.z() for r in rest]
    vs = frozenset(order).union(*[r.vars() for r in rest])
    return zbool(z3.And(es), vs)


def bor(*bs):
    items = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        if type(b) is not SymBool:
            if b:
                return True
            continue
        items.append(b)
    if not items:
        return False
    if len(items) == 1:
        return items[0]
    if all(b.kind == "u" for b in items) and len({b.a.i for b in items}) == 1:
        m = 0
        for b in items:
            m |= b.b
        return ubool(items[0].a, m)
    r = band(*[bnot(b) for b in items])
    return bnot(r)


def _num(x):
    """(z3 arithmetic expr, is_real, vars) of a python/symbolic number, or None."""
    t = type(x)
    if t is SymInt:
        return x.e, False, x.v
    if t is SymReal:
        return x.e, True, x.v
    if t is SymBool:
        return z3.If(x.z(), z3.IntVal(1), z3.IntVal(0)), False, x.vars()
    if t is bool or t is int or (isinstance(x, int) and not isinstance_proxy(x)):
        return z3.IntVal(int(x)), False, frozenset()
    if isinstance(x, float) and not isinstance_proxy(x):
        if x != x or x in (float("inf"), float("-inf")):
            return "special", x, None
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), True, frozenset()
    return None


def _cmp(a, o, op):
    n2 = _num(o)
    if n2 is None:
        return NotImplemented
    if type(n2[0]) is str:
        x = n2[1]
        if x != x:
            return op == "ne"
        return {
            "eq": False,
            "ne": True,
            "lt": x > 0,
            "le": x > 0,
            "gt": x < 0,
            "ge": x < 0,
        }[op]
    e1, r1, v1 = _num(a)
    e2, r2, v2 = n2
    if r1 and not r2:
        e2 = z3.ToReal(e2)
    elif r2 and not r1:
        e1 = z3.ToReal(e1)
    e = {
        "eq": lambda: e1 == e2,
        "ne": lambda: e1 != e2,
        "lt": lambda: e1 < e2,
        "le": lambda: e1 <= e2,
        "gt": lambda: e1 > e2,
        "ge": lambda: e1 >= e2,
    }[op]()
    return zbool(e, v1 | v2)


def _arith(a, o, op, swap=False):
    n2 = _num(o)
    if n2 is None:
        return NotImplemented
    if type(n2[0]) is str:
        # concretise: rare
        x, y = realize(a), o
        if swap:
            x, y = y, x
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                "//": lambda: x // y, "%": lambda: x % y}[op]()
    e1, r1, v1 = _num(a)
    e2, r2, v2 = n2
    if swap:
        e1, r1, v1, e2, r2, v2 = e2, r2, v2, e1, r1, v1
    v = v1 | v2
    if op in ("//", "%") and not (r1 or r2):
        if bool(zbool(e2 == 0, v2)):
            raise ZeroDivisionError("integer division or modulo by zero")
        # python floor semantics
        if bool(zbool(e2 > 0, v2)):
            q = e1 / e2
            m = e1 % e2
        else:
            q = (-e1) / (-e2)
            m = -((-e1) % (-e2))
        return SymInt(z3.simplify(q if op == "//" else m), v)
    if op == "/" or op in ("//", "%"):
        x, y = realize(a), realize(o)
        if swap:
            x, y = y, x
        return x / y if op == "/" else (x // y if op == "//" else x % y)
    if r1 != r2:
        e1 = z3.ToReal(e1) if not r1 else e1
        e2 = z3.ToReal(e2) if not r2 else e2
    e = z3.simplify({"+": lambda: e1 + e2, "-": lambda: e1 - e2, "*": lambda: e1 * e2}[op]())
    if r1 or r2:
        return SymReal(e, v)
    return mkint(e, v)


def mkint(e, v=frozenset()):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, v)


class _SymNum(Proxy):
    __slots__ = ("e", "v")

    def __init__(self, e, v=frozenset()):
        self.e = e
        self.v = v

    def __eq__(self, o):
        return _cmp(self, o, "eq")

    def __ne__(self, o):
        return _cmp(self, o, "ne")

    def __lt__(self, o):
        return _cmp(self, o, "lt")

    def __le__(self, o):
        return _cmp(self, o, "le")

    def __gt__(self, o):
        return _cmp(self, o, "gt")

    def __ge__(self, o):
        return _cmp(self, o, "ge")

    def __add__(self, o):
        return _arith(self, o, "+")

    def __radd__(self, o):
        return _arith(self, o, "+", True)

    def __sub__(self, o):
        return _arith(self, o, "-")

    def __rsub__(self, o):
        return _arith(self, o, "-", True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * realize(self)
        return _arith(self, o, "*")

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * realize(self)
        return _arith(self, o, "*", True)

    def __floordiv__(self, o):
        return _arith(self, o, "//")

    def __rfloordiv__(self, o):
        return _arith(self, o, "//", True)

    def __mod__(self, o):
        return _arith(self, o, "%")

    def __rmod__(self, o):
        return _arith(self, o, "%", True)

    def __truediv__(self, o):
        return _arith(self, o, "/")

    def __rtruediv__(self, o):
        return _arith(self, o, "/", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return type(self)(z3.simplify(-self.e), self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __hash__(self):
        return hash(realize(self))

    def __repr__(self):
        return repr(realize(self))

    def __str__(self):
        return str(realize(self))

    def __format__(self, spec):
        return format(realize(self), spec)

    def __bool__(self):
        r = _cmp(self, 0, "ne")
        return bool(r)

    def __float__(self):
        return float(realize(self))

    def __int__(self):
        return int(realize(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return realize(self)

    def __and__(self, o):
        return realize(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return realize(self) | o

    __ror__ = __or__

    def __pow__(self, o):
        return realize(self) ** o

    def __rpow__(self, o):
        return o ** realize(self)

    def bit_length(self):
        return realize(self).bit_length()

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    @property
    def real(self):
        return self


class SymReal(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def is_integer(self):
        return zbool(z3.IsInt(self.e), self.v)

    def trunc(self):
        e = self.e
        return mkint(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)), self.v)

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return mkint(z3.ToInt(self.e), self.v)

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e), self.v)

    def __round__(self, n=None):
        return round(realize(self), n)


def num_value(zv):
    if z3.is_int_value(zv):
        return zv.as_long()
    if z3.is_rational_value(zv):
        return float(Fraction(zv.numerator_as_long(), zv.denominator_as_long()))
    if z3.is_algebraic_value(zv):
        raise EngineAbort("unsupported", "algebraic value")
    raise EngineAbort("unsupported", f"value {zv}")


def realize(x):
    """Concrete python value of a symbolic number/bool/string, forking over every
    feasible value (complete)."""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt or t is SymReal:
        c = CTX
        n = 0
        while True:
            k = len(c.trail)
            if k < len(c.prefix):
                v = c.prefix[k][1]
            else:
                m = c.get_model()
                v = num_value(m.eval(x.e, model_completion=True))
            # the tried value is part of the trail: re-executions try the same one
            c.trail.append(("v", v))
            b = zbool(x.e == _zval(v, t), x.v)
            if b is True or bool(b):
                return v
            n += 1
            c.concretised += 1
            if n > c.limits.get("max_values", 400):
                raise EngineAbort("concretise")
    if issubclass(t, Proxy):
        return x._realize()
    return x


def _zval(v, t):
    if t is SymInt:
        return z3.IntVal(v)
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")
