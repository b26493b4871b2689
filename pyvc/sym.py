"""Symbolic proxies over z3 terms and the path explorer (VC generator).

The *real* CPython code of /repo is executed on proxy values.  Each time the
interpreter asks a symbolic condition for its truth value the path forks; all
feasible paths are enumerated (depth-first, by re-execution of the decision
prefix).  `check` asks the solver whether  path-condition => postcondition.
"""
import builtins
import datetime as _dt
import sys
import time as _time
from fractions import Fraction

import z3

from .ctx import (misfit, BaseCtx, PathAbort, Unsupported, ContractViolation, AssumeFailed,
                  dt_to_us, us_to_dt, DT_LO, DT_HI, US)

_int = builtins.int
_float = builtins.float
_bool = builtins.bool

MODE = {"ctx": None}


def cur():
    c = MODE["ctx"]
    if c is None:
        raise RuntimeError("symbolic value used outside of an exploration")
    return c


DAY = 86400 * 10**6
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


# ------------------------------------------------------------------ booleans

class SBool:
    _pyvc_symbolic = True
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return _bool

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~ on a symbolic bool")

    def __eq__(self, o):
        if isinstance(o, (_bool, SBool)):
            return mkbool(self.t == zbool(o))
        if isinstance(o, (_int, _float)):
            return as_num(self) == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(_bool(self))

    def __int__(self):
        return _int(_bool(self))
    __index__ = __int__

    def _num(self):
        return SNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), True)

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o

    def __repr__(self):
        return "<symbool>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symbool>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def zbool(x):
    if type(x) is SBool:
        return x.t
    return z3.BoolVal(_bool(x))


def sand(xs):
    return mkbool(z3.And([zbool(x) for x in xs]))


def sor(xs):
    return mkbool(z3.Or([zbool(x) for x in xs]))


def snot(x):
    if type(x) is SBool:
        return mkbool(z3.Not(x.t))
    return not x


def siff(a, b):
    return mkbool(zbool(a) == zbool(b))


def site(c, a, b):
    if type(c) is not SBool:
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (_bool, SBool)) and isinstance(b, (_bool, SBool)):
        return mkbool(z3.If(c.t, zbool(a), zbool(b)))
    if isinstance(a, _dt.datetime) and isinstance(b, _dt.datetime):
        return SDatetime(z3.If(c.t, dt_term(a), dt_term(b)))
    if isinstance(a, _dt.timedelta) and isinstance(b, _dt.timedelta):
        return STimedelta(z3.If(c.t, td_term(a), td_term(b)))
    na, nb = as_num(a), as_num(b)
    if na is not None and nb is not None:
        if na.i and nb.i:
            return mknum(z3.If(c.t, na.t, nb.t), True)
        return SNum(z3.If(c.t, na.real(), nb.real()), False)
    return a if c else b


# ------------------------------------------------------------------- numbers

class SNum:
    "int (i=True) or float-as-real (i=False)"
    _pyvc_symbolic = True
    __slots__ = ("t", "i", "us")

    def __init__(self, t, i, us=None):
        self.t = t
        self.i = i
        self.us = us      # for timestamps: exact microseconds (Int term)

    @property
    def __class__(self):
        return _int if self.i else _float

    def real(self):
        return z3.ToReal(self.t) if self.i else self.t

    # --- arithmetic
    def _bin(self, o, f):
        o = as_num(o)
        if o is None:
            return NotImplemented
        if self.i and o.i:
            return mknum(f(self.t, o.t), True)
        return mknum(f(self.real(), o.real()), False)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta.of(o) * self
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta.of(o) * self
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mknum(-self.t, self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.t >= 0, self.t, -self.t), self.i)

    def __truediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        if cur().branch(o.t == 0):
            raise ZeroDivisionError("division by zero")
        return mknum(self.real() / o.real(), False)

    def __rtruediv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        if self.i and o.i:
            return int_floordiv(self, o)
        if cur().branch(o.t == 0):
            raise ZeroDivisionError("float floor division by zero")
        return mknum(z3.ToReal(z3.ToInt(self.real() / o.real())), False)

    def __rfloordiv__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        q = self.__floordiv__(o)
        if self.i and o.i:
            c = o.const()
            if c is not None and c > 0:
                return mknum(zmod(self.t, c), True)
        return self - q * o

    def __rmod__(self, o):
        o = as_num(o)
        if o is None:
            return NotImplemented
        return o.__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o):
        if isinstance(o, _int) and type(o) is _int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("** with symbolic operand")

    def const(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        return None

    # --- comparison
    def _cmp(self, o, f, notimpl=NotImplemented):
        if isinstance(o, SNum) or type(o) is SNum:
            if self.us is not None and o.us is not None:
                return mkbool(f(self.us, o.us))
        o = as_num(o)
        if o is None:
            return notimpl
        if self.i and o.i:
            return mkbool(f(self.t, o.t))
        return mkbool(f(self.real(), o.real()))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        return hash(self.__index__()) if self.i else hash(self.concrete())

    def concrete(self):
        return cur().concretise(self)

    def __index__(self):
        if not self.i:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concrete()

    def __int__(self):
        return _int(trunc_num(self).concrete())

    def __float__(self):
        # a C function needs a machine float
        return _float(self.concrete())

    def __trunc__(self):
        return trunc_num(self)

    def __floor__(self):
        return self if self.i else mknum(z3.ToInt(self.t), True)

    def __ceil__(self):
        return self if self.i else mknum(-z3.ToInt(-self.t), True)

    def __round__(self, nd=None):
        if self.i:
            return self
        if nd is None:
            return mknum(round_half_even(self.t), True)
        raise Unsupported("round(x, n) of a symbolic real")

    def is_integer(self):
        if self.i:
            return True
        return mkbool(z3.IsInt(self.t))

    def __repr__(self):
        return "<symnum>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symnum>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        _pickled[id(self)] = self
        return _unpickle, (id(self),)


_pickled = {}           # pickling keeps the identity of a symbolic value (within the process that explores the paths)


def _unpickle(key):
    return _pickled[key]


def round_half_even(x):
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def zdiv(t, c):
    return cur().divmod_const(t, c)[0]


def zmod(t, c):
    return cur().divmod_const(t, c)[1]


def trunc_num(n):
    if n.i:
        return n
    t = n.t
    return SNum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), True)


def int_floordiv(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if c > 0:
            return mknum(zdiv(a.t, c), True)
        return mknum(zdiv(-a.t, -c), True)
    if cur().branch(b.t == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if cur().branch(b.t > 0):
        return mknum(a.t / b.t, True)
    return mknum((-a.t) / (-b.t), True)


def mknum(t, i, us=None):
    if i:
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
    return SNum(t, i, us)


def as_num(x):
    tx = type(x)
    if tx is SNum:
        return x
    if tx is SBool:
        return x._num()
    if tx is _bool or isinstance(x, _int) and tx is not SNum and not getattr(tx, "_pyvc_symbolic", False):
        return SNum(z3.IntVal(_int(x)), True)
    if isinstance(x, _float):
        if x != x or x in (_float("inf"), -_float("inf")):
            raise Unsupported("inf/nan with symbolic numbers")
        fr = Fraction(x)
        return SNum(z3.RealVal(f"{fr.numerator}/{fr.denominator}"), False)
    if isinstance(x, Fraction):
        return SNum(z3.RealVal(f"{x.numerator}/{x.denominator}"), False)
    return None


# ----------------------------------------------------------- timedelta

def td_term(x):
    if type(x) is STimedelta:
        return x.t
    return z3.IntVal(x // US)


class STimedelta:
    _pyvc_symbolic = True
    __slots__ = ("t",)

    min = _dt.timedelta.min
    max = _dt.timedelta.max
    resolution = _dt.timedelta.resolution

    def __init__(self, t):
        self.t = z3.simplify(t)

    @staticmethod
    def of(x):
        return x if type(x) is STimedelta else STimedelta(td_term(x))

    @property
    def __class__(self):
        return _dt.timedelta

    @property
    def days(self):
        return mknum(zdiv(self.t, DAY), True)

    @property
    def seconds(self):
        return mknum(zdiv(zmod(self.t, DAY), 10**6), True)

    @property
    def microseconds(self):
        return mknum(zmod(self.t, 10**6), True)

    def total_seconds(self):
        return SNum(z3.ToReal(self.t) / z3.RealVal(10**6), False, us=self.t)

    def __add__(self, o):
        if type(o) is SDatetime:
            return SDatetime(o.t + self.t, o.tzinfo)
        if isinstance(o, _dt.timedelta):
            return STimedelta(self.t + td_term(o))
        if isinstance(o, _dt.datetime):
            return SDatetime(dt_term(o) + self.t)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta(self.t - td_term(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta(td_term(o) - self.t)
        if isinstance(o, _dt.datetime):
            return SDatetime(dt_term(o) - self.t)
        return NotImplemented

    def __neg__(self):
        return STimedelta(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return STimedelta(z3.If(self.t >= 0, self.t, -self.t))

    def __mul__(self, o):
        n = as_num(o)
        if n is None:
            return NotImplemented
        if n.i:
            return STimedelta(self.t * n.t)
        return STimedelta(round_half_even(z3.ToReal(self.t) * n.t))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SNum(self.t, True) // SNum(td_term(o), True)
        n = as_num(o)
        if n is None or not n.i:
            return NotImplemented
        r = as_num(SNum(self.t, True) // n)
        return STimedelta(r.t)

    def __rfloordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta.of(o) // self
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SNum(self.t, True) / SNum(td_term(o), True)
        n = as_num(o)
        if n is None:
            return NotImplemented
        q = as_num(SNum(self.t, True) / n)
        return STimedelta(round_half_even(q.t))

    def __rtruediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return STimedelta.of(o) / self
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, _dt.timedelta):
            r = as_num(SNum(self.t, True) % SNum(td_term(o), True))
            return STimedelta(r.t)
        return NotImplemented

    def __rmod__(self, o):
        return STimedelta.of(o) % self

    def _cmp(self, o, f, notimpl=NotImplemented):
        if not isinstance(o, _dt.timedelta):
            return notimpl
        return mkbool(f(self.t, td_term(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        return 0x7d

    def __repr__(self):
        return "<symtimedelta>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symtimedelta>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ----------------------------------------------------------- datetime

EPOCH_ORD = _dt.date(1970, 1, 1).toordinal()


def dt_term(x):
    if type(x) is SDatetime:
        return x.t
    if x.tzinfo is not None:
        raise Unsupported("timezone-aware datetimes")
    return z3.IntVal(dt_to_us(x))


def leap_term(y):
    return z3.simplify(z3.And(zmod(y, 4) == 0, z3.Or(zmod(y, 100) != 0, zmod(y, 400) == 0)))


def days_before_year(y):
    "days from 1970-01-01 to y-01-01"
    p = y - 1
    return 365 * p + zdiv(p, 4) - zdiv(p, 100) + zdiv(p, 400) + 1 - EPOCH_ORD


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def days_before_month(m, leap):
    "m is an Int term 1..12"
    base = z3.IntVal(_CUM[11])
    for k in range(10, -1, -1):
        base = z3.If(m <= k + 1, z3.IntVal(_CUM[k]), base)
    return base + z3.If(z3.And(leap, m > 2), 1, 0)


def days_in_month(m, leap):
    return z3.If(m == 2, z3.If(leap, 29, 28),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


class SDate:
    _pyvc_symbolic = True
    __slots__ = ("days", "_f")

    def __init__(self, days):
        self.days = z3.simplify(days)
        self._f = None

    @property
    def __class__(self):
        return _dt.date

    def _fields(self):
        if self._f is None:
            self._f = cur().civil(self.days)
        return self._f

    @property
    def year(self):
        return mknum(self._fields()[0], True)

    @property
    def month(self):
        return mknum(self._fields()[1], True)

    @property
    def day(self):
        return mknum(self._fields()[2], True)

    def weekday(self):
        return mknum(zmod(self.days + 3, 7), True)

    def isoweekday(self):
        return mknum(zmod(self.days + 3, 7) + 1, True)

    def toordinal(self):
        return mknum(self.days + EPOCH_ORD, True)

    def _cmp(self, o, f, notimpl=NotImplemented):
        if isinstance(o, _dt.datetime):
            return notimpl
        if type(o) is SDate:
            return mkbool(f(self.days, o.days))
        if isinstance(o, _dt.date):
            return mkbool(f(self.days, z3.IntVal(o.toordinal() - EPOCH_ORD)))
        return notimpl

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDate(self.days + zdiv(td_term(o), DAY))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SDate(self.days - zdiv(td_term(o), DAY))
        if type(o) is SDate:
            return STimedelta((self.days - o.days) * DAY)
        if isinstance(o, _dt.date):
            return STimedelta((self.days - (o.toordinal() - EPOCH_ORD)) * DAY)
        return NotImplemented

    def replace(self, year=None, month=None, day=None):
        d = civil_datetime(self.year if year is None else year, self.month if month is None else month,
                           self.day if day is None else day)
        return SDate(zdiv(dt_term(d), DAY))

    def __hash__(self):
        return 0xda


class SDatetime:
    "naive datetime; t = microseconds since 1970-01-01 (Int term)"
    _pyvc_symbolic = True
    __slots__ = ("t", "tzinfo", "_f", "_d", "_t", "_o")

    min = _dt.datetime.min
    max = _dt.datetime.max
    resolution = _dt.datetime.resolution
    fold = 0

    def __init__(self, t, tzinfo=None):
        self.t = z3.simplify(t)
        self.tzinfo = tzinfo
        self._f = None
        self._d = None
        self._t = None
        self._o = None

    @property
    def __class__(self):
        return _dt.datetime

    # fields
    def _days(self):
        if self._d is None:
            self._d = zdiv(self.t, DAY)
        return self._d

    def _tod(self):
        if self._t is None:
            self._t = zmod(self.t, DAY)
        return self._t

    def _fields(self):
        if self._f is None:
            if self._o is not None and self._o[0]._f is not None:
                self._shift()
            else:
                self._f = cur().civil(self._days())
        return self._f

    def _shift(self):
        "calendar fields of (base + delta), |delta| <= 1 day, from the fields of base"
        c = cur()
        base, delta = self._o
        y, m, d = base._f
        tod, days = base._tod(), base._days()
        leap = leap_term(y)
        if c.branch(z3.And(tod + delta >= 0, tod + delta < DAY)):
            self._f, self._d, self._t = (y, m, d), days, tod + delta
        elif delta < 0:
            self._d, self._t = days - 1, tod + delta + DAY
            if c.branch(d > 1):
                self._f = (y, m, d - 1)
            elif c.branch(m > 1):
                self._f = (y, z3.simplify(m - 1), days_in_month(z3.simplify(m - 1), leap))
            else:
                self._f = (y - 1, z3.IntVal(12), z3.IntVal(31))
        else:
            self._d, self._t = days + 1, tod + delta - DAY
            if c.branch(d < days_in_month(m, leap)):
                self._f = (y, m, d + 1)
            elif c.branch(m < 12):
                self._f = (y, z3.simplify(m + 1), z3.IntVal(1))
            else:
                self._f = (y + 1, z3.IntVal(1), z3.IntVal(1))

    @property
    def year(self):
        return mknum(self._fields()[0], True)

    @property
    def month(self):
        return mknum(self._fields()[1], True)

    @property
    def day(self):
        return mknum(self._fields()[2], True)

    @property
    def hour(self):
        return mknum(zdiv(self._tod(), 3600 * 10**6), True)

    @property
    def minute(self):
        return mknum(zdiv(zmod(self._tod(), 3600 * 10**6), 60 * 10**6), True)

    @property
    def second(self):
        return mknum(zdiv(zmod(zmod(self._tod(), 3600 * 10**6), 60 * 10**6), 10**6), True)

    @property
    def microsecond(self):
        return mknum(zmod(zmod(zmod(self._tod(), 3600 * 10**6), 60 * 10**6), 10**6), True)

    def weekday(self):
        return mknum(zmod(self._days() + 3, 7), True)

    def isoweekday(self):
        return mknum(zmod(self._days() + 3, 7) + 1, True)

    def toordinal(self):
        return mknum(self._days() + EPOCH_ORD, True)

    def date(self):
        return SDate(self._days())

    def time(self):
        raise Unsupported("datetime.time() of a symbolic datetime")

    def timetuple(self):
        raise Unsupported("timetuple of a symbolic datetime")

    def timestamp(self):
        return SNum(z3.ToReal(self.t) / z3.RealVal(10**6), False, us=self.t)

    def utcoffset(self):
        return None

    def dst(self):
        return None

    def tzname(self):
        return None

    def astimezone(self, tz=None):
        raise Unsupported("timezones")

    def isoformat(self, *a, **k):
        return "<symdatetime>"

    def strftime(self, f):
        raise Unsupported("strftime of a symbolic datetime")

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=None, fold=0):
        if tzinfo is not None:
            raise Unsupported("timezones")
        if year is None and month is None and day is None:
            days = self._days()
        else:
            d = civil_datetime(self.year if year is None else year,
                               self.month if month is None else month,
                               self.day if day is None else day)
            days = d._d
        fields = None
        if year is None and month is None and day is None:
            fields = self._f
        else:
            fields = d._f
        tod = z3.IntVal(0)
        for val, own, lim, mul in ((hour, self.hour, 24, 3600 * 10**6), (minute, self.minute, 60, 60 * 10**6),
                                   (second, self.second, 60, 10**6), (microsecond, self.microsecond, 10**6, 1)):
            if val is None:
                n = as_num(own).t
            else:
                n = as_num(val)
                if n is None or not n.i:
                    raise TypeError("integer required")
                n = n.t
                if cur().branch(z3.Or(n < 0, n >= lim)):
                    raise ValueError("field must be in range")
            tod = tod + n * mul
        r = SDatetime(days * DAY + tod)
        r._f, r._d, r._t = fields, days, tod
        return r

    # arithmetic
    def _plus(self, d):
        r = SDatetime(self.t + d)
        d = z3.simplify(d)
        if z3.is_int_value(d) and abs(d.as_long()) <= DAY and self._f is not None:
            r._o = (self, d.as_long())
        return r

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return self._plus(td_term(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return self._plus(-td_term(o))
        if isinstance(o, _dt.datetime):
            return STimedelta(self.t - dt_term(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return STimedelta(dt_term(o) - self.t)
        return NotImplemented

    def _cmp(self, o, f, notimpl=NotImplemented):
        if not isinstance(o, _dt.datetime):
            return notimpl
        return mkbool(f(self.t, dt_term(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0xd7

    def __repr__(self):
        return "<symdatetime>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symdatetime>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        _pickled[id(self)] = self
        return _unpickle, (id(self),)


def civil_datetime(year, month, day, hour=0, minute=0, second=0, microsecond=0):
    "datetime(...) constructor with symbolic parts"
    c = cur()
    y, m, d = as_num(year), as_num(month), as_num(day)
    for n in (y, m, d):
        if n is None or not n.i:
            raise TypeError("an integer is required")
    if c.branch(z3.Or(y.t < 1, y.t > 9999)):
        raise ValueError("year is out of range")
    if c.branch(z3.Or(m.t < 1, m.t > 12)):
        raise ValueError("month must be in 1..12")
    leap = leap_term(y.t)
    if c.branch(z3.Or(d.t < 1, d.t > days_in_month(m.t, leap))):
        raise ValueError("day is out of range for month")
    days = days_before_year(y.t) + days_before_month(m.t, leap) + d.t - 1
    tod = z3.IntVal(0)
    for val, lim, mul in ((hour, 24, 3600 * 10**6), (minute, 60, 60 * 10**6), (second, 60, 10**6), (microsecond, 10**6, 1)):
        n = as_num(val)
        if n is None or not n.i:
            raise TypeError("an integer is required")
        if c.branch(z3.Or(n.t < 0, n.t >= lim)):
            raise ValueError("field out of range")
        tod = tod + n.t * mul
    r = SDatetime(days * DAY + tod)
    r._f = (y.t, m.t, d.t)
    r._d = days
    r._t = tod
    return r


def is_sym(x):
    return getattr(type(x), "_pyvc_symbolic", False)


# ----------------------------------------------------------- context / explorer

def call_site():
    "code location (outside of pyvc) that asked for a truth value"
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__", "").startswith("pyvc."):
        f = f.f_back
    return None if f is None else (f.f_code.co_filename, f.f_lineno)


def split_const(t):
    "t  ->  (t without its additive constant, constant)"
    if z3.is_int_value(t):
        return None, t.as_long()
    if z3.is_add(t):
        k = 0
        rest = []
        for a in t.children():
            if z3.is_int_value(a):
                k += a.as_long()
            else:
                rest.append(a)
        if k:
            return (rest[0] if len(rest) == 1 else z3.simplify(z3.Sum(rest))), k
    return t, 0


def split_multiple(t, c):
    "t -> (q, rest) with t = c*q + rest, taking out the monomials divisible by c"
    ch = t.children() if z3.is_add(t) else [t]
    q, rest = [], []
    for a in ch:
        co = None
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            co = a.arg(0).as_long()
        if co is not None and co % c == 0:
            q.append(z3.IntVal(co // c) * a.arg(1))
        else:
            rest.append(a)
    if not q:
        return None, t
    return z3.Sum(q), (z3.Sum(rest) if rest else z3.IntVal(0))


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix, explorer):
        super().__init__()
        self.prefix = prefix
        self.pos = 0
        self.ex = explorer
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.timeout_ms)
        self.pc = []
        self.decisions = []
        self.vars = {}       # name -> (term, kind)
        self.choices = {}
        self.flag = None     # Unsupported reason swallowed by code
        self.civil_cache = {}
        self.div_cache = {}
        self.fresh_n = 0
        self.trace = []
        self.solver_unknown = False

    # -- plumbing
    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def feasible(self, t):
        t0 = _time.time()
        r = self.solver.check(t)
        self.ex.solver_s += _time.time() - t0
        self.ex.queries += 1
        if r == z3.unknown:
            self.ex.unknown_feas += 1
        return r != z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        h = call_site()
        if self.pos < len(self.prefix):
            d, h0 = self.prefix[self.pos]
            if h0 != h:
                self._unsup("re-execution was not deterministic")
            self.pos += 1
            self.decisions.append((d, h))
            self.add(t if d else z3.Not(t))
            return d
        self.ex.check_budget(self)
        ft = self.feasible(t)
        if not ft:
            # implied: record so that re-execution stays aligned
            self._decide(False, h)
            self.add(z3.Not(t))
            return False
        ff = self.feasible(z3.Not(t))
        if ff:
            self.ex.push(self.decisions + [(False, h)])
        self._decide(True, h)
        self.add(t)
        return True

    def _decide(self, d, v=None):
        self.decisions.append((d, v))
        self.pos += 1
        if len(self.decisions) > self.ex.max_depth:
            self._unsup("path too deep")

    def _unsup(self, why):
        self.flag = why
        raise Unsupported(why)

    def choose(self, n):
        "pure nondeterministic choice, forks"
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos][0]
            self.pos += 1
            self.decisions.append((d, None))
            return d
        for k in range(n - 1, 0, -1):
            self.ex.push(self.decisions + [(k, None)])
        self._decide(0)
        return 0

    def concretise(self, num):
        c = num.const()
        if c is not None:
            return c if isinstance(c, _int) else _float(c)
        tries = 0
        while True:
            if self.pos < len(self.prefix):
                d, v = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append((d, v))
                val = z3.IntVal(v) if num.i else z3.RealVal(str(v))
                self.add(num.t == val if d else num.t != val)
                if d:
                    return v if num.i else _float(Fraction(v))
                tries += 1
                continue
            tries += 1
            if tries > self.ex.concretise_limit or not num.i:
                self._unsup("cannot enumerate the values of a symbolic number needed by a C function")
            t0 = _time.time()
            r = self.solver.check()
            self.ex.solver_s += _time.time() - t0
            self.ex.queries += 1
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self._unsup("solver unknown while concretising")
            v = self.solver.model().eval(num.t, model_completion=True).as_long()
            if self.feasible(num.t != v):
                self.ex.push(self.decisions + [(False, v)])
            self._decide(True, v)
            self.add(num.t == v)
            return v

    def divmod_const(self, t, c):
        """quotient and remainder of an Int term by a positive constant, by fresh variables
        (t = c*q + r, 0 <= r < c); constants and multiples of c are taken out first"""
        key = z3.simplify(t)
        if z3.is_int_value(key):
            v = key.as_long()
            return z3.IntVal(v // c), z3.IntVal(v % c)
        if c == 1:
            return key, z3.IntVal(0)
        mq, rest = split_multiple(key, c)
        if mq is not None:
            q, r = self.divmod_const(rest, c)
            return z3.simplify(mq + q), r
        base, k = split_const(key)
        if k:
            q, r = self.divmod_const(base, c)
            a, k = divmod(k, c)
            if k == 0:
                return q + a, r
            up = r + k >= c
            return q + a + z3.If(up, 1, 0), r + k - z3.If(up, c, 0)
        ck = (key.get_id(), c)
        hit = self.div_cache.get(ck)
        if hit is None:
            n = len(self.div_cache)
            q, r = z3.Int(f"!q{n}"), z3.Int(f"!r{n}")
            self.add(z3.And(key == c * q + r, r >= 0, r < c))
            hit = self.div_cache[ck] = (q, r, key)
        return hit[0], hit[1]

    def civil(self, days):
        key = z3.simplify(days)
        kid = key.get_id()
        hit = self.civil_cache.get(kid)
        if hit is not None:
            return hit[0]
        n = len(self.civil_cache)
        if z3.is_int_value(key):
            d = _dt.date.fromordinal(key.as_long() + EPOCH_ORD)
            r = (z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day))
        else:
            y, m, d = z3.Int(f"!y{n}"), z3.Int(f"!m{n}"), z3.Int(f"!d{n}")
            leap = leap_term(y)
            dby = days_before_year(y)
            self.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in_month(m, leap),
                            key == dby + days_before_month(m, leap) + d - 1))
            r = (y, m, d)
        self.civil_cache[kid] = (r, key)
        return r

    # -- inputs
    def _named(self, name, sort, kind):
        t = z3.Int(name) if sort == "int" else (z3.Bool(name) if sort == "bool" else z3.Real(name))
        self.vars[name] = (t, kind)
        return t

    def datetime(self, name, lo=DT_LO, hi=DT_HI):
        t = self._named(self.uniq(name), "int", "dt")
        self.add(z3.And(t >= dt_term(lo), t <= dt_term(hi)))
        return SDatetime(t)

    def datetime_civil(self, name, ylo=1971, yhi=2199):
        """a datetime given by its calendar fields: month and leap-year flag are split into cases"""
        name = self.uniq(name)
        y, d, tod = z3.Int(f"{name}.y"), z3.Int(f"{name}.d"), z3.Int(f"{name}.tod")
        m = 1 + self.choose(12)
        self.add(z3.And(y >= ylo, y <= yhi, tod >= 0, tod < DAY))
        leap = leap_term(y)
        il = self.choose(2)
        self.add(leap if il else z3.Not(leap))
        n = [31, 29 if il else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        self.add(z3.And(d >= 1, d <= n))
        days = days_before_year(y) + _CUM[m - 1] + (1 if il and m > 2 else 0) + d - 1
        r = SDatetime(days * DAY + tod)
        r._f = (y, z3.IntVal(m), d)
        r._d = days
        r._t = tod
        self.vars[name] = (r.t, "dt")
        return r

    def timedelta(self, name, lo=_dt.timedelta(0), hi=_dt.timedelta(days=4000)):
        t = self._named(self.uniq(name), "int", "td")
        self.add(z3.And(t >= td_term(lo), t <= td_term(hi)))
        return STimedelta(t)

    def int(self, name, lo=None, hi=None):
        t = self._named(self.uniq(name), "int", "int")
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return SNum(t, True)

    def real(self, name, lo=None, hi=None):
        t = self._named(self.uniq(name), "real", "real")
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return SNum(t, False)

    def bool(self, name):
        t = self._named(self.uniq(name), "bool", "bool")
        return SBool(t)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        name = self.uniq(name)
        i = self.choose(len(options))
        self.choices[name] = i
        return options[i]

    # -- contract
    def assume(self, cond):
        if type(cond) is SBool:
            self.add(cond.t)
            if self.pos >= len(self.prefix):
                if not self.feasible(z3.BoolVal(True)):
                    raise PathAbort()
        elif not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        self.checked += 1
        ex = self.ex
        if type(cond) is not SBool:
            if cond:
                if self.pos >= len(self.prefix):
                    ex.obligation(label, "eval", self)
                return
            self._refute(label, None)
            raise PathAbort()
        if self.pos < len(self.prefix):
            # same obligation was already decided on the sibling path
            self.add(cond.t)
            return
        t0 = _time.time()
        r = self.solver.check(z3.Not(cond.t))
        dt = _time.time() - t0
        ex.solver_s += dt
        ex.queries += 1
        if r == z3.unsat:
            ex.obligation(label, "z3", self, dt)
            if ex.cross_check:
                ex.cross(self.pc, cond.t, label)
            self.add(cond.t)
            return
        if r == z3.unknown:
            if ex.second_opinion(self.pc, cond.t):
                ex.obligation(label, "cvc5", self)
                self.add(cond.t)
                return
            ex.undecided(label, "solver returned unknown", self)
            self.add(cond.t)
            return
        self._refute(label, self.solver.model())
        self.add(cond.t)
        if not self.feasible(z3.BoolVal(True)):
            raise PathAbort()

    def _refute(self, label, model):
        if model is None:
            r = self.solver.check()
            self.ex.queries += 1
            if r == z3.unsat:
                raise PathAbort()
            model = self.solver.model() if r == z3.sat else None
        self.ex.refuted(label, self.model_inputs(model), self)

    def model_inputs(self, model):
        out = dict(self.choices)
        for name, (t, kind) in self.vars.items():
            if model is None:
                continue
            v = model.eval(t, model_completion=True)
            if kind == "bool":
                out[name] = 1 if z3.is_true(v) else 0
            elif kind == "real":
                try:
                    out[name] = str(v.as_fraction())
                except Exception:
                    out[name] = str(v)
            else:
                out[name] = v.as_long()
        return out


class Explorer:
    """Runs one harness unit symbolically, exhaustively."""

    def __init__(self, timeout_ms=20000, max_paths=20000, budget=240.0, max_depth=3000,
                 concretise_limit=80, cross_check=False):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = _time.time() + budget
        self.max_depth = max_depth
        self.concretise_limit = concretise_limit
        self.cross_check = cross_check
        self.stack = []
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_feas = 0
        self.obs = {}          # label -> {backend: count}
        self.refutations = []  # (label, inputs, note)
        self.undecideds = []   # (label, why)
        self.crosschecked = 0
        self.cross_fail = []
        self.slowest = 0.0

    def push(self, prefix):
        self.stack.append(prefix)

    def check_budget(self, ctx):
        if _time.time() > self.deadline:
            ctx._unsup("time budget of the exploration used up")

    def obligation(self, label, backend, ctx, secs=0.0):
        d = self.obs.setdefault(label, {})
        d[backend] = d.get(backend, 0) + 1
        self.slowest = max(self.slowest, secs)

    def refuted(self, label, inputs, ctx, note=""):
        if sum(1 for r in self.refutations if r[0] == label) < 5:
            self.refutations.append((label, inputs, note))

    def undecided(self, label, why, ctx=None):
        if len(self.undecideds) < 20:
            self.undecideds.append((label, why))

    def second_opinion(self, pc, goal):
        return cvc5_unsat(pc + [z3.Not(goal)], 20000)

    def cross(self, pc, goal, label):
        r = cvc5_status(pc + [z3.Not(goal)], 10000)
        if r == "unsat":
            self.crosschecked += 1
        elif r == "sat":
            self.cross_fail.append(label)

    def run(self, fn):
        """fn(ctx) -- the harness."""
        self.push([])
        while self.stack:
            if self.refutations and len(self.refutations) >= 12:
                break
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths or _time.time() > self.deadline:
                self.undecided("<exploration>", "path or time limit reached")
                break
            ctx = SymCtx(prefix, self)
            MODE["ctx"] = ctx
            try:
                fn(ctx)
                if ctx.flag:
                    self.undecided("<path>", ctx.flag)
            except PathAbort:
                self.aborted += 1
                if ctx.flag:
                    self.undecided("<path>", ctx.flag)
            except Unsupported as e:
                self.undecided("<path>", str(e))
            except AssumeFailed:
                self.aborted += 1
            except ContractViolation as e:
                try:
                    ctx._refute(e.label, None)
                except PathAbort:
                    pass
            except Exception as e:  # uncaught exception of the code under contract
                import traceback
                why = misfit(e)
                if why:
                    self.undecided("<path>", why)
                    continue
                tb = traceback.format_exc(limit=-4)
                label = f"no unexpected exception ({type(e).__name__})"
                try:
                    r = ctx.solver.check()
                    if r == z3.unsat:
                        self.aborted += 1
                    else:
                        inputs = ctx.model_inputs(ctx.solver.model() if r == z3.sat else None)
                        self.refuted(label, inputs, ctx, tb)
                except PathAbort:
                    pass
            finally:
                MODE["ctx"] = None
        return self


def cvc5_status(assertions, ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        smt = "(set-logic ALL)\n" + s.to_smt2()
        smt = smt.replace("(check-sat)", "")
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(ms))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        return "unsat" if r.isUnsat() else ("sat" if r.isSat() else "unknown")
    except Exception as e:  # noqa
        return f"error {e}"


def cvc5_unsat(assertions, ms):
    return cvc5_status(assertions, ms) == "unsat"
