"""Analysis-time stand-ins for C-implemented callables that cannot take proxies.

Nothing in /repo is edited: the stand-ins are put into the *module globals* of
the imported rocketry modules (only in the analysing process).  With ordinary
arguments every stand-in defers to the real callable.
"""
import builtins
import calendar as _cal
import datetime as _dt
import sys
import types

import z3

from . import sym
from .sym import SNum, SBool, SDatetime, STimedelta, SDate, as_num, is_sym, mknum, cur, dt_term, td_term
from .ctx import Unsupported


def _mk_meta(real, call):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __call__(cls, *a, **k):
            return call(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __or__(cls, o):
            return real | o

        def __ror__(cls, o):
            return o | real
    return Meta


def _int_call(*a, **k):
    if a and is_sym(a[0]) and len(a) == 1:
        x = a[0]
        if type(x) is SNum:
            t = sym.trunc_num(x)
            return mknum(t.t, True)
        if type(x) is SBool:
            n = x._num()
            return mknum(n.t, True)
    return builtins.int(*a, **k)


def _float_call(*a, **k):
    if a and is_sym(a[0]):
        x = as_num(a[0])
        if x is not None:
            return SNum(x.real(), False, x.us)
    return builtins.float(*a, **k)


def _bool_call(*a, **k):
    return builtins.bool(*a, **k)


def _td_call(*a, **k):
    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        vals = dict(zip(names, a))
        for n, v in k.items():
            if n not in names:
                raise TypeError(f"'{n}' is an invalid keyword argument for __new__()")
            vals[n] = v
        mult = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000,
                "minutes": 60 * 10**6, "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}
        tot_i = z3.IntVal(0)
        tot_r = None
        for n, v in vals.items():
            x = as_num(v)
            if x is None:
                raise TypeError(f"unsupported type for timedelta {n} component: {type(v)}")
            if x.i:
                tot_i = tot_i + x.t * mult[n]
            else:
                if x.us is not None and n == "seconds":
                    tot_i = tot_i + x.us
                    continue
                r = x.t * mult[n]
                tot_r = r if tot_r is None else tot_r + r
        if tot_r is not None:
            tot_i = tot_i + sym.round_half_even(tot_r)
        return STimedelta(tot_i)
    return _dt.timedelta(*a, **k)


def _dt_call(*a, **k):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
        vals = dict(zip(names, a))
        vals.update(k)
        if vals.pop("tzinfo", None) is not None:
            raise Unsupported("timezones")
        vals.pop("fold", None)
        return sym.civil_datetime(**vals)
    return _dt.datetime(*a, **k)


def _fromtimestamp(ts, tz=None):
    if is_sym(ts):
        if tz is not None:
            raise Unsupported("timezones")
        x = as_num(ts)
        if x.us is not None:
            return SDatetime(x.us)
        if x.i:
            return SDatetime(x.t * 10**6)
        return SDatetime(sym.round_half_even(x.t * 10**6))
    return _dt.datetime.fromtimestamp(ts, tz)


def _combine(d, t, *a, **k):
    if is_sym(d) or is_sym(t):
        if isinstance(d, _dt.datetime):
            days = sym.zdiv(dt_term(d), sym.DAY)
        elif type(d) is SDate:
            days = d.days
        else:
            days = z3.IntVal(d.toordinal() - sym.EPOCH_ORD)
        if is_sym(t):
            raise Unsupported("symbolic time of day")
        tod = (t.hour * 3600 + t.minute * 60 + t.second) * 10**6 + t.microsecond
        return SDatetime(days * sym.DAY + tod)
    return _dt.datetime.combine(d, t, *a, **k)


class IntShim(metaclass=_mk_meta(builtins.int, _int_call)):
    pass


class FloatShim(metaclass=_mk_meta(builtins.float, _float_call)):
    pass


class TimedeltaShim(metaclass=_mk_meta(_dt.timedelta, _td_call)):
    pass


class DatetimeShim(metaclass=_mk_meta(_dt.datetime, _dt_call)):
    fromtimestamp = staticmethod(_fromtimestamp)
    combine = staticmethod(_combine)

    @staticmethod
    def now(tz=None):
        hook = HOOKS.get("now")
        if hook is not None:
            return hook()
        return _dt.datetime.now(tz)

    @staticmethod
    def strptime(*a):
        return _dt.datetime.strptime(*a)


HOOKS = {}


class ModuleShim(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        self.__dict__.update(over)


DATETIME_MOD = ModuleShim(_dt, datetime=DatetimeShim, timedelta=TimedeltaShim)


def _isleap(y):
    if is_sym(y):
        return sym.mkbool(sym.leap_term(y.t))
    return _cal.isleap(y)


def _monthrange(y, m):
    if is_sym(y) or is_sym(m):
        yt, mt = as_num(y).t, as_num(m).t
        if cur().branch(z3.Or(mt < 1, mt > 12)):
            raise _cal.IllegalMonthError(0)
        leap = sym.leap_term(yt)
        first = sym.days_before_year(yt) + sym.days_before_month(mt, leap)
        return mknum(sym.zmod(first + 3, 7), True), mknum(sym.days_in_month(mt, leap), True)
    return _cal.monthrange(y, m)


CAL_MOD = ModuleShim(_cal, isleap=_isleap, monthrange=_monthrange)


def _time_time():
    hook = HOOKS.get("time")
    if hook is not None:
        return hook()
    import time
    return time.time()


def install(prefix="rocketry"):
    import time as _time
    repl_ids = {
        id(_dt): DATETIME_MOD, id(_dt.datetime): DatetimeShim, id(_dt.timedelta): TimedeltaShim,
        id(_cal): CAL_MOD, id(_cal.monthrange): _monthrange, id(_cal.isleap): _isleap,
    }
    TIME_MOD = ModuleShim(_time, time=_time_time)
    repl_ids[id(_time)] = TIME_MOD
    repl_ids[id(_time.time)] = _time_time
    n = 0
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        if ".test" in name:
            continue
        g = vars(mod)
        for k, v in list(g.items()):
            r = repl_ids.get(id(v))
            if r is not None:
                g[k] = r
                n += 1
        g.setdefault("int", IntShim)
        g.setdefault("float", FloatShim)
    return n
