"""Specification functions for time periods (pure, work on concrete and symbolic values)."""
import datetime as _dt

from pyvc import and_, or_, not_, implies, if_
from pyvc.ctx import EPOCH, US, Unsupported

SEC = 10**6
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR
WEEK = 7 * DAY
MONTH_AXIS = 31 * DAY
YEAR_AXIS = 366 * DAY
LEAP_CUM = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]

# length of the axis of each cycle, from the documentation of the classes
AXIS = {"TimeOfSecond": SEC, "TimeOfMinute": MIN, "TimeOfHour": HOUR, "TimeOfDay": DAY, "TimeOfWeek": WEEK,
        "TimeOfMonth": MONTH_AXIS, "TimeOfYear": YEAR_AXIS}


def us(dt):
    return (dt - EPOCH) // US


def pick(i, values):
    "values[i] for an index that may be symbolic"
    r = values[-1]
    for k in range(len(values) - 2, -1, -1):
        r = if_(i == k, values[k], r)
    return r


def offset(name, dt):
    "position of dt on the axis of its cycle, microseconds"
    u = us(dt)
    if name == "TimeOfSecond":
        return u % SEC
    if name == "TimeOfMinute":
        return u % MIN
    if name == "TimeOfHour":
        return u % HOUR
    if name == "TimeOfDay":
        return u % DAY
    if name == "TimeOfWeek":
        return (u + 3 * DAY) % WEEK      # 1970-01-01 was a Thursday
    if name == "TimeOfMonth":
        return (dt.day - 1) * DAY + u % DAY
    if name == "TimeOfYear":
        return pick(dt.month - 1, [c * DAY for c in LEAP_CUM[:12]]) + (dt.day - 1) * DAY + u % DAY
    raise KeyError(name)


def is_full(name, s, e):
    return or_(s == e, and_(s == 0, e == AXIS[name]))


def member(name, s, e, dt):
    o = offset(name, dt)
    inside = if_(s <= e, and_(s <= o, o < e), or_(o >= s, o < e))
    return or_(is_full(name, s, e), inside)


def make(cls, s, e):
    "a period with the given anchored start/end (representation invariant: 0 <= s < axis, 0 <= e <= axis)"
    p = cls()
    if "_start" not in vars(p) or "_end" not in vars(p):
        raise Unsupported("the representation of cycle periods has changed")
    object.__setattr__(p, "_start", s)
    object.__setattr__(p, "_end", e)
    return p


def sym_period(ctx, cls, tag=""):
    name = cls.__name__
    s = ctx.int(f"start{tag}", 0, AXIS[name] - 1)
    e = ctx.int(f"end{tag}", 0, AXIS[name])
    return make(cls, s, e), s, e


# ------------------------------------------------------------ rolling

def next_ge(L, o, t, b):
    "smallest instant >= t (offset o) whose cycle offset is b (cycle length L, 0 <= b < L)"
    return t + td((b - o) % L)


def prev_le(L, o, t, b):
    return t - td((o - b) % L)


def td(n):
    return n * US


def days_in(y, m):
    leap = and_(y % 4 == 0, or_(not_(y % 100 == 0), y % 400 == 0))
    return pick(m - 1, [31, if_(leap, 29, 28), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
