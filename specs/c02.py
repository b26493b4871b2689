"""C02 -- human-readable arguments of cycle periods denote the instants they name."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.time.interval import (TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth,
                                    TimeOfYear)
from rocketry.conditions.api import (time_of_second, time_of_minute, time_of_hour, time_of_day, time_of_week,
                                     time_of_month, secondly, minutely, hourly, daily, weekly, monthly)
from rocketry.time.construct import get_between, get_after, get_before, get_on, get_full_cycle
from specs import timespec as T

A = "core/time/anchor.py:AnchoredInterval."
FN = [A + "__init__", A + "set_start", A + "set_end", A + "anchor", A + "anchor_int", A + "to_timepoint", A + "_validate",
      A + "at", A + "starting", A + "__contains__", "time/interval.py:*.anchor_int", "time/interval.py:*.anchor_str",
      "time/interval.py:TimeOfYear.to_timepoint"]
ASSUMPTIONS = ["strings are enumerated (every HH:MM, every day name, ...), integers are symbolic",
               "a period given by months: not the last microsecond of a day (known finding: month ends are one microsecond early)"]

# class: (first unit, number of units, microseconds of one unit)
UNITS = {"TimeOfSecond": (0, 1000, 1000), "TimeOfMinute": (0, 60, T.SEC), "TimeOfHour": (0, 60, T.MIN),
         "TimeOfDay": (0, 24, T.HOUR), "TimeOfWeek": (1, 7, T.DAY), "TimeOfMonth": (1, 31, T.DAY),
         "TimeOfYear": (1, 12, None)}
CLASSES = [TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear]
FORMS = ["between", "after", "before", "at", "starting"]


def unit_start(name, i):
    first, n, size = UNITS[name]
    if size is None:
        return T.pick(i - first, [d * T.DAY for d in T.LEAP_CUM[:12]])
    return (i - first) * size


def unit_end(name, i):
    first, n, size = UNITS[name]
    if size is None:
        return T.pick(i - first, [d * T.DAY for d in T.LEAP_CUM[1:13]])
    return (i - first + 1) * size


def build(cls, form, a, b):
    if form == "between":
        return cls(a, b)
    if form == "after":
        return cls(a, None)
    if form == "before":
        return cls(None, b)
    if form == "at":
        return cls.at(a)
    return cls.starting(a)


def bounds(name, form, start, end, at_end):
    L = T.AXIS[name]
    if form == "between":
        return start, end
    if form == "after":
        return start, L
    if form == "before":
        return 0, end
    if form == "at":
        return start, at_end
    return start, start


def spec_member(name, s, e, dt):
    "offset of dt in [s, e); wraps over the cycle when s >= e; s == e is the whole cycle"
    o = T.offset(name, dt)
    return if_(s < e, and_(s <= o, o < e), or_(s <= o, o < e))


def instant(ctx, name):
    dt = ctx.datetime("dt")
    if name == "TimeOfYear":
        ctx.assume(not_(T.us(dt) % T.DAY == T.DAY - 1))
    return dt


@harness("C02", FN, cases=[(c, f) for c in CLASSES for f in FORMS], samples=80)
def integers(ctx, case):
    """an integer names a whole unit (hour of a day, day of a week, ...); an end unit is included"""
    cls, form = case
    name = cls.__name__
    first, n, size = UNITS[name]
    a, b = ctx.int("a", first, first + n - 1), ctx.int("b", first, first + n - 1)
    if name == "TimeOfYear" and form == "between":
        # "from Mar to Feb" is the whole year: the ends differ by the missing microsecond
        ctx.assume(not_((b - first + 1) % n == a - first))
    dt = instant(ctx, name)
    p = build(cls, form, a, b)
    s, e = bounds(name, form, unit_start(name, a), unit_end(name, b), unit_end(name, a))
    ctx.check(iff(dt in p, spec_member(name, s, e, dt)), f"membership of a period given by units ({form})")


@harness("C02", FN, cases=[(c, side) for c in CLASSES for side in ("start", "end")], samples=60)
def invalid_integers(ctx, case):
    cls, side = case
    first, n, size = UNITS[cls.__name__]
    v = ctx.int("v", -10**6, 10**6)
    hi = first + n - 1 if cls is not TimeOfSecond else 1000
    ctx.assume(or_(v < first, v > hi))
    try:
        cls(v, None) if side == "start" else cls(None, v)
    except ValueError:
        ctx.check(True, "a unit that does not exist is rejected")
        return
    ctx.fail("a unit that does not exist is rejected")


# ---------------------------------------------------------------- strings

ORD = ["1st", "2nd", "3rd"] + [f"{i}th" for i in range(4, 32)]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
          "December"]
TIMES = [("00:00", 0), ("07:05", 7 * T.HOUR + 5 * T.MIN), ("12:30:15", 12 * T.HOUR + 30 * T.MIN + 15 * T.SEC),
         ("23:59", 23 * T.HOUR + 59 * T.MIN)]


def strings(name):
    "(text, offset when it starts a period, offset when it ends one)"
    out = []
    if name == "TimeOfSecond":
        out = [(f"{i}", i * 1000, i * 1000) for i in (0, 1, 10, 250, 999)] + [("0.5", 500, 500)]
    if name == "TimeOfMinute":
        out = [(f"{i:02d}", i * T.SEC, i * T.SEC) for i in range(60)]
        out += [(f"{i:02d}.{f}", i * T.SEC + n, i * T.SEC + n) for i in (0, 5, 59) for f, n in
                (("5", 500000), ("25", 250000), ("000001", 1), ("999999", 999999))]
    if name == "TimeOfHour":
        out = [(f"{m:02d}:{s:02d}", m * T.MIN + s * T.SEC, m * T.MIN + s * T.SEC) for m in range(60) for s in (0, 1, 30, 59)]
        out += [("15:30.5", 15 * T.MIN + 30 * T.SEC + 500000) * 1 + (15 * T.MIN + 30 * T.SEC + 500000,)]
        out += [(f"{q} {w}", q * 15 * T.MIN, q * 15 * T.MIN) for q in range(4) for w in ("quarter", "q")]
    if name == "TimeOfDay":
        out = [(f"{h:02d}:{m:02d}", h * T.HOUR + m * T.MIN, h * T.HOUR + m * T.MIN) for h in range(24) for m in range(60)]
        out += [(f"{h:02d}:{m:02d}:{s:02d}",) + 2 * (h * T.HOUR + m * T.MIN + s * T.SEC,)
                for h in (0, 9, 12, 23) for m in (0, 1, 59) for s in (0, 1, 59)]
        out += [("10:00:00.25",) + 2 * (10 * T.HOUR + 250000,)]
        out += [(f"{h}:{m:02d} {ap}",) + 2 * ((h % 12 + (12 if ap == "PM" else 0)) * T.HOUR + m * T.MIN,)
                for h in range(1, 13) for m in (0, 30) for ap in ("AM", "PM")]
    if name == "TimeOfWeek":
        for i, d in enumerate(DAYS):
            for v in (d, d[:3], d.lower(), d[:3].upper()):
                out.append((v, i * T.DAY, (i + 1) * T.DAY))
            for t, o in TIMES:
                out += [(f"{d} {t}", i * T.DAY + o, i * T.DAY + o), (f"{d[:3]} {t}", i * T.DAY + o, i * T.DAY + o)]
    if name == "TimeOfMonth":
        for i, d in enumerate(ORD):
            for v in (d, str(i + 1), f"{i+1}."):
                out.append((v, i * T.DAY, (i + 1) * T.DAY))
            for t, o in TIMES:
                out.append((f"{d} {t}", i * T.DAY + o, i * T.DAY + o))
    if name == "TimeOfYear":
        for i, d in enumerate(MONTHS):
            s, e = T.LEAP_CUM[i] * T.DAY, T.LEAP_CUM[i + 1] * T.DAY
            for v in (d, d[:3], d.lower(), d[:3].upper()):
                out.append((v, s, e))
            for k in (1, 2, 15, 28, T.LEAP_CUM[i + 1] - T.LEAP_CUM[i]):
                for t, o in [("", 0)] + TIMES[1:3]:
                    x = s + (k - 1) * T.DAY + o
                    out.append((f"{d} {ORD[k-1]} {t}".strip(), x, x + T.DAY if not t else x))
    return out


def string_cases():
    out = []
    for c in CLASSES:
        ss = strings(c.__name__)
        n = 60 if c in (TimeOfDay, TimeOfHour) else 20
        out += [(c, i, i + n) for i in range(0, len(ss), n)]
    return out


@harness("C02", FN, cases=string_cases(), samples=120, max_paths=60000)
def texts(ctx, case):
    """a text names an instant of the cycle; a day or month without a time includes that whole day or month when it ends
    the period, and time_point covers one unit from it"""
    cls, i, j = case
    name = cls.__name__
    text, s, e = ctx.choice("text", strings(name)[i:j])
    form = ctx.choice("form", ["after", "before", "at", "starting"])
    L = T.AXIS[name]
    if e is None and form == "before":
        ctx.assume(False)
    if name == "TimeOfYear":
        ctx.assume(form != "at" or " " not in text)
        at_end = T.LEAP_CUM[T.LEAP_CUM.index(s // T.DAY) + 1] * T.DAY if form == "at" else None
    else:
        at_end = (s + UNITS[name][2]) % L
    if form == "before" and e == 0:
        ctx.assume(False)
    dt = instant(ctx, name)
    p = build(cls, form, text, text)
    s, e = bounds(name, form, s, e, at_end)
    ctx.check(iff(dt in p, spec_member(name, s, e, dt)), f"membership of a period given by text ({form})")


def pairs(name):
    ss = [x for x in strings(name) if x[2] is not None]
    k = max(1, len(ss) // 9)
    return ss[::k]


@harness("C02", FN, cases=CLASSES, samples=150, max_paths=60000)
def text_pairs(ctx, cls):
    "from one text to another"
    name = cls.__name__
    t1, s, _ = ctx.choice("t1", pairs(name))
    t2, _, e = ctx.choice("t2", pairs(name))
    if name == "TimeOfYear":
        ctx.assume(e % T.AXIS[name] != s)
    dt = instant(ctx, name)
    ctx.check(iff(dt in cls(t1, t2), spec_member(name, s, e, dt)), "membership of a period between two texts")


def bad_texts(name):
    if name == "TimeOfSecond":
        return ["foo", "1001", "-1"]
    if name == "TimeOfMinute":
        return ["foo", "61", "99"]
    if name == "TimeOfHour":
        return ["foo", "61:00", "10:60", "10:99", "5 quarter", "10 quarter"]
    if name == "TimeOfDay":
        return ["foo", "25:00", "24:01", "10:60"]
    if name == "TimeOfWeek":
        return ["foo", "Mondays", "Mon 25:00", "Mon foo", "12"]
    if name == "TimeOfMonth":
        return ["foo", "0", "0th", "32", "32nd", "99", "5th 25:00", "5th foo"]
    return ["foo", "Feb 30", "Feb 30 10:00", "Apr 31", "Apr 31st", "Jan 32", "Jan 0", "Jun 31 00:00", "Dec 32 00:00"]


@harness("C02", FN, cases=CLASSES, samples=60)
def texts_rejected(ctx, cls):
    "a text that names no unit of the cycle is rejected"
    t = ctx.choice("text", bad_texts(cls.__name__))
    side = ctx.choice("side", ["start", "end", "at"])
    try:
        cls(t, None) if side == "start" else cls(None, t) if side == "end" else cls.at(t)
    except Exception:
        ctx.check(True, "a text that names no unit of the cycle is rejected")
        return
    ctx.fail("a text that names no unit of the cycle is rejected", dict(text=t, side=side))


@harness("C02", FN + [A + "rollforward", A + "rollback"], cases=[c for c in CLASSES if c not in (TimeOfMonth, TimeOfYear)],
         samples=100, max_paths=60000)
def text_roll(ctx, cls):
    "a period given by texts is rolled to the instants they name"
    name = cls.__name__
    ss = pairs(name) + [x for x in strings(name) if "q" in x[0]]
    t, s, _ = ctx.choice("t", ss)
    te, e = ctx.choice("end", [(None, T.AXIS[name])] + [(x[0], x[2]) for x in ss[-2:]])
    ctx.assume(s != e % T.AXIS[name])
    dt = instant(ctx, name)
    p = cls(t, te)
    if ctx.choice("forward", [True, False]):
        iv = p.rollforward(dt)
        out = not_(spec_member(name, s, e, dt))
        ctx.check(implies(out, T.offset(name, iv.left) == s), "rolled to the start that the text names")
        ctx.check(T.offset(name, iv.right) == e % T.AXIS[name], "rolled to the end that the text names")
    else:
        iv = p.rollback(dt)
        out = not_(spec_member(name, s, e, dt))
        ctx.check(implies(out, T.offset(name, iv.right) == e % T.AXIS[name]), "rolled back to the end that the text names")
        ctx.check(T.offset(name, iv.left) == s, "rolled back to the start that the text names")


# ---------------------------------------------------------------- the condition API and the string constructors build the same periods

API = [(time_of_second, TimeOfSecond), (time_of_minute, TimeOfMinute), (time_of_hour, TimeOfHour), (time_of_day, TimeOfDay),
       (time_of_week, TimeOfWeek), (time_of_month, TimeOfMonth), (secondly, TimeOfSecond), (minutely, TimeOfMinute),
       (hourly, TimeOfHour), (daily, TimeOfDay), (weekly, TimeOfWeek), (monthly, TimeOfMonth)]
W = "conditions/api.py:TimeCondWrapper."


@harness("C02", [W + "between", W + "before", W + "after", W + "on", W + "at", W + "starting", W + "get_cond"],
         cases=[(i, f) for i in range(len(API)) for f in ("between", "after", "before", "at", "on", "starting", "full")],
         samples=30)
def api(ctx, case):
    i, form = case
    wrap, cls = API[i]
    name = cls.__name__
    first, n, size = UNITS[name]
    a, b = ctx.int("a", first, first + n - 1), ctx.int("b", first, first + n - 1)
    dt = ctx.datetime("dt")
    if form == "between":
        c = wrap.between(a, b)
    elif form == "full":
        c = wrap.get_cond()
    else:
        c = getattr(wrap, form)(b if form == "before" else a)
    f = {"on": "at", "full": "starting"}.get(form, form)
    s, e = bounds(name, f, unit_start(name, a), unit_end(name, b), unit_end(name, a))
    want = True if form == "full" else spec_member(name, s, e, dt)
    ctx.check(iff(dt in c.period, want), f"condition API builds the named period ({form})")


KINDS = {"month": TimeOfMonth, "week": TimeOfWeek, "day": TimeOfDay, "hour": TimeOfHour, "minute": TimeOfMinute}


@harness("C02", ["time/construct.py:get_between", "time/construct.py:get_after", "time/construct.py:get_before",
                 "time/construct.py:get_on", "time/construct.py:get_full_cycle"],
         cases=[(k, f) for k in KINDS for f in ("between", "after", "before", "at", "starting")], samples=30)
def constructors(ctx, case):
    kind, form = case
    cls = KINDS[kind]
    name = cls.__name__
    first, n, size = UNITS[name]
    word = ctx.choice("word", {"month": ["month", "monthly", "this month"], "week": ["week", "weekly", "this week"],
                               "day": ["day", "daily", "today", "DAY"], "hour": ["hour", "hourly", "this hour"],
                               "minute": ["minute", "minutely", "this minute"]}[kind])
    a, b = ctx.int("a", first, first + n - 1), ctx.int("b", first, first + n - 1)
    dt = ctx.datetime("dt")
    p = {"between": lambda: get_between(word, a, b), "after": lambda: get_after(word, a),
         "before": lambda: get_before(word, b), "at": lambda: get_on(word, a),
         "starting": lambda: get_full_cycle(word)}[form]()
    s, e = bounds(name, form, unit_start(name, a), unit_end(name, b), unit_end(name, a))
    want = True if form == "starting" else spec_member(name, s, e, dt)
    ctx.check(iff(dt in p, want), f"string constructors build the named period ({form})")


@harness("C02", ["time/interval.py:TimeOfYear.anchor_str", "time/interval.py:TimeOfYear.anchor_int",
                 "time/interval.py:TimeOfYear.to_timepoint"], kind="finding")
def month_end(ctx):
    m = ctx.int("month", 1, 12)
    nxt = datetime.datetime(2024 + m // 12, m % 12 + 1, 1)
    ctx.check(nxt - datetime.timedelta(microseconds=1) in TimeOfYear.at(m), "the last microsecond of a month belongs to it")
