"""C23 -- durations given as texts, numbers and timedeltas are the durations they spell."""
import datetime
import itertools
from fractions import Fraction

from pyvc import harness, iff, and_, or_, not_
from rocketry.pybox.time.convert import to_timedelta
from rocketry.core.time.base import TimeDelta
from rocketry.time import TimeSpanDelta
from rocketry.conds import every
from specs.world import World, Clock, put

LEVEL = "other"
FN = ["pybox/time/convert.py:to_timedelta", "pybox/time/convert.py:string_to_timedelta", "pybox/time/convert.py:to_microseconds", "pybox/time/convert.py:numb_to_timedelta"]
TRUSTED = ["float() and datetime.timedelta"]
ASSUMPTIONS = ["texts are concrete: numbers, units, separators and signs are enumerated up to the stated bound; numbers not in a text are arbitrary",
               "a text is compared to the microsecond nearest to its exact (decimal) value"]
UNITS = {"ms": 1000, "millisecond": 1000, "seconds": 10**6, "second": 10**6, "secs": 10**6, "sec": 10**6, "s": 10**6,
         "minutes": 6 * 10**7, "minute": 6 * 10**7, "mins": 6 * 10**7, "min": 6 * 10**7, "m": 6 * 10**7,
         "hours": 36 * 10**8, "hour": 36 * 10**8, "hrs": 36 * 10**8, "hr": 36 * 10**8, "h": 36 * 10**8,
         "days": 864 * 10**8, "day": 864 * 10**8, "d": 864 * 10**8}
NUMBERS = ["0", "1", "2", "7", "10", "59", "60", "99", "365", "1000", "86399", "0.5", "1.5", "2.25", "0.001", "10.75", "00", "05", "3.0"]
US = datetime.timedelta(microseconds=1)


def near(td, exact):
    "the microseconds of the duration are those of the exact value, rounded"
    return isinstance(td, datetime.timedelta) and abs(Fraction(td // US) - exact) <= Fraction(1, 2) + Fraction(1, 10**6)


def read(s):
    try:
        return to_timedelta(s)
    except Exception as e:
        return e


@harness("C23", FN, cases=sorted(UNITS), samples=1, bound="the listed numbers, with and without signs and spaces")
def one(ctx, unit):
    """number and unit, in every spelling"""
    for n in NUMBERS:
        exact = Fraction(n) * UNITS[unit]
        for sp in ("", " ", "  "):
            for sign, f in (("", 1), ("-", -1), ("+", 1), ("- ", -1), ("--", 1), ("-+", -1)):
                s = f"{sign}{n}{sp}{unit}"
                got = read(s)
                ctx.check(near(got, f * exact), "the duration is the number of the unit", f"{s!r}: {got!r}")
        ctx.check(near(read(f" {n} {unit}"), exact), "leading spaces do not matter", n + unit)


@harness("C23", FN, cases=["ms", "s", "min", "h", "day"], samples=1, bound="the decimal numbers of three digits up to 4.999, and some longer ones")
def decimals(ctx, unit):
    """decimal numbers, exact to the microsecond"""
    bad = []
    for k in range(5000):
        n = f"{k // 1000}.{k % 1000:03d}"
        got = read(f"{n} {unit}")
        if not near(got, Fraction(n) * UNITS[unit]):
            bad.append((n, got))
        if k % 7 == 0:
            got = read(f"{n}{unit}, 1.001 s 0.29 s")
            if not near(got, Fraction(n) * UNITS[unit] + Fraction("1.291") * UNITS["s"]):
                bad.append((n, got))
    for n in ["123.456789", "0.000001", "59.999999", "1000.0001", "0.1", "0.7", "4.35", "1.15", "2.675", "1234567.891"]:
        got = read(f"{n} {unit}")
        if not near(got, Fraction(n) * UNITS[unit]):
            bad.append((n, got))
    ctx.check(not bad, "the duration is the number of the unit", f"{bad[:3]}")


KEY = ["ms", "s", "sec", "min", "hours", "h", "day"]


@harness("C23", FN, cases=list(itertools.product(KEY, KEY)), samples=1, bound="two or three pairs of the listed numbers and units")
def several(ctx, case):
    """the sum of the pairs, in any order"""
    a, b = case
    for x, y in itertools.product(["1", "2.5", "30", "0"], ["1", "10", "0.25", "45"]):
        exact = Fraction(x) * UNITS[a] + Fraction(y) * UNITS[b]
        for sep in (" ", ", ", ",", "", ":", "  "):
            for sp in ("", " "):
                s = f"{x}{sp}{a}{sep}{y}{sp}{b}"
                got = read(s)
                ctx.check(near(got, exact), "the duration is the sum", f"{s!r}: {got!r}")
        for c in ("s", "min", "days"):
            s = f"-{x} {a} {y} {b}, 3{c}"
            got = read(s)
            ctx.check(near(got, -(exact + 3 * UNITS[c])), "the sign is that of the whole", f"{s!r}: {got!r}")


@harness("C23", FN, samples=1, bound="clock texts of the listed numbers")
def clock(ctx):
    """HH:MM:SS, also after days"""
    for h, m, sec in itertools.product(["0", "00", "1", "09", "23", "48"], ["00", "01", "59"], ["00", "07", "59", "30.5", "00.000001"]):
        exact = Fraction(h) * UNITS["h"] + Fraction(m) * UNITS["m"] + Fraction(sec) * UNITS["s"]
        s = f"{h}:{m}:{sec}"
        ctx.check(near(read(s), exact), "the clock is a duration", s)
        for d in ("1 day, ", "2 days ", "3d "):
            ctx.check(near(read(d + s), exact + int(d[0]) * UNITS["day"]), "days and clock", d + s)
        ctx.check(near(read("-" + s), -exact), "a negative clock", s)


@harness("C23", FN, samples=1, bound="the listed texts")
def refused(ctx):
    """what is not a duration is refused"""
    for s in ["", "hour", "10", "1 hour 30", "ten minutes", "1 fortnight", "1 hourss", "10 minute s", "1..5 h", "1.2.3 s", "5 mm", "h 1", "10 min ago", "1:30", "1:2:3:4", "s", "-", "1 hour and 2 minutes", "1e3 s"]:
        got = read(s)
        ctx.check(isinstance(got, Exception), "what is not a duration is refused", f"{s!r}: {got!r}")
    for x in (None, [], {}, object()):
        ctx.check(isinstance(read(x), Exception), "what is not a duration is refused", repr(x))


NUM_UNITS = {"μs": 1, "ms": 1000, "s": 10**6, "m": 6 * 10**7, "h": 36 * 10**8, "microsecond": 1, "millisecond": 1000, "second": 10**6, "minute": 6 * 10**7, "hour": 36 * 10**8}


@harness("C23", FN, cases=sorted(NUM_UNITS), samples=60)
def number(ctx, unit):
    """a number is that many of its unit, for every whole number; a timedelta is itself"""
    n = ctx.int("n", -10**6, 10**6)
    got = to_timedelta(n, unit=unit)
    ctx.check(got == (n * NUM_UNITS[unit]) * US, "a number is that many units")
    td = ctx.timedelta("d", datetime.timedelta(days=-1000), datetime.timedelta(days=1000))
    ctx.check(to_timedelta(td) == td and to_timedelta(td, unit=unit) == td, "a timedelta is itself")


SPELLED = {"10 seconds": 10, "1 hour, 30 minutes": 5400, "2 days": 172800, "1h 5min": 3900, "90 min": 5400, "00:10:00": 600, "0.5 h": 1800}


@harness("C23", FN + ["core/task.py:Task.parse_timeout", "session.py:Config.parse_timeout", "core/time/base.py:TimeDelta.__init__", "time/delta.py:TimeSpanDelta.__init__"],
         cases=sorted(SPELLED), samples=20, bound="the listed texts; seconds are arbitrary")
def used(ctx, text):
    """where durations are given: timeouts of tasks and sessions, periods, every"""
    want = datetime.timedelta(seconds=SPELLED[text])
    w = World(ctx, clock=Clock(ctx, fixed=datetime.datetime(2022, 1, 1)), timeout=text)
    ctx.check(w.session.config.timeout == want, "the timeout of a session")
    t = w.task("t", timeout=text)
    ctx.check(t.timeout == want, "the timeout of a task")
    t.timeout = "20 min"
    ctx.check(t.timeout == datetime.timedelta(minutes=20), "the timeout set later")
    n = ctx.choice("seconds", [0, 1, 20, 600, 100000])
    ctx.check(w.task("u", timeout=n).timeout == datetime.timedelta(seconds=n), "a number is seconds")
    ctx.check(w.task("f", timeout=0.25).timeout == datetime.timedelta(milliseconds=250), "a decimal number is seconds")
    w = World(ctx, clock=Clock(ctx, fixed=datetime.datetime(2022, 1, 1)), timeout=n)
    ctx.check(w.session.config.timeout == datetime.timedelta(seconds=n), "a number is seconds, for a session")
    w = World(ctx, clock=Clock(ctx, fixed=datetime.datetime(2022, 1, 1)), timeout=0.25)
    ctx.check(w.session.config.timeout == datetime.timedelta(milliseconds=250), "a decimal number is seconds, for a session")
    zero = ctx.choice("zero", [0, 0.0, datetime.timedelta(0)])
    ctx.check(w.task("z", timeout=zero).timeout == datetime.timedelta(0), "no time at all is a timeout too")
    ctx.check(w.task("v", timeout=want).timeout == want and w.task("w").timeout is None and w.task("x", timeout="never").timeout == datetime.timedelta.max, "a timedelta, none and never")
    now = datetime.datetime(2022, 5, 5)
    iv = TimeDelta(text).rollback(now)
    ctx.check(iv.left == now - want and iv.right == now, "the period of a duration")
    sp = TimeSpanDelta(near=text, far="3 days")
    ctx.check(sp.near == want and sp.far == datetime.timedelta(days=3), "the span of durations")
    ctx.check(every(text).period.rollback(now).left == now - want, "every")
