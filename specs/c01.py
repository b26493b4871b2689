"""C01 -- membership in a cycle period."""
from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.time.interval import (TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth,
                                    TimeOfYear)
from specs import timespec as T

CLASSES = [TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear]
FN = ["core/time/anchor.py:AnchoredInterval.__contains__", "core/time/anchor.py:AnchoredInterval.is_full",
      "core/time/anchor.py:AnchoredInterval.anchor_dt", "time/interval.py:*.anchor_dt",
      "pybox/time/convert.py:datetime_to_dict", "pybox/time/convert.py:to_microseconds"]


@harness("C01", FN, cases=CLASSES, samples=400)
def contains(ctx, cls):
    """ensures  (dt in P)  <=>  cycle offset of dt lies in [start, end), wrapping when start > end"""
    p, s, e = T.sym_period(ctx, cls)
    dt = ctx.datetime("dt")
    got = dt in p
    ctx.check(iff(got, T.member(cls.__name__, s, e, dt)), "membership equals the half-open cycle interval")
    ctx.check(iff(p.is_full(), T.is_full(cls.__name__, s, e)), "is_full exactly for whole cycles")
