"""C03 -- rolling a cycle period forward/back yields the right concrete interval."""
from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.time.interval import (TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth,
                                    TimeOfYear)
from specs import timespec as T
from specs.timespec import DAY, td

FIXED = [TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek]
A = "core/time/anchor.py:AnchoredInterval."
FN = ["core/time/base.py:TimeInterval.rollforward", "core/time/base.py:TimeInterval.rollback",
      A + "rollstart", A + "rollend", A + "next_start", A + "next_end", A + "prev_start", A + "prev_end",
      A + "__contains__", A + "is_full", A + "anchor_dt", A + "get_scope_back", A + "get_scope_forward",
      "pybox/time/convert.py:to_timedelta", "pybox/time/convert.py:numb_to_timedelta",
      "pybox/time/convert.py:to_datetime"]
FN_FLOAT = FN + ["time/interval.py:FloatingMixin.*", "time/interval.py:TimeOfMonth.*", "time/interval.py:TimeOfYear.*"]


@harness("C03", FN, cases=FIXED, samples=300)
def forward_fixed(ctx, cls):
    name = cls.__name__
    L = T.AXIS[name]
    p, s, e = T.sym_period(ctx, cls)
    dt = ctx.datetime("dt")
    got = p.rollforward(dt)
    o = T.offset(name, dt)
    eo = e % L
    inside = T.member(name, s, e, dt)
    exp_left = if_(inside, dt, T.next_ge(L, o, dt, s))
    # the end: first instant strictly after the left end that is at the end position
    lo = if_(inside, o, s)
    exp_right = exp_left + td(1) + td((eo - (lo + 1)) % L)
    ctx.check(got.left == exp_left, "rollforward starts at dt if inside, else at the next start")
    ctx.check(got.right == exp_right, "rollforward ends at the first end after its start")
    ctx.check(got.closed == "left", "rollforward is left-closed")


@harness("C03", FN, cases=FIXED, samples=300)
def back_fixed(ctx, cls):
    name = cls.__name__
    L = T.AXIS[name]
    p, s, e = T.sym_period(ctx, cls)
    dt = ctx.datetime("dt")
    got = p.rollback(dt)
    o = T.offset(name, dt)
    eo = e % L
    full = T.is_full(name, s, e)
    inside = T.member(name, s, e, dt)
    exp_right = if_(inside, dt, T.prev_le(L, o, dt, eo))
    ro = if_(inside, o, eo)
    # full cycle: the start strictly before; otherwise the last start at or before
    exp_left = if_(full, exp_right - td(1) - td((ro - 1 - s) % L), exp_right - td((ro - s) % L))
    ctx.check(got.right == exp_right, "rollback ends at dt if inside, else at the previous end")
    ctx.check(got.left == exp_left, "rollback starts at the last start before its end")
    ctx.check(iff(got.closed == "both", exp_left == exp_right), "a single instant is closed on both sides")
    ctx.check(or_(got.closed == "both", got.closed == "left"), "rollback is left-closed otherwise")
    # consequence for users: the interval is never inverted and never ends after dt
    ctx.check(and_(got.left <= got.right, got.right <= dt), "rollback lies at or before dt")


# ---------------------------------------------------------------- month and year

def month_len(y0, m0, k):
    "days of the month k months after (y0, m0)"
    n = y0 * 12 + (m0 - 1) + k
    y, m = n // 12, n % 12
    return T.days_in(y, m + 1)


def year_len(y, k):
    yy = y + k
    leap = and_(yy % 4 == 0, or_(not_(yy % 100 == 0), yy % 400 == 0))
    return if_(leap, 366, 365), leap


class MonthCycles:
    span = 3

    def __init__(self, dt):
        u = T.us(dt)
        self.base = {0: dt - td((dt.day - 1) * DAY + u % DAY)}
        self.len = {k: month_len(dt.year, dt.month, k) for k in range(-self.span - 1, self.span + 2)}
        build_bases(self)

    def clip(self, k, pos):
        return if_(pos <= self.len[k] * DAY, pos, self.len[k] * DAY)


class YearCycles:
    span = 1

    def __init__(self, dt):
        u = T.us(dt)
        self.len, self.leap = {}, {}
        for k in range(-self.span - 1, self.span + 2):
            self.len[k], self.leap[k] = year_len(dt.year, k)
        pos = T.offset("TimeOfYear", dt)
        self.base = {0: dt - td(self.clip(0, pos))}
        build_bases(self)

    def clip(self, k, pos):
        "position on the 366-day axis -> microseconds from the start of year k (29 Feb has no length in a common year)"
        short = if_(pos <= 59 * DAY, pos, if_(pos <= 60 * DAY, 59 * DAY, pos - DAY))
        return if_(self.leap[k], pos, short)


def build_bases(c):
    for k in range(1, c.span + 2):
        c.base[k] = c.base[k - 1] + td(c.len[k - 1] * DAY)
    for k in range(-1, -c.span - 2, -1):
        c.base[k] = c.base[k + 1] - td(c.len[k] * DAY)


def occurrences(c, s, e, over):
    "the concrete intervals of the period in the neighbouring cycles, oldest first: (start, end, nonempty)"
    out = []
    for k in range(-c.span, c.span + 1):
        st = c.base[k] + td(c.clip(k, s))
        en = if_(over, c.base[k + 1] + td(c.clip(k + 1, e)), c.base[k] + td(c.clip(k, e)))
        out.append((st, en, st < en))
    return out


def first(items, default):
    "value of the first (cond, value) whose cond holds"
    r = default
    for cond, v in reversed(items):
        r = if_(cond, v, r)
    return r


def setup(ctx, cls):
    p, s, e = T.sym_period(ctx, cls)
    if cls is TimeOfYear:
        # a period lying entirely inside 29 February occurs only every 4-8 years: bounded harness below
        ctx.assume(not_(and_(s < e, s >= 59 * DAY, e <= 60 * DAY)))
    dt = ctx.datetime_civil("dt")
    return p, s, e, dt


CYC = {"TimeOfMonth": MonthCycles, "TimeOfYear": YearCycles}
PARTS = ["inside", "outside"]
SHAPES = ["plain", "over", "full"]


def shape_of(ctx, name, s, e, shape):
    full = T.is_full(name, s, e)
    if shape == "full":
        ctx.assume(full)
    elif shape == "over":
        ctx.assume(and_(not_(full), s > e))
    else:
        ctx.assume(and_(not_(full), s < e))


FLOAT_CASES = [(c, sh, part) for c in (TimeOfMonth, TimeOfYear) for sh in SHAPES for part in PARTS
               if not (sh == "full" and part == "outside")]


@harness("C03", FN_FLOAT, cases=FLOAT_CASES, samples=300)
def forward_floating(ctx, case):
    cls, shape, part = case
    name = cls.__name__
    p, s, e, dt = setup(ctx, cls)
    shape_of(ctx, name, s, e, shape)
    inside = T.member(name, s, e, dt)
    ctx.assume(inside if part == "inside" else not_(inside))
    got = p.rollforward(dt)
    occ = occurrences(CYC[name](dt), s, e, shape == "over" or (shape == "full" and s == e))
    exp_right = first([(and_(ne, en > dt), en) for st, en, ne in occ], dt)
    exp_left = dt if part == "inside" else first([(and_(ne, st > dt), st) for st, en, ne in occ], dt)
    ctx.check(got.left == exp_left, "rollforward starts at dt if inside, else at the next start")
    ctx.check(got.right == exp_right, "rollforward ends at the first end after dt")
    ctx.check(got.closed == "left", "rollforward is left-closed")


@harness("C03", FN_FLOAT, cases=FLOAT_CASES, samples=300)
def back_floating(ctx, case):
    cls, shape, part = case
    name = cls.__name__
    p, s, e, dt = setup(ctx, cls)
    shape_of(ctx, name, s, e, shape)
    inside = T.member(name, s, e, dt)
    ctx.assume(inside if part == "inside" else not_(inside))
    got = p.rollback(dt)
    occ = occurrences(CYC[name](dt), s, e, shape == "over" or (shape == "full" and s == e))[::-1]
    exp_right = dt if part == "inside" else first([(and_(ne, en <= dt), en) for st, en, ne in occ], dt)
    if shape == "full":
        exp_left = first([(and_(ne, st < dt), st) for st, en, ne in occ], dt)
    else:
        exp_left = first([(and_(ne, st <= dt), st) for st, en, ne in occ], dt)
    ctx.check(got.right == exp_right, "rollback ends at dt if inside, else at the previous end")
    ctx.check(got.left == exp_left, "rollback starts at the last start before its end")
    ctx.check(iff(got.closed == "both", exp_left == exp_right), "a single instant is closed on both sides")
    ctx.check(and_(got.left <= got.right, got.right <= dt), "rollback lies at or before dt")
