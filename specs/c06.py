"""C06 -- cron expressions."""
import datetime
import itertools

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.time import Cron
from specs import timespec as T

FN = ["time/cron.py:Cron.__contains__", "time/cron.py:Cron.get_subperiod", "time/cron.py:Cron._get_period_from_expr",
      "core/time/anchor.py:AnchoredInterval.at", "core/time/anchor.py:AnchoredInterval.create_range",
      "core/time/anchor.py:AnchoredInterval.set_start", "core/time/anchor.py:AnchoredInterval.set_end",
      "core/time/anchor.py:AnchoredInterval.to_timepoint", "time/interval.py:TimeOfYear.to_timepoint",
      "time/interval.py:*.anchor_int", "time/interval.py:*.anchor_str", "core/time/base.py:All.__contains__",
      "core/time/base.py:Any.__contains__", "core/time/anchor.py:AnchoredInterval.__contains__"]
ASSUMPTIONS = ["cron expressions are strings, so they are enumerated (each is proved for every instant); lists, and the "
               "combination of the five fields, over representative expressions",
               "instants with a month restriction: not the last microsecond of a day (month periods end one microsecond early, see known_findings.json)",
               "'n/step' (a step on a single value) and the day-of-week range 0-7 are left out"]
TRUSTED = ["specs/c06.py:values -- the meaning of a cron field"]

MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = ["sun", "mon", "tue", "wed", "thu", "fri", "sat"]
FIELDS = ["minute", "hour", "day_of_month", "month", "day_of_week"]
LIMITS = {"minute": (0, 59), "hour": (0, 23), "day_of_month": (1, 31), "month": (1, 12), "day_of_week": (0, 6)}


def number(field, s):
    s = s.lower()
    if field == "month" and s in MONTHS:
        return MONTHS.index(s) + 1
    if field == "day_of_week" and s in DAYS:
        return DAYS.index(s)
    n = int(s)
    return 0 if field == "day_of_week" and n == 7 else n


def values(field, expr):
    "the set of values a cron field stands for (None: every value)"
    lo, hi = LIMITS[field]
    everything = list(range(lo, hi + 1))
    out = set()
    for part in expr.split(","):
        rng, _, step = part.partition("/")
        step = int(step) if step else 1
        if rng == "*":
            seq = everything
        elif "-" in rng:
            a, b = (number(field, x) for x in rng.split("-"))
            n = hi - lo + 1
            seq = [lo + (a - lo + i) % n for i in range((b - a) % n + 1)]
        else:
            seq = [number(field, rng)]
        out |= set(seq[::step])
    return out


# (position on the clock, length of one value, number of the first value)
CLOCK = {"minute": ("TimeOfHour", T.MIN), "hour": ("TimeOfDay", T.HOUR), "day_of_week": ("TimeOfWeek", T.DAY)}


def runs_of(vs):
    runs = []
    for x in sorted(vs):
        if runs and runs[-1][1] == x - 1:
            runs[-1][1] = x
        else:
            runs.append([x, x])
    return runs


def in_field(field, vs, dt):
    "the value of dt in this field is one of vs"
    if field in CLOCK:
        # value k: the offset in the hour/day/week lies in [k * unit, (k + 1) * unit)
        name, unit = CLOCK[field]
        if field == "day_of_week":
            vs = {(v - 1) % 7 for v in vs}            # the week of the offset starts on Monday
        o = T.offset(name, dt)
        return or_([and_(a * unit <= o, o < (b + 1) * unit) for a, b in runs_of(vs)] or [False])
    v = dt.day if field == "day_of_month" else dt.month
    return or_([v == a if a == b else and_(a <= v, v <= b) for a, b in runs_of(vs)] or [False])


def restricted(expr):
    return "*" not in expr.split(",")


def matches(exprs, dt):
    m = {f: (True if e == "*" else in_field(f, values(f, e), dt)) for f, e in exprs.items()}
    dom, dow = restricted(exprs.get("day_of_month", "*")), restricted(exprs.get("day_of_week", "*"))
    date = [m.get("day_of_month", True), m.get("day_of_week", True)]
    date = or_(date) if dom and dow else and_(date)
    return and_(m.get("minute", True), m.get("hour", True), m.get("month", True), date)


def instant(ctx, fields):
    if "month" in fields or "day_of_month" in fields:
        dt = ctx.datetime("dt") if ctx.sampling else ctx.datetime_civil("dt")
    else:
        dt = ctx.datetime("dt")
    if "month" in fields:
        # the month periods end one microsecond early (known finding)
        ctx.assume(not_(T.us(dt) % T.DAY == T.DAY - 1))
    return dt


def names(field):
    lo, hi = LIMITS[field]
    return [str(i) for i in range(lo, hi + 1)]


def exprs_at(field):
    e = names(field)
    if field == "month":
        e += MONTHS + ["JAN", "Sep"]
    if field == "day_of_week":
        e += DAYS + ["7", "SUN", "Mon"]
    return e


def exprs_range(field, full):
    n = names(field)
    lo, hi = LIMITS[field]
    pairs = list(itertools.product(range(lo, hi + 1), repeat=2))
    if not full and len(pairs) > 200:
        edge = {lo, lo + 1, (lo + hi) // 2, hi - 1, hi}
        pairs = [p for p in pairs if p[0] in edge and p[1] in edge] + [(lo + 3, lo + 9), (lo + 9, lo + 3)]
    e = [f"{a}-{b}" for a, b in pairs]
    if field == "day_of_week":
        e = [x for x in e] + [f"{a}-7" for a in range(1, 8)] + [f"7-{a}" for a in range(1, 7)]
        e += [f"{a}-{b}" for a in DAYS for b in DAYS]
    if field == "month":
        e += [f"{a}-{b}" for a in MONTHS for b in MONTHS if full or a in ("jan", "feb", "dec") or b in ("feb", "dec")]
    return e


def exprs_step(field, full):
    lo, hi = LIMITS[field]
    return [f"*/{k}" for k in range(1, hi + 2) if full or hi < 13 or k in (1, 2, 3, 5, 6, 7, 10, 12, 15, 20, 29, 30, 31, 45, hi, hi + 1)]


def exprs_stepped_range(field, full):
    lo, hi = LIMITS[field]
    mid = (lo + hi) // 2
    pts = sorted({lo, lo + 1, mid, hi - 1, hi}) if not full else sorted({lo, lo + 1, lo + 2, mid, mid + 1, hi - 2, hi - 1, hi})
    ks = ([2, 3] if hi < 13 else [7]) if not full else [1, 2, 3, 4, 5, 7]
    e = [f"{a}-{b}/{k}" for a in pts for b in pts for k in ks]
    if field == "month":
        e += ["jan-dec/2", "feb-aug/3", "nov-mar/2"]
    if field == "day_of_week":
        e += ["tue-fri/2", "sat-wed/2", "mon-sun/3", "1-7/2", "5-7/2", "sun-sat/2"]
    return e


def exprs_list(field, full):
    lo, hi = LIMITS[field]
    mid = (lo + hi) // 2
    e = [f"{lo},{hi}", f"{hi},{lo},{mid}", f"{lo}-{lo+1},{mid},{hi-1}-{hi}", f"{hi},*/{(hi-lo)//2 or 1}", f"{mid},*",
         f"*,{lo}", f"{lo}-{hi}", f"{mid}-{hi}/2,{lo}"]
    if field == "month":
        e += ["jan,jun-jul,12"]
    if field == "day_of_week":
        e += ["sun,wed,5", "mon-tue,6-7"]
    return e


def chunk(xs, n):
    return [tuple(xs[i:i + n]) for i in range(0, len(xs), n)]


def expr_cases(full):
    out = []
    for f in FIELDS:
        for maker in (lambda f, full: exprs_at(f), exprs_range, exprs_step, exprs_stepped_range, exprs_list):
            for c in chunk(maker(f, full), 6 if f in ("month", "day_of_month") else 12):
                out.append((f, c))
    return out


def check_field(ctx, case):
    "dt in Cron(field=expr)  <=>  the field's value of dt is one of the values of expr"
    field, exprs = case
    expr = ctx.choice("expr", exprs)
    dt = instant(ctx, [field])
    got = dt in Cron(**{field: expr})
    ctx.check(iff(got, matches({field: expr}, dt)), f"membership in {field} expression")


field_quick = harness("C06", FN, cases=expr_cases(False), samples=25, name="field", max_paths=60000)(check_field)
field_all = harness("C06", FN, cases=expr_cases(True), samples=4, name="field_all", tier="thorough", max_paths=100000)(check_field)

COMBOS = ["30 12 * * *", "* 2 * * *", "0 0 1 1 *", "15,30 18-22 20 oct *", "15 18-22 20 oct mon", "*/15 9-17 * * mon-fri",
          "0 0 31 * 0", "0 12 29 feb *", "59 23 31 12 *", "* * 13 * 5", "0 */6 */5 * *", "10 22-4 * nov-feb 6-7",
          "*/20 * 1-7 3 *", "5 4 * * sun", "0 0 */10 */3 2", "* * 30 2 *", "* * 30 2 tue", "0 0 *,15 * 1", "* * 5 * 2,*", "*,3 *,4 *,5 *,6 *,0", "0 0 1,* 5 *,mon"]


@harness("C06", FN, cases=COMBOS, samples=150, max_paths=60000)
def combined(ctx, case):
    "all five fields at once; both day fields given: either suffices"
    exprs = dict(zip(FIELDS, case.split()))
    dt = instant(ctx, ["month"] if exprs["month"] != "*" else (["day_of_month"] if exprs["day_of_month"] != "*" else []))
    ctx.check(iff(dt in Cron(*case.split()), matches(exprs, dt)), "membership in the five-field expression")


# ------------------------------------------------------------------ bounded: random expressions and rolls

def random_part(ctx, field):
    lo, hi = LIMITS[field]
    kind = ctx.choice("kind", ["*", "*", "n", "n", "range", "range", "step", "srange", "list", "name"])
    n = lambda: str(ctx.int("n", lo, hi))
    if kind == "*":
        return "*"
    if kind == "name" and field in ("month", "day_of_week"):
        voc = MONTHS if field == "month" else DAYS
        return ctx.choice("name", voc + [f"{a}-{b}" for a in voc for b in voc])
    if kind == "range":
        return f"{n()}-{n()}"
    if kind == "step":
        return f"*/{ctx.int('k', 1, hi)}"
    if kind == "srange":
        return f"{n()}-{n()}/{ctx.int('k', 1, hi)}"
    if kind == "list":
        return ",".join([n(), n(), f"{n()}-{n()}"][:ctx.int("ln", 2, 3)])
    return n()


def date_ok(exprs, day):
    dom, dow, month = (values(f, exprs[f]) for f in ("day_of_month", "day_of_week", "month"))
    if day.month not in month:
        return False
    a, b = day.day in dom, (day.isoweekday() % 7) in dow
    return (a or b) if restricted(exprs["day_of_month"]) and restricted(exprs["day_of_week"]) else (a and b)


def minute_of(dt):
    return dt.replace(second=0, microsecond=0)


def scan(exprs, start, step):
    "first matching minute at or after (step=1) / at or before (step=-1) the minute `start`"
    M, H = sorted(values("minute", exprs["minute"])), sorted(values("hour", exprs["hour"]))
    slots = [(h, m) for h in H for m in M]
    if step < 0:
        slots.reverse()
    day = datetime.datetime(start.year, start.month, start.day)
    for k in range(366 * 3):
        if date_ok(exprs, day):
            for h, m in slots:
                x = day.replace(hour=h, minute=m)
                if (x >= start if step > 0 else x <= start):
                    return x
        day += datetime.timedelta(days=step)
    return None


@harness("C06", FN, kind="bounded", samples=1200)
def random_membership(ctx):
    exprs = {f: random_part(ctx, f) for f in FIELDS}
    dt = ctx.datetime("dt", datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1))
    dt = dt.replace(microsecond=min(dt.microsecond, 999998))
    want = date_ok(exprs, dt) and dt.hour in values("hour", exprs["hour"]) and dt.minute in values("minute", exprs["minute"])
    ctx.check((dt in Cron(**exprs)) == want, "membership of a random expression", lambda: (exprs, dt))


@harness("C06", ["time/cron.py:Cron.rollforward", "time/cron.py:Cron.rollback"], kind="bounded", samples=500)
def random_rolls(ctx):
    """rollforward/rollback of random expressions against an enumeration of minutes (bounded: three years ahead/back)"""
    exprs = {f: random_part(ctx, f) for f in FIELDS}
    dt = ctx.datetime("dt", datetime.datetime(1995, 1, 1), datetime.datetime(2090, 1, 1))
    dt = dt.replace(microsecond=min(dt.microsecond, 999998))
    us, minute = datetime.timedelta(microseconds=1), datetime.timedelta(minutes=1)
    cur = minute_of(dt)
    nxt = scan(exprs, cur, 1)
    cron = Cron(**exprs)
    if nxt is not None:
        f = cron.rollforward(dt)
        want = max(dt, nxt)
        ctx.check(f.left == want, "rollforward starts at the first matching instant", lambda: (exprs, dt, f, want))
        ctx.check(nxt + minute - us <= f.right <= nxt + minute, "rollforward ends with that minute", lambda: (exprs, dt, f, want))
    # back: the last matching minute that started before dt
    prv = scan(exprs, cur if dt > cur else cur - minute, -1)
    if prv is not None:
        b = cron.rollback(dt)
        ctx.check(b.left == prv, "rollback starts at the last matching minute begun before dt", lambda: (exprs, dt, b, prv))
        end = min(dt, prv + minute)
        ctx.check(end - us <= b.right <= end, "rollback ends with that minute or at dt", lambda: (exprs, dt, b, prv))
