"""C04 -- interval algebra."""
from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.pybox.time.interval import Interval

KINDS = ["left", "right", "both", "neither"]
P = "pybox/time/interval.py:Interval."


def inside(l, r, closed, x):
    lo = l <= x if closed in ("left", "both") else l < x
    hi = x <= r if closed in ("right", "both") else x < r
    return and_(lo, hi)


def nonempty(l, r, closed):
    "some instant of the microsecond grid lies in the interval (dense line: l < r)"
    return l <= r if closed == "both" else l < r


def draw(ctx, tag, kind="dt"):
    l = ctx.datetime(f"{tag}l") if kind == "dt" else ctx.int(f"{tag}l", -10**9, 10**9)
    r = ctx.datetime(f"{tag}r") if kind == "dt" else ctx.int(f"{tag}r", -10**9, 10**9)
    return l, r


@harness("C04", [P + "__contains__", P + "__post_init__"], cases=KINDS)
def contains(ctx, closed):
    l, r = draw(ctx, "a")
    x = ctx.datetime("x")
    ctx.assume(l <= r)
    ctx.check(iff(x in Interval(l, r, closed=closed), inside(l, r, closed, x)), "contains honours the closed sides")


@harness("C04", [P + "__post_init__"], cases=KINDS)
def inverted_rejected(ctx, closed):
    l, r = draw(ctx, "a")
    ctx.assume(l > r)
    try:
        Interval(l, r, closed=closed)
    except ValueError:
        ctx.check(True, "left > right is rejected")
        return
    ctx.fail("left > right is rejected")


@harness("C04", [P + "is_empty"], cases=KINDS)
def is_empty(ctx, closed):
    l, r = draw(ctx, "a")
    ctx.assume(l <= r)
    i = Interval(l, r, closed=closed)
    ctx.check(iff(i.is_empty, not_(nonempty(l, r, closed))), "is_empty")


@harness("C04", [P + "overlaps"], cases=[(a, b) for a in KINDS for b in KINDS])
def overlaps(ctx, case):
    "for non-empty intervals: overlaps <=> the intersection is non-empty on the time line"
    ca, cb = case
    al, ar = draw(ctx, "a")
    bl, br = draw(ctx, "b")
    ctx.assume(and_(nonempty(al, ar, ca), nonempty(bl, br, cb)))
    a, b = Interval(al, ar, closed=ca), Interval(bl, br, closed=cb)
    got = a.overlaps(b)
    # spec: max of lefts / min of rights with their closedness
    lc_a, lc_b = ca in ("left", "both"), cb in ("left", "both")
    rc_a, rc_b = ca in ("right", "both"), cb in ("right", "both")
    strict = and_(al < br, bl < ar)
    touch1 = and_(ar == bl, rc_a, lc_b)
    touch2 = and_(br == al, rc_b, lc_a)
    same_pt = and_(al == ar, bl == br, al == bl)
    ctx.check(iff(got, or_(strict, touch1, touch2, same_pt)), "overlaps iff a common instant exists")
    ctx.check(iff(b.overlaps(a), got), "overlaps is symmetric")


@harness("C04", [P + "__and__"], cases=[(a, b) for a in KINDS for b in KINDS])
def intersection(ctx, case):
    "x in (A & B) <=> x in A and x in B   (A, B overlapping)"
    ca, cb = case
    al, ar = draw(ctx, "a")
    bl, br = draw(ctx, "b")
    x = ctx.datetime("x")
    ctx.assume(and_(nonempty(al, ar, ca), nonempty(bl, br, cb)))
    a, b = Interval(al, ar, closed=ca), Interval(bl, br, closed=cb)
    ctx.assume(and_(al <= br, bl <= ar))
    c = a & b
    ctx.check(iff(inside(c.left, c.right, c.closed, x), and_(inside(al, ar, ca, x), inside(bl, br, cb, x))),
              "x in A&B iff x in A and x in B")
    d = b & a
    ctx.check(and_(c.left == d.left, c.right == d.right, c.closed == d.closed), "intersection is commutative")
