"""C08 -- combined and compared conditions."""
import itertools
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.core import BaseCondition
from rocketry.core.condition import All, Any, Not, AlwaysTrue, AlwaysFalse
from rocketry.core.condition.base import BaseComparable
from rocketry.conditions import ParamExists, IsEnv
from rocketry.conditions.func import FuncCond
from rocketry.args import Session as SessionArg, Task as TaskArg, Arg
from specs.world import World, Clock, drive

B = "core/condition/base.py:"
FN = [B + "BaseCondition." + m for m in ("observe", "__and__", "__or__", "__invert__")] + \
     [B + c + ".observe" for c in ("Any", "All", "Not", "AlwaysTrue", "AlwaysFalse")] + [B + "Any.__init__", B + "All.__init__", B + "Not.__init__", B + "Not.__invert__"]
TRUSTED = ["specs/world.py: clock"]
ASSUMPTIONS = ["conditions given as operands answer an arbitrary boolean (structural induction: what they are built of does not matter)"]
FIXED = datetime.datetime(2022, 1, 1)


class Leaf(BaseCondition):
    "an arbitrary condition; remembers the context it was observed in"

    def __init__(self, state, tag=""):
        self.state, self.tag, self.contexts = state, tag, []

    def observe(self, **kw):
        self.contexts.append(kw)
        return self.state

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __str__(self):
        return self.tag


class Plain(BaseCondition):
    "an arbitrary condition defined by get_state with the documented arguments"

    def __init__(self, state, tag=""):
        self.state, self.tag, self.contexts = state, tag, []

    def get_state(self, session=SessionArg(), task=TaskArg()):
        self.contexts.append(dict(session=session, task=task))
        return self.state

    def __str__(self):
        return self.tag

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


SHAPES = ["leaf", "plain", "all", "any", "not", "true", "false", "all1", "nested"]


def operand(ctx, shape, name, leaves):
    "-> condition, its boolean meaning"
    def leaf(k=""):
        b = ctx.bool(name + k)
        x = (Plain if shape == "plain" else Leaf)(b, name + k)
        leaves.append(x)
        return x, b
    if shape in ("leaf", "plain"):
        return leaf()
    if shape == "true":
        return AlwaysTrue(), True
    if shape == "false":
        return AlwaysFalse(), False
    if shape == "not":
        x, b = leaf()
        return Not(x), not_(b)
    if shape == "all1":
        x, b = leaf()
        return All(x), b
    (x, a), (y, b) = leaf(".1"), leaf(".2")
    if shape == "all":
        return All(x, y), and_(a, b)
    if shape == "any":
        return Any(x, y), or_(a, b)
    z, c = leaf(".3")
    return Not(Any(All(x, Not(y)), z)), not_(or_(and_(a, not_(b)), c))


def subs(c):
    return list(c.subconditions) if hasattr(c, "subconditions") else None


@harness("C08", FN, cases=[(op, x, y) for op in "&|" for x in SHAPES for y in SHAPES], samples=25)
def binary(ctx, case):
    """ensures  (a & b).observe(ctx) <=> a and b, (a | b) <=> a or b, (~...) <=> not ...; the operands are as before"""
    op, s1, s2 = case
    leaves = []
    a, va = operand(ctx, s1, "a", leaves)
    b, vb = operand(ctx, s2, "b", leaves)
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = w.task("t")
    before = subs(a), subs(b)
    c = (a & b) if op == "&" else (a | b)
    want = and_(va, vb) if op == "&" else or_(va, vb)
    n = ~c
    kw = dict(task=t, session=w.session)
    ctx.check(iff(c.observe(**kw), want), "the combination is true exactly when logic says so")
    for x in leaves:
        for k in x.contexts:
            ctx.check(k.get("task") is t and k.get("session") is w.session, "the parts are observed in the same context")
    ctx.check(iff(n.observe(**kw), not_(want)), "the negation is true exactly when the condition is not")
    ctx.check(iff((~n).observe(**kw), want), "negating twice gives the condition back")
    ctx.check(iff(bool(c) if all(isinstance(x, Leaf) for x in leaves) else want, want), "the truth value is the observed state")
    ctx.check(iff(a.observe(**kw), va), "the left operand is as before")
    ctx.check(iff(b.observe(**kw), vb), "the right operand is as before")
    ctx.check(before == (subs(a), subs(b)), "the operands' parts are as before")
    c2 = (c & b) if op == "|" else (c | b)
    want2 = and_(want, vb) if op == "|" else or_(want, vb)
    ctx.check(iff(c2.observe(**kw), want2), "a combination can be combined further")
    ctx.check(iff(c.observe(**kw), want), "and stays as it was")
    again = (a & b) if op == "&" else (a | b)
    again = (again & again) if op == "&" else (again | again)
    ctx.check(iff(again.observe(**kw), want), "repeating a part changes nothing")


@harness("C08", FN, cases=[(x, how) for x in SHAPES for n in (1, 2, 3, 4) for how in itertools.product("N~", repeat=n)], samples=4, bound="up to four negations of one condition")
def negations(ctx, case):
    """negations of negations, by Not or ~"""
    shape, how = case
    leaves = []
    c, want = operand(ctx, shape, "a", leaves)
    orig, v = c, want
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    kw = dict(task=w.task("t"), session=w.session)
    made = []
    for h in how:
        c, want = Not(c) if h == "N" else ~c, not_(want)
        made.append((c, want))
    for x, b in [(orig, v)] + made:
        ctx.check(iff(x.observe(**kw), b), "each negation is true exactly when the condition is not")


@harness("C08", FN, cases=[(c, n) for c in ("All", "Any") for n in (1, 2, 3, 4, 5)], samples=60, bound="1 to 5 operands at once")
def many(ctx, case):
    kind, n = case
    vs = [ctx.bool(f"v{i}") for i in range(n)]
    ls = [Leaf(v, str(i)) for i, v in enumerate(vs)]
    c = (All if kind == "All" else Any)(*ls)
    want = and_(*vs) if kind == "All" else or_(*vs)
    ctx.check(iff(c.observe(), want), "all/any of the operands")
    chain = ls[0]
    for x in ls[1:]:
        chain = (chain & x) if kind == "All" else (chain | x)
    ctx.check(iff(chain.observe(), want), "a chain of operators")
    ctx.check(iff(Not(c).observe(), not_(want)), "and its negation")


class Measured(BaseComparable):
    def __init__(self, value):
        self.value = value
        super().__init__()

    def get_measurement(self):
        return self.value

    def __str__(self):
        return "measured"


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
MIRROR = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
CFN = [B + "BaseComparable." + m for m in ("observe", "get_state", "_set_comparison", "__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__", "from_magic")]


def value(ctx, kind, name):
    return ctx.int(name, -10**6, 10**6) if kind == "int" else ctx.real(name, -1000, 1000)


@harness("C08", CFN, cases=[(a, b, k) for a in [None] + list(OPS) for b in [None] + list(OPS)
                            for k in ("int/int", "int/real", "real/int", "real/real") if not (a is None and b is not None)], samples=15)
def compared(ctx, case):
    """ensures  a compared condition is true exactly when every comparison holds for the measured value; the condition it was
    made from keeps its own comparisons"""
    o1, o2, kinds = case
    km, kb = kinds.split("/")
    m = value(ctx, km, "m")
    x, y = value(ctx, kb, "x"), value(ctx, kb, "y")
    base = Measured(m)
    kw = {}
    ctx.check(iff(base.observe(**kw), m > 0), "uncompared: above zero")
    if o1 is None:
        return
    c = OPS[o1](base, x)
    ctx.check(iff(c.observe(**kw), OPS[o1](m, x)), "true exactly when the comparison holds")
    ctx.check(iff(base.observe(**kw), m > 0), "the condition it was made from is as before")
    ctx.check(isinstance(c, Measured), "a comparison is a condition of its kind")
    if o2 is None:
        ctx.check(iff(OPS[MIRROR[o1]](x, base).observe(**kw), OPS[o1](m, x)) if o1 not in ("==", "!=") else True, "also written the other way round")
        return
    d = OPS[o2](c, y)
    want = OPS[o2](m, y) if o1 == o2 else and_(OPS[o1](m, x), OPS[o2](m, y))
    ctx.check(iff(d.observe(**kw), want), "true exactly when both comparisons hold (the latter of the same kind counts)")
    ctx.check(iff(c.observe(**kw), OPS[o1](m, x)), "the first comparison is as before")
    e = OPS[o2](base, y)
    ctx.check(iff(e.observe(**kw), OPS[o2](m, y)), "comparisons made from the same condition are independent")
    ctx.check(iff((d & ~e).observe(**kw), and_(want, not_(OPS[o2](m, y)))), "comparisons combine")


class Items(BaseComparable):
    def __init__(self, items):
        self.items = items
        super().__init__()

    def get_measurement(self):
        return self.items

    def __str__(self):
        return "items"


@harness("C08", CFN, cases=[0, 1, 2, 3], samples=20, bound="collections of 0 to 3 items")
def counted(ctx, n):
    "a measured collection counts as the number of its items"
    k = ctx.int("k", -5, 10)
    for mk in (list, tuple, dict.fromkeys):
        c = Items(mk(range(n)))
        ctx.check(iff(c.observe(), n > 0), "uncompared: not empty")
        for o in OPS:
            ctx.check(iff(OPS[o](c, k).observe(), OPS[o](n, k)), "the number of items compares so")


@harness("C08", ["conditions/func.py:FuncCond." + m for m in ("observe", "get_state", "__call__", "_recreate")], samples=60,
         cases=["plain", "session", "task", "both", "args", "kwargs", "mixed", "decorated"])
def function(ctx, form):
    """ensures  a function condition gives the function's answer, called with its arguments and the session and task observed"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = w.task("t")
    ans = ctx.bool("answer")
    calls = []
    if form in ("plain", "decorated"):
        def f():
            calls.append(())
            return ans
    elif form == "session":
        def f(session=SessionArg()):
            calls.append((session,))
            return ans
    elif form == "task":
        def f(task=TaskArg()):
            calls.append((task,))
            return ans
    elif form == "both":
        def f(s=SessionArg(), x=TaskArg()):
            calls.append((s, x))
            return ans
    elif form == "mixed":
        def f(a, b=None, s=SessionArg()):
            calls.append((a, b, s))
            return ans
    else:
        def f(a, b=None):
            calls.append((a, b))
            return ans
    if form == "decorated":
        c = FuncCond()(f)
    else:
        c = FuncCond(f)
    base = c
    if form == "args":
        c = base(1, 2)
    if form == "kwargs":
        c = base(a=1, b=2)
    if form == "mixed":
        c = base(1, b=2)
    other = base(7) if form in ("args", "kwargs", "mixed") else None
    ctx.check(iff(c.observe(task=t, session=w.session), ans), "the function's answer is the state")
    want = {"plain": (), "decorated": (), "session": (w.session,), "task": (t,), "both": (w.session, t), "args": (1, 2), "kwargs": (1, 2),
            "mixed": (1, 2, w.session)}[form]
    ctx.check(len(calls) == 1 and len(calls[0]) == len(want) and all(p is q or p == q for p, q in zip(calls[0], want)),
              "the function is called once, with its arguments", lambda: calls)
    ctx.check(iff((~c & AlwaysTrue()).observe(task=t, session=w.session), not_(ans)), "also as a part of a schedule")
    ctx.check(tuple(base.args) == () and dict(base.kwargs) == {}, "giving arguments does not change the condition they are given to")


@harness("C08", ["conditions/parameter.py:ParamExists.get_state", "conditions/parameter.py:IsEnv.get_state"], samples=120)
def parameters(ctx):
    """ensures  parameter and environment conditions tell whether the session has the parameters (with the values)"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = w.task("t")
    has = {}
    for k in ("a", "b"):
        h = ctx.choice("has " + k, [False, True])
        if h:
            has[k] = ctx.int("value " + k, -3, 3)
            w.session.parameters[k] = has[k]
    env = ctx.choice("env", [None, "test", "prod"])
    if env is not None:
        w.session.parameters["env"] = env
    kw = dict(task=t, session=w.session) if ctx.choice("context", ["task", "session"]) == "task" else dict(session=w.session)
    ctx.check(iff(ParamExists("a").observe(**kw), "a" in has), "a parameter exists")
    ctx.check(iff(ParamExists("a", "b").observe(**kw), "a" in has and "b" in has), "all of the parameters exist")
    v = ctx.int("v", -3, 3)
    ctx.check(iff(ParamExists(a=v).observe(**kw), and_("a" in has, has["a"] == v) if "a" in has else False), "a parameter has a value")
    ctx.check(iff(ParamExists("b", a=v).observe(**kw), and_("b" in has, has["a"] == v) if "a" in has else False), "both")
    ctx.check(iff((ParamExists("a") & ~ParamExists("b")).observe(**kw), "a" in has and "b" not in has), "as a part of a schedule")
    for e in ("test", "prod"):
        ctx.check(iff(IsEnv(e).observe(**kw), env == e), "the environment is the given one")


@harness("C08", [B + "BaseComparable.observe", B + "BaseComparable.get_state", B + "BaseComparable._is_any_over_zero", B + "BaseComparable._is_equal_zero"], cases=[(k, f) for k in ("started", "failed", "finished", "running", "cycles") for f in (False, True)], samples=1,
         bound="measures up to 4, up to two comparisons with 0 to 3")
def real_measures(ctx, case):
    """the package's own measured conditions answer as their comparisons say, also when they take a shorter way"""
    import itertools
    import operator
    from rocketry.conditions import TaskStarted, TaskFailed, TaskFinished, TaskRunning, SchedulerCycles
    from specs.world import feed, stamp, make_run, run_stack
    kind, from_logs = case
    OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
    for n in range(5):
        w = World(ctx, clock=Clock(ctx, fixed=FIXED), force_status_from_logs=from_logs)
        t = w.task("t")
        for i in range(n):
            at = stamp(FIXED) - 100 + i
            if kind == "running":
                run_stack(t).append(make_run("thread", True, at, [], run_id=str(i)))
                feed(t, "run", at, run_id=str(i))
            elif kind == "finished":
                feed(t, ("success", "fail", "terminate")[i % 3], at, run_id=str(i))
            else:
                feed(t, {"started": "run", "failed": "fail", "cycles": "run"}[kind], at, run_id=str(i))
        w.scheduler.n_cycles = n
        make = {"started": lambda: TaskStarted(task="t"), "failed": lambda: TaskFailed(task="t"), "finished": lambda: TaskFinished(task="t"),
                "running": lambda: TaskRunning(task="t"), "cycles": SchedulerCycles}[kind]
        ctx.check(make().observe(session=w.session, task=t, scheduler=w.scheduler) == (n > 0), "uncompared: above zero", f"{kind} {n}")
        for (a, b) in itertools.product(OPS, repeat=2):
            for x, y in itertools.product(range(4), repeat=2):
                if a == b and x != y:
                    continue
                c = OPS[a](make(), x)
                if a != b:
                    c = OPS[b](c, y)
                ctx.check(bool(c.observe(session=w.session, task=t, scheduler=w.scheduler)) == (OPS[a](n, x) and OPS[b](n, y)),
                          "true exactly when all its comparisons hold", f"{n} {a} {x} and {b} {y}")
