"""Mode-independent part: harness registry, logic helpers, concrete contexts.

A *harness* is a contract for functions of /repo, written once:

    requires   ctx.assume(...)      (and the ranges of ctx.int/datetime/...)
    call       the real function of rocketry (imported from /repo)
    ensures    ctx.check(cond, "name of the obligation")

It is run in three ways:
  * SymCtx      (pyvc.sym)  inputs are z3 terms; every path is explored and
                            every ctx.check becomes an obligation for the solver
  * ReplayCtx               inputs come from a counter-model
  * SampleCtx               inputs are drawn at random (bounded stand-in)
"""
import random
import datetime as _dt


class AssumeFailed(BaseException):
    "the drawn input does not satisfy the precondition"


class PathAbort(BaseException):
    "symbolic path ended (infeasible or assume(False))"


class Unsupported(BaseException):
    "the code left the fragment the verifier handles"


class ContractViolation(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


def misfit(e):
    """The harness (not the code's behaviour) no longer fits the code: a helper of rocketry that the harness calls directly
    was renamed or takes other arguments, or a stand-in lacks something.  -> reason or None.  Such a unit is undecided."""
    import traceback
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fname = last.tb_frame.f_code.co_filename.replace("\\", "/") if last is not None else ""
    in_spec = "/specs/" in fname
    if isinstance(e, AttributeError):
        obj = getattr(e, "obj", None)
        cls = obj if isinstance(obj, type) else type(obj)
        if getattr(cls, "_stub", False) and not in_spec:
            return f"stand-in lacks {e.name}"
        if in_spec and (str(getattr(cls, "__module__", "")).startswith(("rocketry", "specs")) or type(obj).__name__ == "module"):
            return f"harness does not fit the code: {e}"
    if isinstance(e, ImportError) and in_spec:
        return f"harness does not fit the code: {e}"
    if isinstance(e, TypeError) and in_spec and ("argument" in str(e)):
        return f"harness does not fit the code: {e}"
    return None


REGISTRY = []


class Harness:
    def __init__(self, prop, fn, functions, kind, cases, samples, name, notes, inductive,
                 max_paths, budget, tier, bound=None):
        self.bound = bound        # text: the proof holds within this stated bound only (never counted as proved)
        self.prop = prop
        self.fn = fn
        self.functions = functions
        self.kind = kind          # 'proof' or 'bounded'
        self.cases = cases
        self.samples = samples
        self.name = name
        self.notes = notes
        self.max_paths = max_paths
        self.budget = budget
        self.tier = tier
        self.inductive = inductive

    def units(self):
        if self.cases is None:
            return [None]
        return list(range(len(self.cases)))

    def unit_name(self, unit):
        if unit is None:
            return self.name
        return f"{self.name}[{case_label(self.cases[unit])}]"

    def run(self, ctx, unit):
        if unit is None:
            return self.fn(ctx)
        return self.fn(ctx, self.cases[unit])


def case_label(c):
    if isinstance(c, type):
        return c.__name__
    if isinstance(c, tuple):
        return ",".join(case_label(x) for x in c)
    return str(c)


def harness(prop, functions=(), kind="proof", cases=None, samples=200, name=None, notes="",
            max_paths=20000, budget=240.0, tier="quick", inductive=False, bound=None):
    def deco(fn):
        REGISTRY.append(Harness(prop, fn, tuple(functions), kind, cases, samples,
                                name or fn.__name__, notes, inductive, max_paths, budget, tier, bound))
        return fn
    return deco


# ---------------------------------------------------------------- logic

def _sym(x):
    return getattr(type(x), "_pyvc_symbolic", False)


def _z():
    from . import sym
    return sym


def and_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if any(_sym(x) for x in xs):
        if any((not _sym(x)) and not x for x in xs):
            return False
        return _z().sand([x for x in xs if _sym(x)])
    return all(bool(x) for x in xs)


def or_(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    if any(_sym(x) for x in xs):
        if any((not _sym(x)) and x for x in xs):
            return True
        return _z().sor([x for x in xs if _sym(x)])
    return any(bool(x) for x in xs)


def not_(x):
    if _sym(x):
        return _z().snot(x)
    return not x


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if _sym(a) or _sym(b):
        return _z().siff(a, b)
    return bool(a) == bool(b)


def eq_(a, b):
    return a == b


def if_(c, a, b):
    if _sym(c):
        return _z().site(c, a, b)
    return a if c else b


def min_(a, b):
    return if_(a <= b, a, b)


def max_(a, b):
    return if_(a >= b, a, b)


# ---------------------------------------------------------------- contexts

EPOCH = _dt.datetime(1970, 1, 1)
US = _dt.timedelta(microseconds=1)
DT_LO = _dt.datetime(1971, 1, 1)
DT_HI = _dt.datetime(2200, 1, 1)


def dt_to_us(d):
    return (d - EPOCH) // US


def us_to_dt(us):
    return EPOCH + _dt.timedelta(microseconds=us)


class BaseCtx:
    symbolic = False
    sampling = False

    def __init__(self):
        self.counts = {}
        self.inputs = {}
        self.checked = 0

    def uniq(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    # --- implemented on top of _draw
    def datetime(self, name, lo=DT_LO, hi=DT_HI):
        v = self._int(self.uniq(name), dt_to_us(lo), dt_to_us(hi), "dt")
        return us_to_dt(v)

    def datetime_civil(self, name, ylo=1971, yhi=2199):
        return self.datetime(name, _dt.datetime(ylo, 1, 1), _dt.datetime(yhi, 12, 31, 23, 59, 59, 999999))

    def timedelta(self, name, lo=_dt.timedelta(0), hi=_dt.timedelta(days=4000)):
        v = self._int(self.uniq(name), lo // US, hi // US, "td")
        return _dt.timedelta(microseconds=v)

    def int(self, name, lo=None, hi=None):
        return self._int(self.uniq(name), lo, hi, "int")

    def bool(self, name):
        return bool(self._int(self.uniq(name), 0, 1, "bool"))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._int(self.uniq(name), 0, len(options) - 1, "choice")
        return options[min(max(int(i), 0), len(options) - 1)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, detail=None):
        self.checked += 1
        if not cond:
            raise ContractViolation(label, "" if detail is None else str(detail() if callable(detail) else detail))

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def note(self, *a):
        pass

    def unsupported(self, why):
        raise Unsupported(why)


class ReplayCtx(BaseCtx):
    "inputs from a counter-model; anything missing gets the lowest legal value"

    def __init__(self, model):
        super().__init__()
        self.model = model

    def _int(self, name, lo, hi, kind):
        v = self.model.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        name = self.uniq(name)
        v = self.model.get(name)
        if v is None:
            v = lo if lo is not None else 0
        if isinstance(v, str):
            from fractions import Fraction
            v = float(Fraction(v))
        self.inputs[name] = v
        return v


_INTERESTING_UNITS = [1, 1000, 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6, 7 * 86400 * 10**6]


class SampleCtx(BaseCtx):
    "random inputs biased to boundaries"
    sampling = True

    def __init__(self, rng: random.Random):
        super().__init__()
        self.rng = rng
        self.pool_dt = []

    def _int(self, name, lo, hi, kind):
        r = self.rng
        if kind == "dt":
            v = self._draw_dt(lo, hi)
        elif kind == "td":
            u = r.choice(_INTERESTING_UNITS)
            v = u * r.randint(0, 12) + r.choice([0, 0, 0, 1, -1, r.randint(0, u)])
        else:
            l = lo if lo is not None else -50
            h = hi if hi is not None else l + 100
            if r.random() < 0.3 and h - l > 3:
                v = r.choice([l, l + 1, h, h - 1])
            elif h - l > 10**7 and r.random() < 0.6:
                u = r.choice([x for x in _INTERESTING_UNITS if x <= h - l])
                v = l + u * r.randint(0, (h - l) // u) + r.choice([0, 0, 1, -1])
            else:
                v = r.randint(l, h)
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        self.inputs[name] = v
        return v

    def _draw_dt(self, lo, hi):
        r = self.rng
        if self.pool_dt and r.random() < 0.6:
            base = r.choice(self.pool_dt)
            off = r.choice([0, 0, 1, -1]) + r.choice([0, 0] + _INTERESTING_UNITS) * r.randint(-2, 2)
            v = base + off
        else:
            y = r.choice([1975, 1999, 2000, 2001, 2019, 2020, 2021, 2022, 2023, 2024, 2100, r.randint(1972, 2199)])
            m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
            d = r.choice([1, 28, 29, 30, 31, r.randint(1, 31)])
            while True:
                try:
                    x = _dt.datetime(y, m, d)
                    break
                except ValueError:
                    d -= 1
            v = dt_to_us(x)
            k = r.random()
            if k < 0.3:
                pass
            elif k < 0.6:
                v += r.choice(_INTERESTING_UNITS[:5]) * r.randint(0, 59) + r.choice([0, 0, 1, -1])
            else:
                v += r.randint(0, 86400 * 10**6 - 1)
        v = min(max(v, lo), hi)
        self.pool_dt.append(v)
        return v

    def real(self, name, lo=None, hi=None):
        name = self.uniq(name)
        l = lo if lo is not None else -1000.0
        h = hi if hi is not None else l + 2000.0
        r = self.rng
        v = r.choice([l, h, r.uniform(l, h), float(r.randint(int(l) + 1, int(h))) if h - l > 2 else r.uniform(l, h)])
        self.inputs[name] = v
        return v
