"""Concrete execution of harnesses (replay of counter-models, bounded stand-in).

Runs under the repository's own interpreter (/opt/venv) on the unmodified code
with ordinary Python values; no z3, no stand-ins.

    python -m pyvc.concrete replay FILE
    python -m pyvc.concrete sample PROP SEED SCALE  < json list of [harness, unit]
"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
from .ctx import REGISTRY, ReplayCtx, SampleCtx, AssumeFailed, ContractViolation, Unsupported, misfit  # noqa


def load(prop):
    importlib.import_module(f"specs.{prop.lower()}")
    return [h for h in REGISTRY if h.prop == prop]


class TooLong(BaseException):
    "one run of a harness did not end within its limit"


def _too_long(sig, frm):
    raise TooLong(f"signal {sig}")


CPU_LIMIT, WALL_LIMIT = 20.0, 90.0


def run_one(h, unit, ctx):
    """-> None if fine / 'skip' / (label, detail)"""
    signal.signal(signal.SIGVTALRM, _too_long)
    signal.signal(signal.SIGALRM, _too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        return _run_one(h, unit, ctx)
    except TooLong:
        return ("terminates", f"no result within {CPU_LIMIT} s of processor time")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_one(h, unit, ctx):
    try:
        h.run(ctx, unit)
        return None
    except AssumeFailed:
        return "skip"
    except Unsupported as e:
        return "skip"
    except ContractViolation as e:
        return (e.label, e.detail)
    except RecursionError as e:
        return ("no unexpected exception (RecursionError)", "RecursionError")
    except Exception as e:
        if misfit(e):
            return "skip"
        return (f"no unexpected exception ({type(e).__name__})", traceback.format_exc(limit=-6))


def replay(path):
    d = json.load(open(path))
    hs = [h for h in load(d["property"]) if h.name == d["harness"]]
    if not hs:
        print("harness not found")
        return 2
    h = hs[0]
    ctx = ReplayCtx(d.get("inputs") or {})
    r = run_one(h, d.get("unit"), ctx)
    if r is None or r == "skip":
        print(f"NOT-REPRODUCED ({'precondition not met' if r else 'contract held'})")
        return 0
    print(f"REPRODUCED obligation: {r[0]}\n{r[1]}")
    return 1


def sample(prop, seed, scale, units, budget=1e9):
    out = []
    hs = {h.name: h for h in load(prop)}
    for name, unit in units:
        h = hs[name]
        n = max(1, int(h.samples * scale))
        done = skip = checks = 0
        fails = []
        t0 = time.time()
        distinct = set()
        examples = []
        for k in range(n):
            if time.time() - t0 > budget:
                break
            rng = random.Random(f"{seed}/{name}/{unit}/{k}")
            ctx = SampleCtx(rng)
            r = run_one(h, unit, ctx)
            if r == "skip":
                skip += 1
                continue
            done += 1
            checks += ctx.checked
            key = json.dumps(ctx.inputs, sort_keys=True, default=str)
            distinct.add(hash(key))
            if len(examples) < 1:
                examples.append({"harness": h.unit_name(unit), "inputs": dict(ctx.inputs)})
            if r is not None:
                fails.append({"label": r[0], "detail": r[1], "inputs": dict(ctx.inputs)})
                if len(fails) >= 3 or r[0] == "terminates":
                    break
        out.append({"harness": name, "unit": unit, "runs": done, "skipped": skip, "checks": checks,
                    "distinct": len(distinct), "fails": fails, "examples": examples,
                    "secs": round(time.time() - t0, 2)})
    return out


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "sample":
        real_out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        units = json.load(sys.stdin)
        res = sample(sys.argv[2], sys.argv[3], float(sys.argv[4]), units,
                     float(sys.argv[5]) if len(sys.argv) > 5 else 1e9)
        sys.stdout = real_out
        json.dump(res, sys.stdout, default=str)
        sys.stdout.flush()
        os._exit(0)
