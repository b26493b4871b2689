"""Decides one property: proof units (symbolic), replay, bounded stand-ins, evidence."""
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = "/opt/venv/bin/python"
OUT = os.environ.get("PYVC_OUT", os.path.join(HERE, "out"))

from .ctx import REGISTRY, Unsupported  # noqa


def concrete_env():
    env = dict(os.environ)
    env["PYTHONPATH"] = f"/repo:{HERE}"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TZ"] = "UTC"
    env.pop("PYVC_CHILD", None)
    return env


# ------------------------------------------------------------- workers

def _alarm(sig, frm):
    raise Unsupported("time limit of the unit")


def prove_unit(args):
    idx, unit, opts = args
    from . import sym, shims
    h = REGISTRY[idx]
    t0 = time.time()
    ex = sym.Explorer(timeout_ms=opts["timeout_ms"], max_paths=h.max_paths,
                      budget=h.budget * opts["budget_scale"], cross_check=opts["cross"])
    err = None
    devnull = open(os.devnull, "w")
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, h.budget * opts["budget_scale"] + 60)
        ex.run(lambda ctx: h.run(ctx, unit))
    except Unsupported as e:
        ex.undecided("<unit>", str(e))
    except BaseException:
        err = traceback.format_exc(limit=-8)
        ex.undecided("<unit>", "verifier error: " + err.strip().splitlines()[-1])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = so, se
    return {"idx": idx, "unit": unit, "name": h.unit_name(unit), "harness": h.name,
            "paths": ex.paths, "aborted": ex.aborted, "queries": ex.queries,
            "solver_s": ex.solver_s, "obs": ex.obs, "refuted": ex.refutations,
            "undecided": ex.undecideds, "secs": time.time() - t0, "slowest": ex.slowest,
            "unknown_feas": ex.unknown_feas, "cross": ex.crosschecked, "cross_fail": ex.cross_fail,
            "error": err}


def start_samples(prop, seed, scale, units, jobs, budget):
    """sample the units in `jobs` processes of the repository's interpreter"""
    chunks = [units[i::jobs] for i in range(jobs)]
    procs = []
    for c in [c for c in chunks if c]:
        so, se = tempfile.TemporaryFile("w+"), tempfile.TemporaryFile("w+")
        p = subprocess.Popen([REPO_PY, "-m", "pyvc.concrete", "sample", prop, str(seed), str(scale), str(budget)],
                             stdin=subprocess.PIPE, stdout=so, stderr=se, env=concrete_env(), cwd=HERE, text=True)
        p.stdin.write(json.dumps(c))
        p.stdin.close()
        procs.append((p, c, so, se))
    return procs, time.time() + 420


def finish_samples(started):
    procs, deadline = started
    out = []
    for p, c, so, se in procs:
        bad = {"harness": str(c[0][0]), "unit": None, "runs": 0, "skipped": 0, "checks": 0, "distinct": 0, "fails": [], "examples": []}
        try:
            p.wait(timeout=max(5, deadline - time.time()))
            so.seek(0)
            out += json.loads(so.read())
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            out.append(dict(bad, error="timeout"))
        except Exception as e:
            se.seek(0)
            out.append(dict(bad, error=f"{e}: {se.read()[-2000:]}"))
        so.close()
        se.close()
    return out


def run_samples(*args):
    return finish_samples(start_samples(*args))


def prove_all(tasks, jobs, limit, report):
    """every unit in a process of its own, forked from this single-threaded one"""
    todo, live, results = list(reversed(tasks)), {}, []
    end = time.time() + limit

    def lost(task, why):
        idx, unit, _ = task
        h = REGISTRY[idx]
        return {"idx": idx, "unit": unit, "name": h.unit_name(unit), "harness": h.name, "paths": 0, "aborted": 0, "queries": 0,
                "solver_s": 0.0, "obs": {}, "refuted": [], "undecided": [("<unit>", why)], "secs": 0.0, "slowest": 0.0,
                "unknown_feas": 0, "cross": 0, "cross_fail": [], "error": None}
    while todo or live:
        while todo and len(live) < jobs:
            task = todo.pop()
            if time.time() > end:
                results.append(lost(task, "time limit of the check"))
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    data = pickle.dumps(prove_unit(task))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            h = REGISTRY[task[0]]
            live[r] = (pid, task, [], min(time.time() + h.budget * task[2]["budget_scale"] + 90, end + 30))
        if not live:
            continue
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            pid, task, buf, _ = live[fd]
            data = os.read(fd, 1 << 20)
            if data:
                buf.append(data)
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(b"".join(buf))
            except Exception:
                res = lost(task, "the process of the unit died")
            results.append(res)
            report(res)
        for fd, (pid, task, buf, until) in list(live.items()):
            if time.time() > until:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                res = lost(task, "time limit of the unit")
                results.append(res)
                report(res)
    return results


def write_replay(prop, n, data):
    d = os.path.join(OUT, prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"replay_{n}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def do_replay(path):
    try:
        r = subprocess.run([REPO_PY, "-m", "pyvc.concrete", "replay", path], env=concrete_env(), cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return r.returncode == 1, r.stdout[-3000:]
    except subprocess.TimeoutExpired:
        return False, "replay timed out"


def main(argv):
    prop = argv[0].upper()
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = os.environ.get("PYVC_VERBOSE")
    t0 = time.time()
    thorough = tier == "thorough"
    try:
        importlib.import_module(f"specs.{prop.lower()}")
        mod = sys.modules[f"specs.{prop.lower()}"]
        from . import shims
        shims.install()
    except BaseException:
        traceback.print_exc()
        print(f"ERROR: cannot load the code or the specification of {prop}")
        return 2
    hs = [(i, h) for i, h in enumerate(REGISTRY) if h.prop == prop and h.kind != "finding" and (thorough or h.tier == "quick")]
    if only:
        hs = [(i, h) for i, h in hs if only in h.name]
    opts = {"timeout_ms": 60000 if thorough else 15000, "budget_scale": 3.0 if thorough else 1.0, "cross": thorough}
    jobs = int(os.environ.get("PYVC_JOBS", "8"))

    tasks = [(i, u, opts) for i, h in hs if h.kind == "proof" for u in h.units()]
    scale = 10.0 if thorough else 1.0
    sample_units = [(h.name, u) for i, h in hs for u in h.units()]
    # the concrete side runs at the same time as the proofs
    def report(r):
        if verbose:
            print(f"  [{r['secs']:.1f}s] {r['name']} paths={r['paths']} obs={sum(sum(v.values()) for v in r['obs'].values())}"
                  f" refuted={len(r['refuted'])} undecided={r['undecided'][:3]} {r['error'] or ''}", flush=True)
    started = start_samples(prop, seed, scale, sample_units, max(2, jobs // 2), 240 if thorough else 60)
    results = prove_all(tasks, jobs, 5400 if thorough else 660, report)
    samples = finish_samples(started)

    violations = []
    undecided = []
    n = 0
    # 1. refuted obligations: replay on the real code
    for r in sorted(results, key=lambda r: r["name"]):
        seen = set()
        h = REGISTRY[r["idx"]]
        confirmed = False
        for label, inputs, note in r["refuted"]:
            n += 1
            data = {"property": prop, "harness": r["harness"], "unit": r["unit"], "unit_name": r["name"],
                    "obligation": label, "inputs": inputs, "verifier_output": note or "sat: counter-model in `inputs`",
                    "functions": h.functions,
                    "how": "python -m pyvc.concrete replay FILE (cwd /verif, PYTHONPATH=/repo:/verif, /opt/venv/bin/python)"}
            path = write_replay(prop, n, data)
            ok, text = do_replay(path)
            data["replay_output"] = text
            data["reproduced"] = ok
            write_replay(prop, n, data)
            if ok:
                confirmed = True
                violations.append((path, r["name"], label, True))
                break
            seen.add((label, path))
        if not confirmed and r["refuted"]:
            if getattr(h, "inductive", False):
                for label, path in sorted(seen)[:1]:
                    violations.append((path, r["name"], label, False))
            else:
                for label, path in sorted(seen):
                    undecided.append((r["name"], label, "counter-model did not reproduce on the real code (undecided)"))
        for label, why in r["undecided"]:
            undecided.append((r["name"], label, why))
        if not r["obs"] and not r["refuted"] and not r["undecided"]:
            undecided.append((r["name"], "<unit>", "no obligation was generated (vacuous)"))
    # 2. the concrete side
    for s in samples:
        for f in s["fails"]:
            n += 1
            data = {"property": prop, "harness": s["harness"], "unit": s["unit"], "obligation": f["label"],
                    "inputs": f["inputs"], "detail": f["detail"], "found_by": "bounded contract search"}
            path = write_replay(prop, n, data)
            violations.append((path, s["harness"], f["label"], True))
            break
        if s.get("error"):
            undecided.append((s["harness"], "<bounded>", s["error"][:600]))
    # 3. undecided proof units: deeper bounded search on those units
    und_units = sorted({(r["harness"], r["unit"]) for r in results
                        if r["undecided"] or (r["refuted"] and not any(v[1] == r["name"] for v in violations))},
                       key=str)
    extra = []
    if und_units and not violations and (thorough or time.time() - t0 < 500):
        extra = run_samples(prop, f"{seed}-deep", scale * 12, und_units, jobs, 120)
        for s in extra:
            for f in s["fails"]:
                n += 1
                path = write_replay(prop, n, {"property": prop, "harness": s["harness"], "unit": s["unit"],
                                              "obligation": f["label"], "inputs": f["inputs"], "detail": f["detail"],
                                              "found_by": "bounded contract search (after an undecided proof)"})
                violations.append((path, s["harness"], f["label"], True))
                break
    # 4. known findings
    kf_path = os.path.join(HERE, "known_findings.json")
    known = []
    if os.path.exists(kf_path):
        for k in json.load(open(kf_path)).get("known", []):
            if k["property"] != prop:
                continue
            n += 1
            path = write_replay(prop, n, {"property": prop, "harness": k["harness"], "unit": k.get("unit"),
                                          "inputs": k["inputs"], "obligation": k["what"]})
            ok, _ = do_replay(path)
            if ok:
                known.append(k)
                print(f"KNOWN-FINDING: property={prop} {k['what']}")

    obligations = discharged = within = 0
    backends = {}
    labels = []
    for r in results:
        for label, d in r["obs"].items():
            c = sum(d.values())
            if REGISTRY[r["idx"]].bound:
                within += c
                labels.append(f"[bounded: {REGISTRY[r['idx']].bound}] {r['name']}: {label} x{c}")
                continue
            obligations += c
            discharged += c
            labels.append(f"{r['name']}: {label} x{c}")
            for b, k in d.items():
                backends[b] = backends.get(b, 0) + k
        obligations += len(r["refuted"])
    obligations += sum(1 for u in undecided)
    functions = sorted({f for i, h in hs if h.kind == "proof" and not h.bound for f in h.functions})
    functions_b = sorted({f for i, h in hs if h.kind == "bounded" or h.bound for f in h.functions} - set(functions))
    spec = mod
    trusted = list(getattr(spec, "TRUSTED", [])) + COMMON_TRUSTED
    runs = sum(s["runs"] for s in samples + extra)
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"python3-vt run_check.py {prop}",
        "trusted_base": trusted,
        "discharged_by": backends,
        "discharged_within_a_bound_only": within,
        "stated_bounds": sorted({f"{h.name}: {h.bound}" for i, h in hs if h.bound}),
        "proof_units": len(results), "proof_units_fully_discharged":
            sum(1 for r in results if r["obs"] and not r["refuted"] and not r["undecided"]),
        "paths": sum(r["paths"] for r in results), "solver_queries": sum(r["queries"] for r in results),
        "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
        "slowest_obligation_seconds": round(max([r["slowest"] for r in results] or [0]), 2),
        "cvc5_cross_checked": sum(r["cross"] for r in results),
        "cvc5_disagreements": [x for r in results for x in r["cross_fail"]],
        "functions_under_contract": functions,
        "functions_only_bounded": functions_b,
        "obligation_names": sorted(labels)[:400],
        "undecided": [list(u) for u in undecided][:60],
        "bounded": {"evaluations": runs,
                    "distinct_nontrivial": sum(s["distinct"] for s in samples + extra),
                    "contract_checks": sum(s["checks"] for s in samples + extra),
                    "rule": "harness executed on the unmodified code with drawn inputs (seeded, biased to calendar and "
                            "interval boundaries); non-trivial = precondition met and inputs distinct",
                    "bounded_only_harnesses": [h.name for i, h in hs if h.kind == "bounded"],
                    "samples": [e for s in samples for e in s["examples"]][:5]},
    }
    level = getattr(spec, "LEVEL", "proof")
    if level != "proof":
        cov["evaluations"] = runs
        cov["distinct_nontrivial"] = cov["bounded"]["distinct_nontrivial"]
        cov["rule"] = cov["bounded"]["rule"]
        cov["samples"] = cov["bounded"]["samples"]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": list(getattr(spec, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print(f"{prop} {tier}: {discharged}/{obligations} obligations discharged {backends}, {within} more within a bound, {cov['paths']} paths, "
          f"{cov['solver_seconds']} s solver, {runs} bounded runs, {ev['wall_s']} s")
    for u in undecided[:12]:
        print(f"  UNDECIDED (bounded stand-in used): {u[0]}: {u[1]}: {str(u[2])[:300]}")
    if violations:
        violations.sort(key=lambda v: not v[3])
        for path, unit, label, ok in violations[:6]:
            print(f"  failed obligation: {unit}: {label}")
        done = set()
        for path, unit, label, ok in violations[:6]:
            if unit in done:
                continue
            done.add(unit)
            print(f"VIOLATION property={prop} replay={path}" + ("" if ok else " no-failing-input-found"))
        return 1
    if obligations == 0 and runs == 0:
        print("ERROR: nothing was checked")
        return 2
    if tasks and discharged + within == 0 and not undecided:
        print("ERROR: no obligation was generated")
        return 2
    return 0


COMMON_TRUSTED = [
    "CPython 3.12 executes the code of /repo itself (no model, no translation); the proxies of pyvc/sym.py implement the "
    "int/float/datetime/timedelta operations over z3 terms",
    "z3 (python3-vt z3-solver) for path feasibility and obligations; cvc5 for obligations z3 cannot decide and, in the "
    "thorough tier, as a cross-check",
    "stand-ins of pyvc/shims.py for int(), float(), timedelta(), datetime(), fromtimestamp, combine, monthrange, isleap, "
    "time.time when their argument is symbolic",
]
COMMON_ASSUMPTIONS = [
    "Python ints are mathematical integers (they are); floats are treated as exact reals",
    "datetimes are naive, TZ=UTC, between 1971 and 2200, and no result leaves datetime's range",
    "single-threaded execution of each function: interleavings are not modelled",
]
