"""Confirms a planted bug in a scratch copy and stores it under seeded/ (used by hand; no check reads seeded/).

    from tools.plant import plant
    plant("B01", "C01", [("rocketry/x.py", old, new)], demo_source, needs, what)
"""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
cd "${DEMO_REPO:-/repo}" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${DEMO_REPO:-/repo}" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def plant(id, prop, edits, demo, needs, what, tests=True):
    work = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    tree = os.path.join(work, "repo")
    try:
        sh(f"git -C /repo worktree prune; cp -a /repo {tree}")
        for f, old, new in edits:
            p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
            base = sh(f"git -C /repo show 166e0a7:{f}").stdout
            for line in old.splitlines():
                if line.strip() and line not in new.splitlines() and line.strip() not in base:
                    print(f"{id}: WARNING not an original line: {line}")
        diff = sh(f"git -C {tree} diff").stdout
        d = os.path.join(work, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ok = sh(f"bash {d}/demo.sh", env=dict(os.environ, DEMO_REPO="/repo"))
        bad = sh(f"bash {d}/demo.sh", env=dict(os.environ, DEMO_REPO=tree))
        if ok.returncode != 0 or bad.returncode == 0:
            print(f"{id}: DEMO WRONG clean={ok.returncode} patched={bad.returncode}\n{ok.stdout[-800:]}\n--\n{bad.stdout[-800:]}")
            return False
        if tests:
            out = os.path.join(work, "o.json")
            sh(f"cd {tree} && PYTHONPATH={tree} {PY} -m pytest -q -p no:cacheprovider --timeout=300 "
               f"--ignore=rocketry/test/session/test_control.py --ignore=rocketry/test/schedule/test_multilaunch.py "
               f"--ignore=rocketry/test/schedule/test_terminate.py --basetemp={work}/tmp -o junit_family=xunit2 "
               f"--junitxml={work}/junit.xml rocketry")
            sh(f"/usr/bin/python3 /opt/vp/results.py {out} junit:{work}/junit.xml")
            passed = set(json.load(open(out))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
            if miss:
                print(f"{id}: TESTS FAIL {len(miss)} {miss[:4]}")
                return False
        dst = os.path.join(HERE, "seeded", id)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), dst)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        print(f"{id}: planted ({prop})")
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)
