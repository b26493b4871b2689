"""python3 tools/catch.py [ids]: applies each planted bug to /repo, runs its property's check, undoes it (used by hand)."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]) == b""
    r = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    t = time.time()
    try:
        o = subprocess.run([sys.executable, os.path.join(HERE, "run_check.py"), prop], stdout=subprocess.PIPE, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION") or "failed obligation" in l]
    print(i, prop, "CAUGHT" if o.returncode == 1 else f"MISSED rc={o.returncode}", f"{time.time() - t:.0f}s", *v[:2], sep=" | ", flush=True)
