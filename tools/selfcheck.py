"""setup: the tools the checks need are there (nothing to build: the code of /repo is executed as it is)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=f"/repo:{HERE}:/opt/venv/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1")
r1 = subprocess.call(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, cvc5, rocketry, pyvc"], env=env)
env["PYTHONPATH"] = f"/repo:{HERE}"
r2 = subprocess.call(["/opt/venv/bin/python", "-c", "import rocketry, pyvc"], env=env)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.exit(r1 or r2)
