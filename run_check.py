#!/usr/bin/env python3
"""run_check.py C01   -- decide one property on /repo's current working tree.

Re-executes itself under the interpreter that has both the solvers and the
repository's dependencies; see DESIGN.md.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
ENV = {
    "PYTHONPATH": f"/repo:{HERE}:/opt/venv/lib/python3.12/site-packages",
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC",
    "PYVC_CHILD": "1",
}
if os.environ.get("PYVC_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    os.chdir(HERE)
    py = PY if os.path.exists(PY) else "/usr/local/bin/python3-vt"
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

from pyvc.runner import main  # noqa
sys.exit(main(sys.argv[1:]))
