#!/opt/venv/bin/python
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

ENV = {
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(
    sys.executable
) != os.path.realpath(PY) or "/opt/venv" not in sys.prefix:
    if os.environ.get("VMON_REEXEC") != "1":
        os.environ.update(ENV)
        os.environ["VMON_REEXEC"] = "1"
        os.execv(PY, [PY, "-W", "ignore"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import core  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--selftest":
        core.import_repo()
        print("vmon: pydmd importable from /repo")
        os._exit(0)
    rc = core.main(sys.argv[1].upper(), sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
