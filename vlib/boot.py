"""Environment bootstrap: import the code under test from /repo's working tree, Hypothesis from the tool venv."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
sys.setrecursionlimit(3000)


class _NoNumpy:
    """The project does not depend on numpy; igraph would import it from the tools' path (0.4 s in every process)."""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "numpy":
            raise ModuleNotFoundError("No module named 'numpy'", name=name)


sys.meta_path.insert(0, _NoNumpy)

import explorerscript  # noqa: E402

assert os.path.realpath(explorerscript.__file__).startswith(os.path.realpath(REPO) + os.sep), explorerscript.__file__

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
PERF = "$PERFORMANCE_PROGRESS_LIST"
PERFS = [PERF, "$LOCAL", "LEVEL_1", "$progress_2"]  # what may be configured as that variable
import logging
logging.disable(logging.CRITICAL)
