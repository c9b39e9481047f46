#!/opt/venv/bin/python
"""check.py C01 [--replay FILE]: run one property check (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("PYTHONDONTWRITEBYTECODE"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-P"] + sys.argv)

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from vlib import boot  # noqa: E402,F401


def main() -> int:
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    mod = importlib.import_module("checks." + prop.lower())
    return mod.main(replay)


if __name__ == "__main__":
    sys.exit(main())
