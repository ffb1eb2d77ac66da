#!/opt/venv/bin/python
"""check.py CXX [--tier quick|thorough] [--only contract ...]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONUTF8") != "1" or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONUTF8"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

from pyvc import runner  # noqa: E402


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1:] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return runner.main(prop, tier, seed, os.path.join(HERE, "evidence"), only)


if __name__ == "__main__":
    sys.exit(main())
