#!/opt/venv/bin/python
"""usage: run.py PROPERTY [--tier quick|thorough] [--jobs N] [--replay FILE]"""
import argparse
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

parser = argparse.ArgumentParser()
parser.add_argument("property")
parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
parser.add_argument("--replay")
args = parser.parse_args()


def main():
    try:
        with core.quiet():
            core.import_repo()
    except BaseException as err:  # the repository cannot even be imported: no property holds on it
        print(f"the repository cannot be imported: {type(err).__name__}: {err}")
        print(f"VIOLATION property={args.property} replay=none")
        return 1
    if args.replay:
        return core.run_replay(args.property, args.replay)
    return core.run_check(args.property, args.tier, int(os.environ.get("VERIF_SEED", "1")), args.jobs)


sys.exit(main())
