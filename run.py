#!/opt/venv/bin/python
"""
Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]
"""

import os
import sys

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONNOUSERSITE": "1",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), "/repo/src"]
sys.dont_write_bytecode = True

import argparse  # noqa: E402
import importlib  # noqa: E402
import tempfile  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--workers", type=int, default=None)
    parser.add_argument("--replay", default=None)
    args = parser.parse_args()
    with tempfile.TemporaryDirectory(prefix="pbt_mpl_") as mpl:
        os.environ["MPLCONFIGDIR"] = mpl
        import ciceroscm

        if not os.path.realpath(ciceroscm.__file__).startswith("/repo/src/"):
            print(f"wrong code under test: {ciceroscm.__file__}", file=sys.stderr)
            return 2
        from pbt import core

        prop = importlib.import_module(f"pbt.props.{args.property.lower()}").PROPERTY
        if args.replay:
            return core.replay(prop, args.replay)
        kwargs = {"nworkers": args.workers} if args.workers else {}
        return core.run_property(prop, args.tier, args.seed, **kwargs)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
