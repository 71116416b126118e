"""python -m mc.run PROPERTY [--tier quick|thorough]   (run in /verif)"""
import os
import sys

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/opt/mplconfig" if os.access("/opt/mplconfig", os.W_OK) else "/tmp")
sys.dont_write_bytecode = True
from mc import core  # noqa: E402

sys.path.insert(0, core.repo_dir())


def load(prop):
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    return importlib.import_module("mc.checks." + prop.lower())


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return core.run_check(load(prop), tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
