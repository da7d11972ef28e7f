"""check.py PROPERTY: run the check that decides PROPERTY."""
import importlib
import os
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

MODULES = {
    "C09": "card", "C10": "card", "C14": "card",
    "C15": "parser",
    "C16": "files", "C17": "files", "C18": "files",
    "C01": "load", "C02": "load", "C03": "load", "C08": "proto", "C11": "trust",
    "C13": "render", "C19": "corrupt",
    "C04": "value", "C05": "value", "C06": "dump", "C12": "dump",
    "C07": "estimator", "C20": "calls",
}  # fmt: skip


def main():
    prop = sys.argv[1]
    common.use_repo()
    mod = importlib.import_module("check_" + MODULES[prop])
    return getattr(mod, "run_" + prop)()


if __name__ == "__main__":
    common.run_main(main)
