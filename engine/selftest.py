"""Setup: check that everything the checks need is installed and that the engine works."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import warnings

warnings.filterwarnings("ignore")
from engine import run, sym  # noqa: E402

run.load("C01", symbolic=True)
from engine.case import Case, run_symbolic  # noqa: E402
import numpy as np  # noqa: E402


def good(mk):
    x = mk.real("x", 2, 2)
    mk.eq(np.matmul(x, x.T), np.matmul(x, x.T).T, "symmetric")


def bad(mk):
    x = mk.real("x", 2, 2)
    mk.eq(np.matmul(x, x), np.matmul(x, x.T), "wrong")


assert run_symbolic(Case("good", good))["status"] == "proved"
assert run_symbolic(Case("bad", bad))["status"] == "candidate"
print("engine works")
