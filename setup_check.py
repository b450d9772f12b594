"""setup_cmd: nothing to build; make sure the solver and the code under test import."""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx.expr import z3  # noqa: E402

s = z3.Solver()
a = z3.Bool("a")
s.add(a, z3.Not(a))
assert s.check() == z3.unsat
sys.path.insert(1, "/repo/src")
import plaquette  # noqa: E402

print("z3", z3.get_version_string(), "plaquette", plaquette.__file__)
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
