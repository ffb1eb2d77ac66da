"""setup_cmd: checks that the solver and the instrumented package load."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from pyvc import runner  # noqa: E402
x = z3.Int("x")
s = z3.Solver()
s.add(x > 1, x < 1)
assert str(s.check()) == "unsat"
runner.setup()
try:
    runner._imports(True)
except Exception as ex:
    print("note: %r" % ex)
print("pyvc ready: z3", z3.get_version_string())
