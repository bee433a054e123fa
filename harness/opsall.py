"""All operation harnesses."""
import importlib
from harness import ops, ops_line, ops_sys, ops_dir, ops_fail
MODULES = [ops, ops_line, ops_sys, ops_dir, ops_fail]
for _m in MODULES:
    for _n in dir(_m):
        if callable(getattr(_m, _n)) and getattr(getattr(_m, _n), "__module__", None) == _m.__name__ and _n != "jobs":
            globals()[_n] = getattr(_m, _n)

def jobs(prop, tier):
    J = []
    for m in MODULES:
        J += m.jobs(prop, tier)
    return J
