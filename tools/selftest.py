#!/opt/veriftools/pyvenv/bin/python3
"""Set-up: nothing to build; verifies that the tools the checks need are present."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import z3
from symx import runner
runner.setup_paths(instrumented=False)
import jinja2
print("z3", z3.get_version_string(), "python", sys.version.split()[0], "jinja2", jinja2.__version__)
