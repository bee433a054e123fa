"""Shared set-up of the harnesses."""
from argparse import Namespace
import fora

def set_args(**kw):
    d = dict(debug=False, dry=False, diff=False, verbose=0, no_color=True, changes=False, scripts=[], hosts=None, inventory=None, init=None, inspect_inventory=False)
    d.update(kw)
    fora.args = Namespace(**d)

def reset():
    """Bring fora's global state to its initial values (each path starts afresh)."""
    set_args()
    fora.inventory = None
    fora.group = None
    fora.host = None
    fora.script = None

def attempt(fn, *a, **k):
    """(exception or None, result)"""
    try:
        return None, fn(*a, **k)
    except Exception as e:
        return e, None
