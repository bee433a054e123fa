"""What the script, group and host modules of the model worlds do: they call back into the harness."""
HOOK = None
DATA = None

def call(name, g):
    """Called by a module with its globals while it is executed."""
    return HOOK(name, g)

def source(name):
    """The text of a module that calls back."""
    return f'from harness import rt as _rt\n_rt.call({name!r}, globals())\n'.encode()
