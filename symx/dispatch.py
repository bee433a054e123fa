"""Runs the dispatcher program from its source file, as the interpreter would run it as a script."""
import builtins
import sys

_code = {}

def dispatcher_entry():
    td = sys.modules["fora.connectors.tunnel_dispatcher"]
    file = td.__file__
    from . import instr
    instrumented = instr.MARK in td.__dict__
    if file not in _code:
        import io
        from model import osmodel
        f = osmodel._real["open"](file, encoding="utf-8")
        src = f.read()
        f.close()
        _code[file] = instr.compile_instrumented(src, file) if instrumented else compile(src, file, "exec", dont_inherit=True)
    ns = {"__name__": "__main__", "__file__": file, "__builtins__": builtins}
    if instrumented:
        ns.update(instr.HELPERS)
    exec(_code[file], ns)
