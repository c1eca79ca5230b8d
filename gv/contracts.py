"""Callee contracts: harness-declared replacements (gv_replace)."""
def install(ex, names):
    """names: {function mangled name: stub function name}: the call is checked
    against the stub (requires/ensures written in C++ in the harness)"""
    import models, udunits
    for real, stub in (names.items() if isinstance(names, dict) else ()):
        def m(e, st, args, ins, stub=stub):
            key = e.prog.fkey(stub, 0)
            e.push(st, key, args, ins[1], ins[7] if ins[0] == 'invoke' else None)
            return 'CALL'
        ex.overrides[real] = m
