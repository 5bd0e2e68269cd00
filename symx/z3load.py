"""Make the pre-installed z3 python package importable without exposing the
rest of that virtual environment (its numpy differs from the one modred uses)."""
import importlib.util
import os
import sys

CANDIDATES = [
    os.environ.get('VERIF_Z3_DIR', ''),
    '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3',
]


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for d in CANDIDATES:
        init = os.path.join(d, '__init__.py')
        if d and os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                'z3', init, submodule_search_locations=[d])
            mod = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3 as mod
    return mod


z3 = load()
