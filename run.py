"""Entry point: run.py <property id> [--tier quick|thorough] [--seed N]
                run.py --replay <file>"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(k, '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    if sys.argv[1] == '--replay':
        import json
        from symx import harness
        with open(sys.argv[2]) as f:
            pid = json.load(f)['property']
        mod = importlib.import_module('checks.' + pid.lower())
        names = {k: v for k, v in vars(mod).items() if callable(v)}
        return harness.replay(sys.argv[2], names)
    pid = sys.argv.pop(1)
    mod = importlib.import_module('checks.' + pid.lower())
    from symx import harness
    return harness.main(pid, mod.scenarios, None, mod.BOUNDS, mod.ASSUMPTIONS,
                        getattr(mod, 'OUTSIDE', ''))


if __name__ == '__main__':
    sys.exit(main())
