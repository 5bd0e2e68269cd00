"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
NA = {
    'C40': 'the engine computes over exact real/complex arithmetic; a bound '
           'on the rounding errors of LAPACK (compiled code, iterative '
           'algorithms) on symbolic floating-point inputs is out of reach '
           'of an SMT encoding',
    'C41': 'the scripts are fixed concrete programs without inputs to '
           'quantify over (running them is a test, not solver-based '
           'checking), and they draw figures and write files; the library '
           'operations they use are covered by C01-C39',
}
TECH = ('symbolic execution of the real Python code with symbolic inputs, '
        'assertions decided by z3; counterexamples replayed on the real code')
MPIT = ('symbolic execution of the real Python code on all simulated MPI '
        'ranks, matches and interleavings encoded for z3; counterexamples '
        'replayed on the real code')
NOTE = ('Holds for every value of the symbolic inputs within the stated '
        'bounds on sizes and worker counts (BOUNDS/OUTSIDE in the check '
        'module, repeated in the evidence). Trusted: exact real/complex '
        'arithmetic instead of rounding, contract stubs for '
        'LAPACK/scipy kernels, numpy and MPI semantics of the engine '
        '(validated against the real numpy/scipy on sampled points of every '
        'scenario), z3.')
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks, na = [], []
for i in ids:
    if os.path.exists('checks/%s.py' % i.lower()):
        checks.append(dict(
            property=i, quick_cmd='./run.sh %s --tier quick' % i,
            thorough_cmd='./run.sh %s --tier thorough' % i,
            technique=MPIT if i == 'C05' else TECH, level='model_checking',
            level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo; the checks import the working tree of '
               '/repo (or $VERIF_REPO) through symx/loader.py. See DESIGN.md.')
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
