"""Rewrites the generated parts of DESIGN.md (per-property table, planted
changes) from the check modules, properties.jsonl and seeded/*/meta.json."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault('OMP_NUM_THREADS', '1')

HOW = {
'C01': 'Real `parallel.find_assignments` on every worker with symbolic weights. Oracle: concatenation of the parts is the task list; every worker computes the same parts; with equal weights sizes differ by at most one; remaining work is split nearest to the even share.',
'C02': 'Real `compute_inner_product_array` on P simulated workers; inner products are a table of free numbers (one per ordered pair), limit a symbolic integer. Oracle: element (i, j) is the table entry, on every worker, with a type that holds it.',
'C03': 'Real `compute_symm_inner_product_array`, free Hermitian table (zeros included). Oracle: equal to the table, on every worker.',
'C04': 'Real `lin_combine` with vectors of a free module (a vector is its coefficient dict) and symbolic coefficients. Oracle: every output handle is put exactly once and its coefficients are those of the selected columns.',
'C05': 'The trace of messages and barriers of the real code is turned into a transition system whose interleaving, buffering and matching are z3 variables; query: is a state reachable where a worker is stuck, or a message delivered to the wrong receive. Includes the pipelines of POD, BPOD, DMD, TLSqrDMD and Galerkin projection.',
'C06': 'Real `reductions.Intracomm` over simulated point-to-point messages with symbolic contributions. Oracle: left fold in worker order for `reduce`, `allreduce`, `scan`, `exscan`.',
'C07': 'Real wrappers on P workers with different arguments per worker. Oracle: called once, on worker 0, with worker 0\'s arguments; results and host/node numbers agree.',
'C08': 'Liveness of vectors by CPython reference counting during the real computations; limit symbolic. Oracle: number of live vectors per worker <= limit share (+ transit allowance: two for inner products, four for linear combinations, which the documented estimate leaves out).',
'C09': 'Clock readings are independent symbolic reals (or a due message at any chance). Oracle: same results as the table/coefficients, same gets and puts.',
'C10': 'Every history (operations chosen symbolically) of gets and puts through handles with base vectors. Oracle: an independent store gives (stored - base) x scale.',
'C11': 'Real save/load through a symbolic text file. Oracle: shape and values back; layout of the rows as documented.',
'C12': 'Real `InnerProductTrapz` on symbolic grids. Oracle: explicit trapezoidal weights; linear, Hermitian, positive.',
'C13': 'Real `VectorSpaceArrays`. Oracle: sums X_i* W Y_j written out; equality of vector spaces.',
'C14': 'Real `sanity_check` with a symbolic magnitude, rounding error and planted fault size. Oracle: accepts correct vectors, rejects every fault above 1e-9.',
'C15': 'Real `util.svd` of an array built from a symbolic decomposition, every tolerance. Oracle: exactly the singular values above both tolerances, orthonormal factors, best approximation.',
'C16': 'Real `util.eigh` likewise, including values equal to a tolerance.',
'C17': 'Real `util.eig_biorthog` of arrays built from symbolic eigenpairs. Oracle: A R = R D, A* L = L D*, L* R = I, unit norms of the side that is not scaled.',
'C18': 'Real `Hankel` and `Hankel_chunks` with symbolic entries. Oracle: index rule.',
'C19': 'Real `lsim`, `impulse` (and scipy.signal\'s `dlsim`, `dimpulse` modelled by their documented recursion). Oracle: the recursion written out.',
'C20': 'Real loaders on symbolic text files. Oracle: columns and paths in order; inconsistent time values are refused exactly when numpy.allclose to the first file fails.',
'C21': 'Real `balanced_truncation` for systems built from symbolic Gramian factors. Oracle: both Gramians of the result are diag(Hankel singular values); impulse response kept.',
'C22': 'Real POD of arrays (both methods). Oracle: W-orthonormal modes in the span, projection coefficients = modes* W X, eigenvalues, truncation.',
'C23': 'Real `PODHandles` over any inner product space (Gram numbers free). Oracle: same formulas as C22 on the Gram level.',
'C24': 'Real BPOD of arrays. Oracle: Y* W X Hankel, biorthogonal modes, projection coefficients.',
'C25': 'Real `BPODHandles`, as C23.',
'C26': 'Real DMD of arrays (both methods), sequential or not. Oracle: eigen-relations of the projected map, exact/projected/adjoint modes, spectral and projection coefficients.',
'C27': 'Real `DMDHandles`, as C23.',
'C28': 'Real TLSqrDMD of arrays. Oracle: DMD (C26) of the data projected onto the kept right singular vectors of the stacked data.',
'C29': 'Real `TLSqrDMDHandles`, as C23.',
'C30': 'Real put_*/get_* methods of all classes, symbolic arrays of all shapes. Oracle: what is got back is what was computed; computations continue from it.',
'C31': 'Histories of computations and requests on one object against the same request on a fresh object.',
'C32': 'Real Galerkin projections. Oracle: inverse of the Gram array times the projected dynamics, any order of reductions.',
'C33': 'Real derivative functions and standard basis.',
'C34': 'Real ERA on Markov parameters of symbolic systems. Oracle: A_r, B_r, C_r are the similarity transform of the system (hence the Markov parameters), truncation is the leading block; Hankel layout for any data.',
'C35': 'Real `make_sampled_format`. Oracle: index rule, refusals exactly above the tolerance.',
'C36': 'Real OKID on data of a symbolic deadbeat-observer system. Oracle: its Markov parameters by their recursion.',
'C37': 'Real small utilities and `__eq__` of handles and spaces. Oracle: definitions.',
'C38': 'All public computations on inputs with in-place operations. Oracle: the inputs are element-wise and structurally unchanged.',
'C39': 'Real `drss`, `rss` with every draw symbolic. Oracle: characteristic polynomial of A equals that of the prescribed real eigenvalues.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    out = []
    for p in props:
        pid = p['id']
        f = os.path.join(V, 'checks', pid.lower() + '.py')
        out.append('### %s %s' % (pid, p['title']))
        out.append('')
        if not os.path.exists(f):
            m = json.load(open(os.path.join(V, 'MANIFEST.json')))
            for n in m['not_applicable']:
                if n['property'] == pid:
                    out.append('Not applicable: ' + n['reason'])
            out.append('')
            continue
        mod = importlib.import_module('checks.' + pid.lower())
        n = len(mod.scenarios('quick'))
        t = len(mod.scenarios('thorough'))
        out.append(HOW[pid])
        out.append('')
        out.append('- Bounds: %s' % mod.BOUNDS)
        out.append('- Outside: %s' % mod.OUTSIDE)
        out.append('- Scenarios: %d quick, %d thorough' % (n, t))
        out.append('')
    seeds = ['| planted change | property | needs |', '|---|---|---|']
    sd = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append('| %s | %s | %s |' % (
            s, m['property'], str(m['needs']).replace('|', '/')))
    p = os.path.join(V, 'DESIGN.md')
    s = open(p).read()
    for name, body in (('properties', out), ('seeds', seeds)):
        a, b = '<!-- begin %s -->\n' % name, '<!-- end %s -->' % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + '\n'.join(body) + '\n' + s[j:]
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
