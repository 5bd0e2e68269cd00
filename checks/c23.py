"""C23 POD with handles."""
import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI
from .linear import Hc, dot, svals, Q
from . import handles as hh
from .c15 import keep

BOUNDS = ('1..3 vectors (complex: 1 or 2) of any vector space with any '
          'Hermitian inner product whose correlation array has non-zero '
          'entries (others: C03), distinct non-zero eigenvalues and any rank; 1..4 workers on 1..3 nodes, '
          'every integer memory limit >= 1; any real tolerances; mode index '
          'lists with any order, subsets, repetitions')
OUTSIDE = ('more vectors or workers; equal non-zero eigenvalues; rounding; '
           'interleavings (C05)')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI,
               'in the encoding the inner products are free numbers and the '
               'decomposition of their array any unitary array and numbers (a '
               'superset of the real cases)']


def gram(env, n, r, ld, name=''):
    """Correlation array of rank r (free entries, and rebuilt from its
    decomposition)."""
    s = svals(env, r, 's' + name)
    V = env.unitary('v' + name, n, ld, left=False)
    C, R = hh.free_gram(env, n, ld, V, [x ** 2 for x in s] + [0] * (n - r),
                        'g' + name)
    return C, R, s, V


def same_everywhere(env, res):
    for r in res[1:]:
        env.eq('same results on every worker', list(r), list(res[0]))


def decomp(env, C, R, s, k, res):
    """Correlation array, eigenvalues and eigenvectors of one worker."""
    corr, ev, vec = res
    n = len(C)
    ok = np.shape(corr) == (n, n) and np.shape(ev) == (k,) and \
        np.shape(vec) == (n, k)
    env.true('shapes; as many eigenvalues as are above the tolerances', ok,
             detail='%s %s %s, expected %d' % (
                 np.shape(corr), np.shape(ev), np.shape(vec), k))
    if not ok:
        return False
    env.eq('correlation array of inner products', corr, C)
    env.eq('eigenvalues, descending', ev, [x ** 2 for x in s[:k]])
    env.eq('eigenvectors of the correlation array', dot(R, vec), vec * ev)
    env.eq('orthonormal eigenvectors', dot(Hc(vec), vec), np.eye(k))
    return True


def modes_of(env, st, keys, mk):
    """Coefficients (columns) of the put modes over the symbols."""
    env.true('every mode handle receives exactly one vector',
             sorted(k for _, k in st.puts) == sorted(mk), detail=str(st.puts))
    if not all(k in st.val for k in mk):
        return None
    env.true('modes are combinations of the given vectors',
             all(set(st.val[k]) <= set(keys) for k in mk))
    return env.array([[st.val[k].get(x, 0) for k in mk] for x in keys], 'c')


def pod(env, P, nodes, n, r, ld, idx=None, new=False, tol=None, how='decomp',
        limit='sym'):
    xk = ['x%d' % i for i in range(n)]
    yk = ['y%d' % i for i in range(n)] if new else xk
    st = hh.setup(env, P, xk + (yk if new else []))
    C, R, s, V = gram(env, n, r, ld)
    ip = hh.IP(hh.table(xk, xk, C))
    lim = env.int('limit', 1) if limit == 'sym' else limit
    tk = {}
    if tol is not None:
        if 'a' in tol:
            tk['atol'] = env.real('atol', lo=Q(1, 10**4))
        if 'r' in tol:
            tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
        if 'n' in tol:
            tk['atol'] = None
    k = keep(env, [x ** 2 for x in s], s[0] ** 2, tk) if tol else r
    if k == 0:
        return
    idx = list(range(k)) if idx is None else idx
    if max(idx) >= k:
        return
    mk = ['m%d' % i for i in range(len(idx))]
    C0 = np.array(C)

    def go(rank, m):
        p = m.pod.PODHandles(inner_product=ip, max_vecs_per_node=lim,
                             verbosity=0)
        kw = {}
        if how == 'decomp':
            ev, vec = p.compute_decomp(st.handles(xk, rank), **tk)
        else:
            p.correlation_array = C
            p.compute_eigendecomp(**tk)
            ev, vec = p.eigvals, p.eigvecs
            kw = dict(vec_handles=st.handles(yk, rank))
        if new:
            kw = dict(vec_handles=st.handles(yk, rank))
        p.compute_modes(idx, st.handles(mk, rank), **kw)
        c = p.compute_proj_coeffs()
        return [p.correlation_array, ev, vec, p.eigvals, p.eigvecs, c,
                p.proj_coeffs]
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    same_everywhere(env, res)
    corr, ev, vec, ev2, vec2, c, c2 = res[0]
    env.eq('returned and stored decomposition agree', [ev, vec, c],
           [ev2, vec2, c2])
    if not decomp(env, C0, R, s, k, (corr, ev, vec)):
        return
    M = modes_of(env, st, yk, mk)
    if M is None:
        return
    want = vec * env.array([1 / x for x in s[:k]], 'f')
    env.eq('mode i is the combination of the vectors by the requested '
           'eigenvector over the square root of its eigenvalue',
           M, want[:, idx])
    env.true('shape of the coefficients', np.shape(c) == (k, n),
             detail=str(np.shape(c)))
    if np.shape(c) != (k, n):
        return
    if not new and len(set(idx)) == len(idx):
        env.eq('orthonormal modes', dot(Hc(M), R, M), np.eye(len(idx)))
    env.eq('projection coefficients are the inner products of modes with '
           'vectors', c, dot(Hc(want), R))
    for x in xk:
        env.true('vectors are unchanged', list(st.val[x].items()) == [(x, 1)])


def repeated(env, P, n, ld):
    """Modes one by one, again, and single handles."""
    xk = ['x%d' % i for i in range(n)]
    st = hh.setup(env, P, xk)
    C, R, s, V = gram(env, n, n, ld)
    ip = hh.IP(hh.table(xk, xk, C))
    lim = env.int('limit', 1)
    mk = ['m%d' % i for i in range(n)]
    lk = ['l%d' % i for i in range(n)]

    def go(rank, m):
        p = m.pod.PODHandles(inner_product=ip, max_vecs_per_node=lim,
                             verbosity=0)
        p.compute_decomp(st.handles(xk, rank))
        for i in reversed(range(n)):
            p.compute_modes([i], st.handle(mk[i], rank))
            p.compute_proj_coeffs()
        p.compute_modes(range(n), st.handles(lk, rank),
                        vec_handles=st.handles(xk, rank))
        return [p.eigvals, p.eigvecs, p.proj_coeffs]
    res = hh.run_ranks(env, P, go)
    same_everywhere(env, res)
    want = res[0][1] * env.array([1 / x for x in s], 'f')
    M = modes_of(env, st, xk, mk + lk)
    if M is not None:
        env.eq('modes', M[:, :n], want)
        env.eq('modes', M[:, n:], want)
    env.eq('projection coefficients', res[0][2], dot(Hc(want), R))


def one_vector(env, P, ld):
    """A single vector handle not in a list."""
    st = hh.setup(env, P, ['x'])
    e = env.pos('e', lo=Q(1, 100))
    st_ip = hh.IP({('x', 'x'): e})
    env.register_eigh(env.array([[e]], 'f'), env.array([[1]], 'f'), [e])

    def go(rank, m):
        p = m.pod.PODHandles(inner_product=st_ip, max_vecs_per_node=10,
                             verbosity=0)
        p.compute_decomp([st.handle('x', rank)])
        p.compute_modes([0], st.handle('m', rank),
                        vec_handles=st.handle('x', rank))
        return [p.eigvals, p.eigvecs]
    res = hh.run_ranks(env, P, go)
    same_everywhere(env, res)
    M = modes_of(env, st, ['x'], ['m'])
    if M is not None:
        env.eq('normalised vector, up to phase', M * np.conj(M) * e, [[1]])


def orthogonal(env, P, order):
    """Orthogonal vectors (zero inner products), largest first or last."""
    st = hh.setup(env, P, ['x0', 'x1'])
    s = svals(env, 2)
    e = [s[i] ** 2 for i in order]
    ip = hh.IP(hh.table(['x0', 'x1'], ['x0', 'x1'],
                        env.array([[e[0], 0], [0, e[1]]], 'f')))
    env.register_eigh(env.diag(e), env.array([[1, 0], [0, 1]], 'f'), e)

    def go(rank, m):
        p = m.pod.PODHandles(inner_product=ip, max_vecs_per_node=10,
                             verbosity=0)
        p.compute_decomp(st.handles(['x0', 'x1'], rank))
        p.compute_modes([0, 1], st.handles(['m0', 'm1'], rank))
        return [p.eigvals, p.eigvecs, p.compute_proj_coeffs()]
    res = hh.run_ranks(env, P, go)
    same_everywhere(env, res)
    M = modes_of(env, st, ['x0', 'x1'], ['m0', 'm1'])
    if M is not None:
        for j, i in enumerate(order):
            env.eq('normalised vectors up to phase, by decreasing norm',
                   [M[i, j] * np.conj(M[i, j]) * e[i], M[1 - i, j]], [1, 0])
    env.eq('eigenvalues, descending', res[0][0], [x ** 2 for x in s])


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for P in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for n, r, ld in ((1, 1, 'f'), (1, 1, 'c'), (2, 2, 'f'), (2, 2, 'c'),
                         (2, 1, 'c'), (3, 2, 'f')):
            if P == 3 and n == 1 and q:
                continue
            out.append((pod, dict(P=P, nodes=1, n=n, r=r, ld=ld)))
        for idx in ([1], [1, 0], [0, 0, 1]):
            out.append((pod, dict(P=P, nodes=min(P, 2), n=2, r=2, ld='c',
                                  idx=idx, new=idx == [1, 0])))
        out.append((pod, dict(P=P, nodes=P, n=2, r=2, ld='c', new=True)))
        out.append((pod, dict(P=P, nodes=1, n=2, r=2, ld='c', how='eig')))
        out.append((repeated, dict(P=P, n=2, ld='c')))
    for P in (1, 2):
        for tol in ('a', 'r', 'ar', 'nr', 'n'):
            for how in ('decomp', 'eig'):
                out.append((pod, dict(P=P, nodes=1, n=2, r=2, ld='f', tol=tol,
                                      how=how)))
        out.append((pod, dict(P=P, nodes=1, n=2, r=2, ld='f', tol='ar',
                              idx=[0], new=True)))
        out.append((one_vector, dict(P=P, ld='f')))
        out.append((orthogonal, dict(P=P, order=[0, 1])))
        out.append((orthogonal, dict(P=P, order=[1, 0])))
    out.append((pod, dict(P=1, nodes=1, n=3, r=3, ld='f', idx=[2, 0])))
    out.append((pod, dict(P=2, nodes=1, n=3, r=3, ld='f', idx=[2, 0, 1])))
    out.append((pod, dict(P=4, nodes=2, n=2, r=2, ld='c', idx=[1, 0])))
    if not q:
        for P in (1, 2, 3):
            out.append((pod, dict(P=P, nodes=1, n=3, r=3, ld='f', tol='ar')))
            out.append((pod, dict(P=P, nodes=1, n=3, r=3, ld='f',
                                  idx=[1, 2, 0], new=True)))
            out.append((repeated, dict(P=P, n=3, ld='f')))
    return out
