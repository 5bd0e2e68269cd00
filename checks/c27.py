"""C27 DMD with handles."""
import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI
from .linear import Hc, dot, Q
from . import handles as hh
from .c15 import keep
from .c23 import same_everywhere, gram
from .c25 import put_modes
from .dmdlib import low_map, decomposition, builders, coefficients

BOUNDS = ('1..3 vectors (sequential: one more) of any vector space with any '
          'Hermitian inner product whose correlation array has non-zero '
          'entries (others: C03), distinct non-zero eigenvalues, rank up to '
          '2; low-order maps with distinct non-zero eigenvalues (real or '
          'complex); 1..4 workers on 1..2 nodes, every integer memory limit '
          '>= 1; any real tolerances, every limit on the number of '
          'eigenvalues; mode index lists with any order, subsets, '
          'repetitions')
OUTSIDE = ('more vectors or workers; rank above 2; equal non-zero '
           'eigenvalues; rounding; interleavings (C05)')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI,
               'in the encoding the inner products are free numbers and the '
               'decompositions of the correlation array and of the low-order '
               'map any unitary or invertible arrays and numbers (a superset '
               'of the real cases)']


def problem(env, n, r, ld, seq, name=''):
    """Vectors with symbols x (and y), their inner products."""
    C, R, s, V = gram(env, n, r, ld, name)
    xk = ['x%s%d' % (name, i) for i in range(n + seq)]
    if seq:
        yk = xk[1:]
        z = [[env.scal('z%s%d' % (name, i), ld)] for i in range(n)]
        zz = env.real('zz' + name)
        for x in z + [[zz]]:
            env.assume(x[0] != 0)
        M = env.array([[C[i, j + 1] for j in range(n - 1)] + z[i]
                       for i in range(n)], ld)
        tab = hh.table(xk[:n], xk[:n], C)
        tab.update(hh.table(xk[:n], xk[n:], env.array(z, ld)))
        tab[xk[n], xk[n]] = zz
    else:
        yk = ['y%s%d' % (name, i) for i in range(n)]
        M = env.tmat('m' + name, n, n, ld)
        tab = hh.table(xk, xk, C)
        tab.update(hh.table(xk, yk, M))
        tab.update(hh.herm_table(env, yk, ld, 'yy')[0])
    return C, R, s, V, M, xk, yk, tab


def tolerances(env, tol):
    tk = {}
    if 'a' in tol:
        tk['atol'] = env.real('atol', lo=Q(1, 10**4))
    if 'r' in tol:
        tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    return tk


def dmd(env, P, nodes, n, r, ld, seq, kind=None, idx=None, new=False, tol='',
        limit=None, how='decomp', mem='sym'):
    C, R, s, V, M, xk, yk, tab = problem(env, n, r, ld, seq)
    un = ['u%d' % i for i in range(len(xk))] if new else xk
    vn = (un[1:] if seq else ['v%d' % i for i in range(n)]) if new else yk
    st = hh.setup(env, P, sorted(set(xk + yk + un + vn)))
    ip = hh.IP(tab)
    lim = env.int('limit', 1) if mem == 'sym' else mem
    tk = tolerances(env, tol)
    k = keep(env, [x ** 2 for x in s], s[0] ** 2, tk) if tol else r
    if limit is not None:
        tk['max_num_eigvals'] = limit
        k = min(k, limit)
    if k == 0 or idx is not None and max(idx) >= k:
        return
    idx = list(range(k)) if idx is None else idx

    def reduced(k, name):
        VS = V[:, :k] * env.array([1 / x for x in s[:k]], 'f')
        return low_map(env, dot(Hc(VS), M, VS), kind or ld, name)
    if how == 'again' and k < r:
        reduced(r, 'full')
    Kr = reduced(k, '')
    C0, M0 = np.array(C), np.array(M)
    mk = {w: [w + str(i) for i in range(len(idx))] for w in ('e', 'p', 'a')}

    def go(rank, m):
        d = m.dmd.DMDHandles(inner_product=ip, max_vecs_per_node=lim,
                             verbosity=0)
        ret = None
        if how == 'existing':
            d.correlation_array = C
            d.cross_correlation_array = M
            d.compute_eigendecomp(**tk)
        else:
            akw = {} if seq else dict(adv_vec_handles=st.handles(yk, rank))
            ret = d.compute_decomp(st.handles(xk, rank),
                                   **dict(akw, **({} if how == 'again' else
                                                  tk)))
            if how == 'again':
                d.compute_eigendecomp(**tk)
                ret = None
        pk = dict(vec_handles=st.handles(un, rank)) \
            if new or how == 'existing' else {}
        ek = dict(adv_vec_handles=st.handles(vn, rank)) \
            if (new or how == 'existing') and not seq else {}
        d.compute_proj_modes(idx, st.handles(mk['p'], rank), **pk)
        d.compute_adjoint_modes(idx, st.handles(mk['a'], rank), **pk)
        d.compute_exact_modes(idx, st.handles(mk['e'], rank), **ek)
        sp = d.compute_spectrum()
        pc, ac = d.compute_proj_coeffs()
        dec = (d.eigvals, d.R_low_order_eigvecs, d.L_low_order_eigvecs,
               d.correlation_array_eigvals, d.correlation_array_eigvecs)
        return [list(dec), [sp, pc, ac, d.correlation_array,
                            d.cross_correlation_array],
                [d.spectral_coeffs, d.proj_coeffs, d.adv_proj_coeffs],
                list(dec if ret is None else ret)]
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    same_everywhere(env, [r[0] + r[1] for r in res])
    dec, (sp, pc, ac, corr, cross), stored, ret = res[0]
    env.eq('returned and stored results agree', ret + [sp, pc, ac],
           dec + stored)
    if how != 'existing':
        ok = np.shape(corr) == (n, n) and np.shape(cross) == (n, n)
        env.true('shapes of the correlation arrays', ok)
        if ok:
            env.eq('correlation array', corr, C0)
            env.eq('cross-correlation array', cross, M0)
    d = dict(zip(('eigvals', 'R', 'L', 'ce', 'cv'), dec))
    if not decomposition(env, k, n, s, V, R, M0, Kr, d):
        return
    pb, eb, ab = builders(env, k, s, d)
    for w, keys, want, what in (
            ('e', vn, eb, 'exact mode'),
            ('p', un[:n], pb, 'projected mode'),
            ('a', un[:n], ab, 'adjoint mode')):
        got = put_modes(env, st, keys, mk[w], what)
        if got is not None:
            env.eq('%ss of the requested indices are the combinations that '
                   'define them' % what, got, want[:, idx])
    env.true('nothing else is put', len(st.puts) == 3 * len(idx),
             detail=str(st.puts))
    coefficients(env, k, n, R, M0, ab,
                 dict(spectral=sp, proj=pc, adv=ac))


def inconsistent(env, P, what, nx, ny, cls='DMDHandles'):
    """Numbers of handles that do not fit."""
    C = env.array([[2, 1], [1, 3]], 'f')
    I = env.array([[1, 0], [0, 1]], 'f')

    def go(rank, m):
        st = hh.Store(P)
        for i in range(5):
            for z in 'xy':
                st.val['%s%d' % (z, i)] = {z + str(i): hh.ONE_}
        xs = None if nx is None else \
            st.handles(['x%d' % i for i in range(nx)], rank)
        ys = None if ny is None else \
            st.handles(['y%d' % i for i in range(ny)], rank)
        d = getattr(m.dmd, cls)(verbosity=0, max_vecs_per_node=10,
                                inner_product=hh.IP({
                                    (a + str(i), b + str(j)): 1. * (i == j)
                                    for i in range(5) for j in range(5)
                                    for a in 'xy' for b in 'xy'}))
        if what != 'decomp':
            d.correlation_array = d.correlation_array_eigvecs = I
            d.R_low_order_eigvecs = d.L_low_order_eigvecs = I
            d.correlation_array_eigvals = d.eigvals = \
                env.array([[2, 1]], 'f')[0]
            if cls != 'DMDHandles':
                d.sum_correlation_array_eigvecs = \
                    d.proj_correlation_array_eigvecs = I
                d.proj_correlation_array_eigvals = d.eigvals
        try:
            if what == 'decomp':
                d.compute_decomp(xs, adv_vec_handles=ys)
            elif what == 'exact':
                d.vec_handles = xs
                d.compute_exact_modes([0], st.handles(['m'], rank),
                                      adv_vec_handles=ys)
            else:
                getattr(d, 'compute_%s_modes' % what)(
                    [0], st.handles(['m'], rank), vec_handles=xs)
            return False
        except ValueError:
            return not st.puts
    res = hh.run_ranks(env, P, go)
    env.true('an inconsistent number of vectors raises a value error and '
             'puts nothing', all(res), detail=str(res))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for seq in (False, True):
        for P in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            for n, r in ((1, 1), (2, 1)):
                for ld in 'fc':
                    out.append((dmd, dict(P=P, nodes=1, n=n, r=r, ld=ld,
                                          seq=seq)))
            for kind in ('f', 'pair', 'c'):
                if q and P == 3 and kind == 'c':
                    continue
                out.append((dmd, dict(P=P, nodes=min(P, 2), n=2, r=2,
                                      ld='c' if kind == 'c' else 'f',
                                      kind=kind, seq=seq)))
            if not q or P < 3:
                out.append((dmd, dict(P=P, nodes=1, n=3, r=2, ld='f',
                                      kind='pair', seq=seq)))
            for idx in ([1], [1, 0], [0, 0, 1]):
                out.append((dmd, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                      kind='pair', seq=seq, idx=idx)))
        for P in (1, 2):
            out.append((dmd, dict(P=P, nodes=P, n=2, r=2, ld='c', kind='c',
                                  seq=seq, idx=[1, 0], new=True)))
            for limit in (1, 2, 3):
                for how in ('decomp', 'again', 'existing'):
                    out.append((dmd, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                          kind='pair', seq=seq, how=how,
                                          limit=limit)))
            for tol in ('a', 'r', 'ar'):
                for how in ('decomp', 'again', 'existing'):
                    if q and how != 'decomp' and tol != 'ar':
                        continue
                    out.append((dmd, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                          kind='f', seq=seq, how=how,
                                          tol=tol, limit=1 if P == 2 and
                                          tol == 'a' else None)))
        out.append((dmd, dict(P=4, nodes=2, n=2, r=2, ld='f', kind='pair',
                              seq=seq)))
        if not q:
            out.append((dmd, dict(P=1, nodes=1, n=3, r=3, ld='f', kind='nf',
                                  seq=seq)))
            out.append((dmd, dict(P=2, nodes=1, n=3, r=2, ld='c', kind='c',
                                  seq=seq)))
    for P in (1, 2):
        for nx, ny in ((2, 1), (1, 2), (3, 2), (2, 3)):
            out.append((inconsistent, dict(P=P, what='decomp', nx=nx,
                                           ny=ny)))
        for nx, ny in ((None, None), (2, None), (4, None), (3, 3), (2, 1)):
            out.append((inconsistent, dict(P=P, what='exact', nx=nx, ny=ny)))
        for what in ('proj', 'adjoint'):
            for nx in (1, 4):
                out.append((inconsistent, dict(P=P, what=what, nx=nx,
                                               ny=None)))
    return out
