"""C28 total-least-squares DMD of data in arrays."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .linear import Hc, dot, Weights, svals, unitary, Q
from .c15 import keep
from .dmdlib import low_map, decomposition, builders, coefficients

BOUNDS = ('1..3 elements (direct method, sequential: 1..2), 1..3 vectors '
          '(sequential: one more; 3 vectors: at most 1 kept, or 2 of '
          'stacked rank 2), stacked data of any rank with distinct '
          'singular values, projected data of rank up to 2 with distinct '
          'singular values, low-order maps with distinct non-zero '
          'eigenvalues (real or complex); weights none, any positive 1D, any '
          'Hermitian positive definite 2D; arbitrary real tolerances, every '
          'limit on the number of eigenvalues; mode index lists with any '
          'order, subsets, repetitions')
OUTSIDE = ('larger arrays; projected data of rank above 2; equal singular '
           'values; repeated or zero eigenvalues; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY,
               'in the encoding the decompositions of the projected data and '
               'of the low-order map (sequential data: also of the stacked '
               'data) are free, independent of the data (a superset of the '
               'real cases); claims that involve both use the arrays rebuilt '
               'from them']

METHODS = {'snaps': 'compute_TLSqrDMD_arrays_snaps_method',
           'direct': 'compute_TLSqrDMD_arrays_direct_method'}


def numeric_svd(env, M, r):
    """Factors of M, of rank r."""
    U, s, Vh = np.linalg.svd(M)
    env.assume(s[r - 1] > 1e-3 and s[0] < 1e4)
    for i in range(1, r):
        env.assume(s[i - 1] > s[i] * (1 + 1e-3))
    return U, list(s[:r]), Hc(Vh)


def stacked(env, w, m, n, r, ld, seq, method):
    """Data; decomposition of the stacked weighted data."""
    ldw = 'c' if 'c' in (ld, w.ld) else 'f'
    if not seq:
        s = svals(env, r, 't')
        U = unitary(env, 'tu', 2 * m, ld)
        V = unitary(env, 'tv', n, ld, left=False)
        Z = dot(U[:, :r], env.diag(s), Hc(V[:, :r]))
        X, Y = w.color(Z[:m]), w.color(Z[m:])
        for A in (Z, X, Y):
            if env.sym:
                A._ld = ldw
        data = (X, Y)
    else:
        D = env.tmat('x', m, n + 1, ld)
        X, Y = D[:, :-1], D[:, 1:]
        Z = np.vstack([w.whiten(X), w.whiten(Y)])
        if env.sym:
            s = svals(env, r, 't')
            U = unitary(env, 'tu', 2 * m, ldw) if method == 'direct' else None
            V = unitary(env, 'tv', n, ldw, left=False)
        else:
            U, s, V = numeric_svd(env, Z, r)
        data = (D, None)
    if method == 'direct':
        env.register_svd(Z, U, s, V)
    elif env.sym:
        S = dot(Hc(Z), Z)
        S._ld = ldw
        env.register_eigh(S, V, [x ** 2 for x in s] + [0] * (n - r))
    R = dot(V[:, :r], env.diag([x ** 2 for x in s]), Hc(V[:, :r]))
    return data, X, Y, Z, s, V, R


def projected(env, w, Xp, Vq, p, ldw, method):
    """Decomposition of rank p of the projected weighted data."""
    m, n = Xp.shape
    q = Vq.shape[1]
    if not env.sym:
        U, s, V = numeric_svd(env, Xp, p)
        return U, s, V, dot(V[:, :p], np.diag([x ** 2 for x in s]),
                            Hc(V[:, :p]))
    s = svals(env, p)
    T = unitary(env, 'v', q, ldw, left=False)
    U = unitary(env, 'u', m, ldw) if method == 'direct' else None
    Vp = dot(Vq, T)
    return U, s, Vp, dot(Vp[:, :p], env.diag([x ** 2 for x in s]),
                         Hc(Vp[:, :p]))


def tls(env, m, n, r, ld, weights, method, seq, kind=None, idx=None,
        limit=None, tol='', form='array', wld=None):
    w = Weights(env, weights, m, wld or ld)
    ldw = 'c' if 'c' in (ld, w.ld) else 'f'
    data, X, Y, Z, t, V, Rs = stacked(env, w, m, n, r, ld, seq, method)
    X0, Y0, D0 = np.array(X), np.array(Y), np.array(data[0])
    power = 1 if method == 'direct' else 2
    kw = dict(w.kw())
    tk = {}
    if 'a' in tol:
        tk['atol'] = env.real('atol', lo=Q(1, 10**4))
    if 'r' in tol:
        tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    kw.update(tk)
    if limit is not None:
        kw['max_num_eigvals'] = limit
    top = r if limit is None else limit
    q = r
    if tol:
        q = keep(env, [x ** power for x in t], t[0] ** power, tk)
    q = min(q, top)
    if q == 0:
        return
    Xw, Yw = w.whiten(X), w.whiten(Y)
    Vq = V[:, :q]
    Pq = dot(Vq, Hc(Vq))
    Xp = dot(Xw, Pq)
    p = min(m, q)
    U, s, Vp, Rp = projected(env, w, Xp, Vq, p, ldw, method)
    k = p
    if tol:
        k = keep(env, [x ** power for x in s], s[0] ** power, tk)
    k = min(k, top)
    if k == 0 or k > 2 or idx is not None and max(idx) >= k:
        return
    if idx is not None:
        kw['mode_indices'] = list(idx)
    C, M = dot(Hc(Xw), Xw), dot(Hc(Xw), Yw)
    PMP = dot(Pq, M, Pq)
    VS = Vp[:, :k] * env.array([1 / x for x in s[:k]], 'f')
    if env.sym:
        full = np.hstack([Vp, V[:, q:]])
        Xp._ld = ldw
        if method == 'direct':
            env.register_svd(Xp, U, s, full)
        else:
            PCP = dot(Pq, C, Pq)
            PCP._ld = ldw
            env.register_eigh(PCP, full, [x ** 2 for x in s] + [0] * (n - p))
    Kr = low_map(env, dot(Hc(VS), PMP, VS), kind or ld)
    if not seq:
        kw['adv_vecs'] = data[1].tolist() if form == 'list' else data[1]
    f = getattr(env.m.dmd, METHODS[method])
    res = f(data[0].tolist() if form == 'list' else data[0], **kw)
    se, sv = (res.sum_correlation_array_eigvals,
              res.sum_correlation_array_eigvecs)
    ok = np.shape(se) == (q,) and np.shape(sv) == (n, q)
    env.true('as many directions of the stacked data are kept as are above '
             'the tolerances and the limit', ok, detail='%s %s, expected %d'
             % (np.shape(se), np.shape(sv), q))
    if not ok:
        return
    env.eq('eigenvalues of the sum correlation array, descending', se,
           [x ** 2 for x in t[:q]])
    env.eq('eigenvectors of the sum correlation array', dot(Rs, sv), sv * se)
    env.eq('orthonormal eigenvectors of the sum correlation array',
           dot(Hc(sv), sv), np.eye(q))
    d = dict(eigvals=res.eigvals, R=res.R_low_order_eigvecs,
             L=res.L_low_order_eigvecs, ce=res.proj_correlation_array_eigvals,
             cv=res.proj_correlation_array_eigvecs,
             spectral=res.spectral_coeffs, proj=res.proj_coeffs,
             adv=res.adv_proj_coeffs)
    if not decomposition(env, k, n, s, Vp, Rp, PMP, Kr, d,
                         'projected correlation array'):
        return
    if method == 'snaps':
        env.eq('correlation array', res.correlation_array, C)
        env.eq('cross-correlation array', res.cross_correlation_array, M)
        env.eq('correlation array of the advanced data',
               res.adv_correlation_array, dot(Hc(Yw), Yw))
    Pb, E, A = builders(env, k, s, d)
    idx = list(range(k)) if idx is None else idx
    ok = all(np.shape(x) == (m, len(idx)) for x in (
        res.exact_modes, res.proj_modes, res.adjoint_modes))
    env.true('shapes of the modes', ok)
    if ok:
        Xd, Yd = dot(X0, Pq), dot(Y0, Pq)
        env.eq('exact modes of the projected data, of the requested indices',
               res.exact_modes, dot(Yd, E)[:, idx])
        env.eq('projected modes of the projected data, of the requested '
               'indices', res.proj_modes, dot(Xd, Pb)[:, idx])
        env.eq('adjoint modes of the projected data, of the requested '
               'indices', res.adjoint_modes, dot(Xd, A)[:, idx])
        if not env.sym:
            Ui = dot(Xw, VS)
            op = dot(w.Lhi if w.kind else np.eye(m), dot(Yw, Pq), VS, Hc(Ui),
                     w.Lh if w.kind else np.eye(m))
            env.eq('exact modes are eigenvectors of the least-squares map of '
                   'the projected data', dot(op, res.exact_modes),
                   res.exact_modes * res.eigvals[idx])
            env.eq('adjoint modes are biorthogonal to the projected ones',
                   w.ip(res.adjoint_modes, res.proj_modes),
                   [[1 if i == j else 0 for j in idx] for i in idx])
    coefficients(env, k, n, Rp, PMP, A, d)
    if form == 'array':
        env.eq('the data are not modified', data[0], D0)
    if weights is not None:
        env.eq('the weights are not modified',
               np.diag(w.arg) if weights == '1d' else w.arg, w.W)


def mismatch(env, method, n, n2, m2):
    X = env.rmat('x', 2, n)
    Y = env.rmat('y', m2, n2)
    try:
        getattr(env.m.dmd, METHODS[method])(X, Y)
        ok = False
    except ValueError:
        ok = True
    env.true('data and advanced data of different shapes raise a value '
             'error', ok)


def documented_tolerance(env, method):
    """The docstrings say that the tolerances apply to the eigenvalues of
    the (sum) correlation array."""
    a = [env.ireal('a%d' % i, 1, 9) for i in range(2)]
    env.assume(a[0] > a[1])
    X, Y = env.diag([3 * x for x in a]), env.diag([4 * a[0], -4 * a[1]])
    fifth = env.half * 2 / 5
    I = env.array([[1, 0], [0, 1]], 'f')
    U = env.array([[3, 0, 4, 0], [0, 3, 0, 4], [4, 0, -3, 0],
                   [0, -4, 0, 3]], 'f') * fifth
    env.register_svd(np.vstack([X, Y]), U, [5 * x for x in a], I)
    env.register_svd(X, I, [3 * x for x in a], I)
    one = X * env.array([1, 0], 'f')
    env.register_svd(one, I, [3 * a[0]], I)
    atol = env.ireal('atol', 0, 900) + env.half
    k = keep(env, [9 * x ** 2 for x in a], 81, dict(atol=atol))
    if k == 0:
        return
    res = getattr(env.m.dmd, METHODS[method])(X, Y, atol=atol)
    env.true('eigenvalues of the correlation array below atol are truncated, '
             'as documented', np.size(res.eigvals) == k)


def parallel_refused(env, method):
    def go(rank, m):
        try:
            getattr(m.dmd, METHODS[method])(env.array([[1.]], 'f'),
                                            env.array([[1.]], 'f'))
        except RuntimeError:
            return True
        return False
    env.true('refused in parallel', all(env.ranks(2, go)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for method in ('snaps', 'direct'):
        for seq in (False, True):
            for wk in (None, '1d', '2d'):
                for m, n, r in ((1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 1),
                                (2, 2, 1)):
                    if seq and r < n:
                        continue
                    for ld in 'fc':
                        out.append((tls, dict(m=m, n=n, r=r, ld=ld, seq=seq,
                                              weights=wk, method=method)))
                for kind in ('f', 'pair', 'c'):
                    out.append((tls, dict(
                        m=2, n=2, r=2, ld='c' if kind == 'c' else 'f',
                        kind=kind, seq=seq, weights=wk, method=method)))
                for limit in (1, 2):
                    out.append((tls, dict(
                        m=2, n=2, r=2, ld='f', kind='pair', seq=seq,
                        weights=wk, method=method, limit=limit)))
                for idx in ([1], [1, 0], [0, 0, 1]):
                    out.append((tls, dict(
                        m=2, n=2, r=2, ld='f', kind='f', seq=seq, weights=wk,
                        method=method, idx=idx)))
                for tol in ('a', 'r', 'ar'):
                    out.append((tls, dict(
                        m=2, n=2, r=2, ld='f', kind='f', seq=seq, weights=wk,
                        method=method, tol=tol, limit=None if wk else 1)))
            for n, r, lim in ((3, 2, None), (3, 1, None), (3, 3, 1),
                              (3, 3, 2)):
                if seq and r < n or lim == 2 and (q or seq) or \
                        q and r == 2 and method == 'direct':
                    continue
                for wk in (None, '1d'):
                    if wk and (q or seq):
                        continue
                    out.append((tls, dict(
                        m=2, n=n, r=r, ld='f',
                        kind='pair' if r > 1 and lim != 1 else 'f', seq=seq,
                        weights=wk, method=method, limit=lim)))
            if method == 'snaps':
                for wk in (None, '1d', '2d')[:1 if q else 3]:
                    out.append((tls, dict(m=3, n=2, r=2, ld='f', kind='pair',
                                          seq=True, weights=wk,
                                          method=method)))
            out.append((tls, dict(m=2, n=2, r=2, ld='c', kind='c', seq=seq,
                                  weights=None, method=method, idx=[1, 0],
                                  form='list')))
            out.append((tls, dict(m=2, n=2, r=2, ld='f', kind='c', seq=seq,
                                  weights='2d', wld='c', method=method)))
        for n, n2, m2 in ((2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 3)):
            out.append((mismatch, dict(method=method, n=n, n2=n2, m2=m2)))
        out.append((documented_tolerance, dict(method=method)))
        out.append((parallel_refused, dict(method=method)))
    return out
