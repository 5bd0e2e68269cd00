"""C26 DMD of data in arrays."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .linear import Hc, dot, Weights, data, Q
from .c15 import keep
from .dmdlib import low_map, decomposition, builders, coefficients

BOUNDS = ('1..3 elements, 1..3 vectors (sequential: one more), data of any '
          'rank up to 2 with distinct singular values and any advanced data '
          'for which the low-order map has distinct non-zero eigenvalues '
          '(real or complex); weights none, any positive 1D, any Hermitian '
          'positive definite 2D; arbitrary real tolerances, every limit on '
          'the number of eigenvalues; mode index lists with any order, '
          'subsets, repetitions')
OUTSIDE = ('larger arrays; rank above 2; equal singular values; repeated or '
           'zero eigenvalues; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY,
               'in the encoding the eigenvectors and eigenvalues of the '
               'low-order map are free, independent of the data (a superset '
               'of the real cases); claims that involve both use the map '
               'rebuilt from them']

METHODS = {'snaps': 'compute_DMD_arrays_snaps_method',
           'direct': 'compute_DMD_arrays_direct_method'}


def inputs(env, m, n, r, ld, weights, seq, gen=None, wld=None):
    w = Weights(env, weights, m, wld or ld)
    X, U, s, V = data(env, w, m, n, r, ld, gen=gen)
    ldw = 'c' if 'c' in (ld, w.ld) else 'f'
    if seq:
        last = env.tmat('z', m, 1, ld)
        Z = np.hstack([X, last])
        if env.sym:
            Z._ld = ldw
        Y = Z[:, 1:]
    else:
        Z, Y = X, env.tmat('y', m, n, ld)
    return w, X, Y, Z, U, s, V


def dmd(env, m, n, r, ld, weights, method, seq, kind=None, idx=None,
        limit=None, tol=None, form='array', gen=None, wld=None):
    w, X, Y, Z, U, s, V = inputs(env, m, n, r, ld, weights, seq, gen, wld)
    X0, Y0, Z0 = np.array(X), np.array(Y), np.array(Z)
    tk = {}
    if tol is not None:
        if 'a' in tol:
            tk['atol'] = env.real('atol', lo=Q(1, 10**4))
        if 'r' in tol:
            tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    v = [x ** 2 for x in s] if method == 'snaps' else s
    k = keep(env, v, v[0], tk) if tol else r
    kw = dict(w.kw(), **tk)
    if limit is not None:
        kw['max_num_eigvals'] = limit
        k = min(k, limit)
    if k == 0 or idx is not None and max(idx) >= k:
        return
    if idx is not None:
        kw['mode_indices'] = list(idx)
    Yw, Xw = w.whiten(Y0), w.whiten(X0)
    if env.sym:
        C = dot(V[:, :r], env.diag([x ** 2 for x in s]), Hc(V[:, :r]))
        VS = V[:, :k] * env.array([1 / x for x in s[:k]], 'f')
        Ki = dot(Hc(U[:, :k]), Yw, VS)
        Kr = low_map(env, Ki, kind or ld)
        M = dot(Hc(Xw), Yw)
    else:
        C, M = w.ip(X0, X0), w.ip(X0, Y0)
        VS = V[:, :k] / s[:k]
        Kr = low_map(env, dot(Hc(VS), M, VS), kind)
    if not seq:
        kw['adv_vecs'] = Y.tolist() if form == 'list' else Y
    f = getattr(env.m.dmd, METHODS[method])
    res = f(Z.tolist() if form == 'list' else Z, **kw)
    d = dict(eigvals=res.eigvals, R=res.R_low_order_eigvecs,
             L=res.L_low_order_eigvecs, ce=res.correlation_array_eigvals,
             cv=res.correlation_array_eigvecs, spectral=res.spectral_coeffs,
             proj=res.proj_coeffs, adv=res.adv_proj_coeffs)
    if not decomposition(env, k, n, s, V, C, M, Kr, d):
        return
    if method == 'snaps':
        env.eq('correlation array', res.correlation_array, C)
        env.eq('cross-correlation array', res.cross_correlation_array, M)
    P, E, A = builders(env, k, s, d)
    idx = list(range(k)) if idx is None else idx
    ok = all(np.shape(x) == (m, len(idx)) for x in (
        res.exact_modes, res.proj_modes, res.adjoint_modes))
    env.true('shapes of the modes', ok)
    if ok:
        env.eq('exact modes Y V E^(-1/2) R / eigenvalue of the requested '
               'indices', res.exact_modes, dot(Y0, E)[:, idx])
        env.eq('projected modes X V E^(-1/2) R of the requested indices',
               res.proj_modes, dot(X0, P)[:, idx])
        env.eq('adjoint modes X V E^(-1/2) L of the requested indices',
               res.adjoint_modes, dot(X0, A)[:, idx])
        if not env.sym:
            Ui = dot(Xw, VS)
            op = dot(w.Lhi if w.kind else np.eye(m), Yw, VS, Hc(Ui),
                     w.Lh if w.kind else np.eye(m))
            env.eq('exact modes are eigenvectors of the least-squares map',
                   dot(op, res.exact_modes),
                   res.exact_modes * res.eigvals[idx])
            env.eq('projected modes are the projections of the exact ones',
                   dot(Ui, Hc(Ui), w.whiten(res.exact_modes)),
                   w.whiten(res.proj_modes))
            env.eq('adjoint modes are biorthogonal to the projected ones',
                   w.ip(res.adjoint_modes, res.proj_modes),
                   [[1 if i == j else 0 for j in idx] for i in idx])
    coefficients(env, k, n, C, M, A, d)
    if form == 'array':
        env.eq('the data are not modified', [Z, Y], [Z0, Y0])
    if weights is not None:
        env.eq('the weights are not modified',
               np.diag(w.arg) if weights == '1d' else w.arg, w.W)


def mismatch(env, method, n, n2, m2):
    X = env.rmat('x', 2, n)
    Y = env.rmat('y', m2, n2)
    try:
        getattr(env.m.dmd, METHODS[method])(X, Y)
        ok = False
    except ValueError:
        ok = True
    env.true('data and advanced data of different shapes raise a value '
             'error', ok)


def documented_tolerance(env, method):
    """The docstrings say that the tolerances apply to the eigenvalues of
    the correlation array."""
    s = [env.ireal('s%d' % i, 1, 9) for i in range(2)]
    env.assume(s[0] > s[1])
    X = env.diag(s)
    I = env.array([[1, 0], [0, 1]], 'f')
    env.register_svd(X, I, s, I)
    atol = env.ireal('atol', 0, 90) + env.half
    k = keep(env, [x ** 2 for x in s], s[0] ** 2, dict(atol=atol))
    if k == 0:
        return
    Y = env.array([[2, 0], [0, 3]], 'f') if env.sym else np.diag([2., 3.])
    Y = dot(X, Y)
    res = getattr(env.m.dmd, METHODS[method])(X, Y, atol=atol)
    env.true('eigenvalues of the correlation array below atol are truncated, '
             'as documented', np.size(res.eigvals) == k)


def parallel_refused(env, method):
    def go(rank, m):
        try:
            getattr(m.dmd, METHODS[method])(env.array([[1.]], 'f'),
                                            env.array([[1.]], 'f'))
        except RuntimeError:
            return True
        return False
    env.true('refused in parallel', all(env.ranks(2, go)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for method in ('snaps', 'direct'):
        for seq in (False, True):
            for wk in (None, '1d', '2d'):
                for m, n, r in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1)):
                    for ld in 'fc':
                        out.append((dmd, dict(m=m, n=n, r=r, ld=ld, seq=seq,
                                              weights=wk, method=method)))
                for kind in ('f', 'pair', 'c'):
                    out.append((dmd, dict(
                        m=2, n=2, r=2, ld='c' if kind == 'c' else 'f',
                        kind=kind, seq=seq, weights=wk, method=method)))
                for m, n in ((3, 2), (2, 3), (3, 3)):
                    if q and (wk == '2d' or m + n == 6):
                        continue
                    for kind in ('f', 'pair'):
                        out.append((dmd, dict(
                            m=m, n=n, r=2, ld='f', kind=kind, seq=seq,
                            weights=wk, method=method)))
                for idx in ([1], [1, 0], [0, 0, 1]):
                    out.append((dmd, dict(
                        m=2, n=2, r=2, ld='f', kind='f', seq=seq, weights=wk,
                        method=method, idx=idx)))
                for limit in (1, 2, 3):
                    out.append((dmd, dict(
                        m=2, n=2, r=2, ld='f', kind='pair', seq=seq,
                        weights=wk, method=method, limit=limit)))
                for tol in ('a', 'r', 'ar'):
                    out.append((dmd, dict(
                        m=2, n=2, r=2, ld='f', kind='f', seq=seq, weights=wk,
                        method=method, tol=tol, limit=None if wk else 1)))
            out.append((dmd, dict(m=2, n=2, r=2, ld='c', kind='c', seq=seq,
                                  weights=None, method=method, idx=[1, 0],
                                  form='list')))
            out.append((dmd, dict(m=2, n=2, r=2, ld='f', kind='c', seq=seq,
                                  weights='2d', wld='c', method=method)))
            out.append((dmd, dict(m=3, n=2, r=2, ld='f', kind='f', seq=seq,
                                  weights=None, method=method, tol='ar',
                                  idx=[0])))
            if not q:
                for g in 'uv':
                    for wk in (None, '1d'):
                        out.append((dmd, dict(
                            m=3, n=2, r=2, ld='c', kind='c', seq=seq,
                            weights=wk, method=method, gen=g)))
                        out.append((dmd, dict(
                            m=2, n=3, r=2, ld='c', kind='c', seq=seq,
                            weights=wk, method=method, gen=g)))
                out.append((dmd, dict(m=3, n=3, r=3, ld='f', kind='nf',
                                      seq=seq, weights=None, method=method)))
        for n, n2, m2 in ((2, 1, 2), (1, 2, 2), (2, 2, 1), (2, 2, 3)):
            out.append((mismatch, dict(method=method, n=n, n2=n2, m2=m2)))
        out.append((documented_tolerance, dict(method=method)))
        out.append((parallel_refused, dict(method=method)))
    return out
