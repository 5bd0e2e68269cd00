"""C22 POD of data in arrays."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .linear import Hc, dot, Weights, data, phase_free, svals, Q
from .c15 import keep

BOUNDS = ('data of 1..3 elements and 1..3 vectors (complex: up to 3 x 2 and '
          '2 x 2) of any rank with distinct singular values; weights none, '
          'any positive 1D, any Hermitian positive definite 2D; arbitrary '
          'real tolerances; mode index lists with any order, subsets, '
          'repetitions')
OUTSIDE = ('larger arrays; equal non-zero singular values; rounding; '
           'parallel runs (refused by the functions, checked)')
ASSUMPTIONS = [REALS, LAPACK, NUMPY]

METHODS = {'snaps': 'compute_POD_arrays_snaps_method',
           'direct': 'compute_POD_arrays_direct_method'}


def judge(env, res, w, X, s, V, k, idx, method, cut):
    """k modes are kept."""
    n = X.shape[1]
    E = [x ** 2 for x in s[:k]]
    env.true('as many eigenvalues as are above the tolerances',
             np.shape(res.eigvals) == (k,), detail='%s, expected %d' % (
                 np.shape(res.eigvals), k))
    ok = np.shape(res.eigvals) == (k,) and res.eigvecs.shape == (n, k) and \
        res.modes.shape == (X.shape[0], len(idx)) and \
        res.proj_coeffs.shape == (k, n)
    env.true('shapes', ok, detail='%s %s %s %s' % (
        np.shape(res.eigvals), res.eigvecs.shape, res.modes.shape,
        res.proj_coeffs.shape))
    if not ok:
        return
    env.eq('eigenvalues of the correlation array, descending', res.eigvals,
           E)
    # X* W X V = V E, V orthonormal
    C = w.ip(X, X)
    env.eq('eigenvectors of the correlation array', dot(C, res.eigvecs),
           res.eigvecs * res.eigvals)
    env.eq('orthonormal eigenvectors', dot(Hc(res.eigvecs), res.eigvecs),
           np.eye(k))
    if method == 'snaps':
        env.eq('correlation array', res.correlation_array, C)
    # requested modes, in the requested order: mode i = X v_i / s_i
    want = dot(X, res.eigvecs) * env.array([1 / x for x in s[:k]], 'f')
    env.eq('modes are the combinations of the data of the requested indices',
           res.modes, want[:, idx])
    if len(set(idx)) == len(idx):
        env.eq('orthonormal modes', w.ip(res.modes, res.modes),
               np.eye(len(idx)))
    env.eq('projection coefficients are modes* W X',
           res.proj_coeffs[idx], w.ip(res.modes, X))
    env.eq('projection coefficients of all modes', res.proj_coeffs,
           w.ip(want, X))
    if not cut and list(idx) == list(range(k)):
        env.eq('modes times coefficients is the data',
               dot(res.modes, res.proj_coeffs), X)


def pod(env, m, n, r, ld, weights, method, idx=None, gen=None, wld=None,
        form='array', idxform='list'):
    w = Weights(env, weights, m, wld or ld)
    X, U, s, V = data(env, w, m, n, r, ld, gen=gen)
    X0 = np.array(X)
    kw = w.kw()
    if idx is not None:
        kw['mode_indices'] = {'list': list, 'array': np.array,
                              'tuple': tuple}[idxform](idx)
    f = getattr(env.m.pod, METHODS[method])
    res = f(X.tolist() if form == 'list' else X, **kw)
    judge(env, res, w, X0, s, V, r, list(range(r)) if idx is None else
          list(idx), method, False)
    if form == 'array':
        env.eq('the data are not modified', X, X0)
    if weights == '1d':
        env.eq('the weights are not modified', np.diag(w.arg), w.W)
    elif weights == '2d':
        env.eq('the weights are not modified', w.arg, w.W)


def tolerances(env, m, n, r, weights, method, atol, rtol, idx=None):
    """Arbitrary tolerances, down to everything truncated."""
    w = Weights(env, weights, m)
    X, U, s, V = data(env, w, m, n, r, 'f')
    kw = w.kw()
    tk = {}
    if atol == 'sym':
        tk['atol'] = env.real('atol', lo=Q(1, 10**4))
    elif atol == 'none':
        tk['atol'] = None
    if rtol == 'sym':
        tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    kw.update(tk)
    v = [x ** 2 for x in s] if method == 'snaps' else s
    k = keep(env, v, v[0], tk)
    if k == 0 or idx is not None and max(idx) >= k:
        return
    if idx is not None:
        kw['mode_indices'] = list(idx)
    X0 = np.array(X)
    res = getattr(env.m.pod, METHODS[method])(X, **kw)
    judge(env, res, w, X0, s, V, k, list(range(k)) if idx is None else
          list(idx), method, k < r)


def agree(env, m, n, r, ld, weights, idx, gen=None):
    w = Weights(env, weights, m, ld)
    X, U, s, V = data(env, w, m, n, r, ld, gen=gen)
    kw = w.kw()
    a = env.m.pod.compute_POD_arrays_snaps_method(X, mode_indices=idx, **kw)
    b = env.m.pod.compute_POD_arrays_direct_method(X, mode_indices=idx, **kw)
    env.eq('both methods give the same eigenvalues', a.eigvals, b.eigvals)
    phase_free(env, 'both methods give the same modes up to phase', a.modes,
               b.modes)
    phase_free(env, 'both methods give the same eigenvectors up to phase',
               a.eigvecs, b.eigvecs)
    phase_free(env, 'both methods give the same coefficients up to phase',
               a.proj_coeffs.T, b.proj_coeffs.T)


def documented_tolerance(env, method):
    """The docstrings say that the tolerances apply to the eigenvalues of
    the correlation array."""
    s = [env.ireal('s%d' % i, 1, 9) for i in range(2)]
    env.assume(s[0] > s[1])
    X = env.diag(s)
    I = env.array([[1, 0], [0, 1]], 'f')
    env.register_svd(X, I, s, I)
    atol = env.ireal('atol', 0, 90) + env.half
    k = keep(env, [x ** 2 for x in s], s[0] ** 2, dict(atol=atol))
    if k == 0:
        return
    res = getattr(env.m.pod, METHODS[method])(X, atol=atol)
    env.true('eigenvalues of the correlation array below atol are truncated, '
             'as documented', np.size(res.eigvals) == k)


def parallel_refused(env, method):
    """The array functions must not run on several workers."""
    def go(rank, m):
        try:
            getattr(m.pod, METHODS[method])(env.array([[1.]], 'f'))
        except RuntimeError:
            return True
        return False
    env.true('refused in parallel', all(env.ranks(2, go)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for method in ('snaps', 'direct'):
        for m, n, r in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2), (2, 2, 1),
                        (3, 2, 2), (2, 3, 2), (3, 3, 2)):
            for wk in (None, '1d', '2d'):
                if m == 3 and n == 3 and q and (
                        wk == '2d' or (wk is None) != (method == 'direct')):
                    continue
                out.append((pod, dict(m=m, n=n, r=r, ld='f', weights=wk,
                                      method=method)))
                if m + n < 5:
                    out.append((pod, dict(m=m, n=n, r=r, ld='c', weights=wk,
                                          method=method)))
        for gen in 'uv':
            out.append((pod, dict(m=3, n=2, r=2, ld='c', weights=None,
                                  method=method, gen=gen)))
            if not q:
                for wk in ('1d', '2d'):
                    out.append((pod, dict(m=3, n=2, r=2, ld='c', weights=wk,
                                          method=method, gen=gen)))
                    out.append((pod, dict(m=2, n=3, r=2, ld='c', weights=wk,
                                          method=method, gen=gen)))
        # real data with complex weights
        out.append((pod, dict(m=2, n=2, r=2, ld='f', wld='c', weights='2d',
                              method=method)))
        for wk in (None, '1d', '2d'):
            for idx in ([0], [1], [1, 0], [0, 0, 1]):
                out.append((pod, dict(m=2, n=2, r=2, ld='f', weights=wk,
                                      method=method, idx=idx)))
        out.append((pod, dict(m=3, n=3, r=3, ld='f', weights=None,
                              method=method, idx=[2, 0])))
        for fm in ('array', 'tuple'):
            out.append((pod, dict(m=2, n=2, r=2, ld='c', weights='1d',
                                  method=method, idx=[1, 0], idxform=fm)))
        out.append((pod, dict(m=2, n=2, r=2, ld='c', weights=None,
                              method=method, form='list')))
        for at in ('default', 'none', 'sym'):
            for rt in ('default', 'sym'):
                for wk in (None, '1d', '2d'):
                    out.append((tolerances, dict(
                        m=2, n=2, r=2, weights=wk, method=method, atol=at,
                        rtol=rt)))
                if not q or (method, at, rt) == ('direct', 'none', 'sym'):
                    out.append((tolerances, dict(
                        m=3, n=3, r=3, weights=None, method=method, atol=at,
                        rtol=rt)))
        for rt in ('default', 'sym'):
            out.append((tolerances, dict(m=2, n=3, r=2, weights='1d',
                                         method=method, atol='sym', rtol=rt,
                                         idx=[0])))
        out.append((documented_tolerance, dict(method=method)))
        out.append((parallel_refused, dict(method=method)))
    for ld in 'fc':
        for wk in (None, '1d', '2d'):
            for idx in (None, [1]):
                out.append((agree, dict(m=2, n=2, r=2, ld=ld, weights=wk,
                                        idx=idx)))
    out.append((agree, dict(m=3, n=2, r=2, ld='f', weights='2d', idx=[1, 0])))
    return out
