"""C24 BPOD of data in arrays."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .linear import Hc, dot, Weights, svals, Q, rebuilt
from .c15 import keep

BOUNDS = ('impulse-response data of linear systems with 1 or 2 states, 1..3 '
          'inputs, 1..3 outputs and 1..3 time steps (different ones for the '
          'direct and adjoint data), Hankel arrays up to 4 x 4, of any rank '
          'with distinct singular values, real or complex; weights none, any '
          'positive 1D, any Hermitian positive definite 2D; arbitrary real '
          'tolerances; mode index lists with any order, subsets, repetitions')
OUTSIDE = ('larger systems; equal non-zero singular values; data that are '
           'not impulse responses; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY,
               'in the encoding the singular value decomposition of the '
               'Hankel array is any pair of unitary arrays (4 x 4 ones: 2 x 2 '
               'blocks) and singular values, independent of the data (a '
               'superset of the real cases); claims that involve both use '
               'the Hankel array rebuilt from the decomposition']


def impulse(env, w, nx, p, q, T1, T2, ld):
    """Direct data A^i B and adjoint data (W^-1 A* W)^i W^-1 C*."""
    ldw = 'c' if 'c' in (ld, w.ld) else 'f'
    A = env.tmat('a', nx, nx, ld)
    B = env.tmat('b', nx, p, ld)
    C = env.tmat('c', q, nx, ld)
    Wi = None if w.kind is None else dot(w.Lhi, Hc(w.Lhi))
    X, Y = [B], [Hc(C)]
    for i in range(1, T1):
        X.append(dot(A, X[-1]))
    for i in range(1, T2):
        Y.append(dot(Hc(A), Y[-1]))
    X, Y = np.hstack(X), np.hstack(Y)
    if Wi is not None:
        Y = dot(Wi, Y)
    if env.sym:
        X._ld, Y._ld = ld, ldw
    H = w.ip(Y, X)
    if env.sym:
        H._ld = ldw
    return X, Y, H


def bpod(env, nx, p, q, T1, T2, ld, weights=None, didx=None, aidx=None,
         tol=None, form='array', wld=None):
    w = Weights(env, weights, nx, wld or ld)
    X, Y, H = impulse(env, w, nx, p, q, T1, T2, ld)
    r = min(nx, p * T1, q * T2)
    s, U, V, R = rebuilt(env, H, r)
    X0, Y0 = np.array(X), np.array(Y)
    tk = {}
    if tol is not None:
        if 'a' in tol:
            tk['atol'] = env.real('atol', lo=Q(1, 10**4))
        if 'r' in tol:
            tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    k = keep(env, s[:r], s[0], tk) if tol else r
    if k == 0 or max((didx or [0]) + (aidx or [0])) >= k:
        return
    kw = dict(w.kw(), **tk)
    if p > 1:
        kw['num_inputs'] = p
    if q > 1:
        kw['num_outputs'] = q
    if didx is not None:
        kw['direct_mode_indices'] = list(didx)
    if aidx is not None:
        kw['adjoint_mode_indices'] = list(aidx)
    if form == 'list':
        res = env.m.bpod.compute_BPOD_arrays(X.tolist(), Y.tolist(), **kw)
    else:
        res = env.m.bpod.compute_BPOD_arrays(X, Y, **kw)
    didx = list(range(k)) if didx is None else didx
    aidx = list(range(k)) if aidx is None else aidx
    if not decomp(env, H, R, s, U, V, k, res.Hankel_array, res.L_sing_vecs,
                  res.sing_vals, res.R_sing_vecs):
        return
    ok = res.direct_modes.shape == (nx, len(didx)) and \
        res.adjoint_modes.shape == (nx, len(aidx)) and \
        res.direct_proj_coeffs.shape == (k, p * T1) and \
        res.adjoint_proj_coeffs.shape == (k, q * T2)
    env.true('shapes', ok, detail='%s %s %s %s' % (
        res.direct_modes.shape, res.adjoint_modes.shape,
        res.direct_proj_coeffs.shape, res.adjoint_proj_coeffs.shape))
    if not ok:
        return
    Td, Ta = builders(env, res.L_sing_vecs, res.sing_vals, res.R_sing_vecs,
                      s, k)
    env.eq('direct modes X V E^(-1/2) of the requested indices',
           res.direct_modes, dot(X0, Td)[:, didx])
    env.eq('adjoint modes Y U E^(-1/2) of the requested indices',
           res.adjoint_modes, dot(Y0, Ta)[:, aidx])
    if not env.sym:
        env.eq('biorthonormal modes', w.ip(res.adjoint_modes,
                                           res.direct_modes),
               [[1 if i == j else 0 for j in didx] for i in aidx])
    biorthogonal(env, R, Td, Ta, k)
    env.eq('projection coefficients of the direct data',
           res.direct_proj_coeffs, dot(Hc(Ta), R))
    env.eq('projection coefficients of the adjoint data',
           res.adjoint_proj_coeffs, dot(Hc(Td), Hc(R)))
    if form == 'array':
        env.eq('the data are not modified', [X, Y], [X0, Y0])
    if weights is not None:
        env.eq('the weights are not modified',
               np.diag(w.arg) if weights == '1d' else w.arg, w.W)


def decomp(env, H, R, s, U, V, k, H1, L1, s1, R1):
    m, n = H.shape
    ok = np.shape(H1) == (m, n) and np.shape(L1) == (m, k) and \
        np.shape(s1) == (k,) and np.shape(R1) == (n, k)
    env.true('shapes; as many singular values as are above the tolerances',
             ok, detail='%s %s %s %s, expected %d' % (
                 np.shape(H1), np.shape(L1), np.shape(s1), np.shape(R1), k))
    if not ok:
        return False
    env.eq('the Hankel array is the array of inner products', H1, H)
    env.eq('singular values, descending', s1, s[:k])
    env.eq('right singular vectors', dot(R, R1), L1 * s1)
    env.eq('left singular vectors', dot(Hc(R), L1), R1 * s1)
    env.eq('orthonormal left singular vectors', dot(Hc(L1), L1), np.eye(k))
    env.eq('orthonormal right singular vectors', dot(Hc(R1), R1), np.eye(k))
    return True


def builders(env, L1, s1, R1, s, k):
    inv = env.array([1 / root(env, x) for x in s[:k]], 'f')
    return R1 * inv, L1 * inv


def root(env, x):
    return x ** env.half if env.sym else x ** .5


def biorthogonal(env, R, Td, Ta, k):
    env.eq('biorthonormal modes', dot(Hc(Ta), R, Td), np.eye(k))


def parallel_refused(env):
    def go(rank, m):
        one = env.array([[1.]], 'f')
        try:
            m.bpod.compute_BPOD_arrays(one, one)
        except RuntimeError:
            return True
        return False
    env.true('refused in parallel', all(env.ranks(2, go)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    small = [(1, 1, 1, 1, 1), (1, 1, 1, 2, 2), (1, 2, 1, 1, 2),
             (1, 1, 2, 2, 1), (2, 1, 1, 2, 2), (2, 2, 2, 1, 1),
             (2, 1, 1, 3, 2), (2, 1, 1, 2, 3), (2, 1, 2, 2, 1),
             (2, 2, 1, 1, 3), (2, 3, 1, 1, 2), (2, 1, 3, 2, 1)]
    for z in small:
        for ld in 'fc':
            for wk in (None, '1d', '2d'):
                if q and ld == 'c' and (max(z[1] * z[3], z[2] * z[4]) > 2 or
                                        wk == '2d' and z[0] == 2):
                    continue
                out.append((bpod, dict(zip(('nx', 'p', 'q', 'T1', 'T2'), z),
                                       ld=ld, weights=wk)))
    big = [(1, 2, 1, 2, 2), (1, 1, 2, 2, 2), (2, 2, 1, 2, 2), (2, 1, 2, 2, 2),
           (2, 2, 2, 2, 2), (2, 1, 1, 4, 2), (2, 2, 2, 2, 1), (2, 2, 2, 1, 2)]
    for z in big:
        out.append((bpod, dict(zip(('nx', 'p', 'q', 'T1', 'T2'), z), ld='f',
                               weights=None)))
        if not q or z[0] == 1:
            out.append((bpod, dict(zip(('nx', 'p', 'q', 'T1', 'T2'), z),
                                   ld='c', weights='1d')))
    for wk in (None, '1d', '2d'):
        for d, a in (([1], None), (None, [1]), ([1, 0], [0]),
                     ([0, 0, 1], [1, 0]), ([0], [1])):
            out.append((bpod, dict(nx=2, p=1, q=1, T1=2, T2=2, ld='f',
                                   weights=wk, didx=d, aidx=a)))
    out.append((bpod, dict(nx=2, p=1, q=1, T1=2, T2=2, ld='c', weights=None,
                           form='list')))
    out.append((bpod, dict(nx=2, p=1, q=1, T1=2, T2=2, ld='f', wld='c',
                           weights='2d')))
    for tol in ('a', 'r', 'ar'):
        for wk in (None, '1d') if q else (None, '1d', '2d'):
            out.append((bpod, dict(nx=2, p=1, q=1, T1=2, T2=2, ld='f',
                                   weights=wk, tol=tol)))
    out.append((bpod, dict(nx=2, p=1, q=1, T1=2, T2=2, ld='f', weights=None,
                           tol='ar', didx=[0])))
    out.append((parallel_refused, {}))
    return out
