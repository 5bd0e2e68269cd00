"""C15 truncated singular value decomposition."""
import numpy as np
from .common import REALS, LAPACK, NUMPY

BOUNDS = ('arrays up to 3 x 3 real and 3 x 2 complex (thorough: 4 x 3 real, '
          '3 x 3 complex) of every rank, built from arbitrary rotations and '
          'phases and arbitrary distinct positive singular values; arbitrary '
          'real tolerances (zero and negative included), each absent or '
          'present; LAPACK free to choose column phases')
OUTSIDE = ('larger arrays; equal nonzero singular values; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY]


def Hc(a):
    return np.conjugate(a).T


def data(env, m, n, r, ld):
    """M = U diag(s) V* of rank r with s strictly decreasing."""
    U = env.unitary('u', m, ld)
    V = env.unitary('v', n, ld, left=False)
    s = [env.pos('s%d' % i) for i in range(r)]
    for i in range(1, r):
        env.assume(s[i - 1] > s[i])
    M = np.dot(U[:, :r], np.dot(env.diag(s), Hc(V[:, :r]))) if r else \
        env.array([[0] * n for _ in range(m)], ld)
    if env.sym and r:
        M._ld = ld
    if r:
        env.register_svd(M, U, s, V)
    return M, s, U, V


def tols(env, atol, rtol):
    kw = {}
    if atol != 'default':
        kw['atol'] = None if atol == 'none' else 0. if atol == 'zero' else \
            env.real('atol')
    if rtol != 'default':
        kw['rtol'] = None if rtol == 'none' else 0. if rtol == 'zero' else \
            env.real('rtol')
    return kw


def keep(env, vals, biggest, kw, default=1e-13, exact=False):
    """How many of the (descending) magnitudes pass the tolerances."""
    at = kw.get('atol', default)
    rt = kw.get('rtol', None)
    k = 0
    for i, x in enumerate(vals):
        if at is not None and not (env.decide(x > at) if exact else
                                   env.above(x, at, biggest)):
            continue
        if rt is not None and not (env.decide(x / biggest > rt) if exact else
                                   env.above(x / biggest, rt, 1)):
            continue
        k += 1
    return k


def svd(env, m, n, r, ld, atol, rtol, form='array'):
    u = env.m.util
    M, s, U, V = data(env, m, n, r, ld)
    if ld == 'f' and env.sym and r:
        M._ld = 'f'
    kw = tols(env, atol, rtol)
    M0 = np.array(M)
    arg = M.tolist() if form == 'list' else M
    S0 = list(s) + [0] * (min(m, n) - r)
    k = keep(env, S0, s[0] if r else 1, kw)
    if r == 0 and kw.get('rtol') is not None:
        return
    Uo, So, Vo = u.svd(arg, **kw)
    env.true('one-dimensional singular values', np.ndim(So) == 1)
    env.true('kept exactly the singular values above both tolerances',
             np.size(So) == k, detail='%s kept, expected %s' % (
                 np.size(So), k))
    if np.size(So) != k:
        return
    env.eq('the largest ones, descending', So, np.array(S0[:k]) if env.sym
           else np.array(S0[:k], dtype=float))
    env.true('shapes', Uo.shape == (m, k) and Vo.shape == (n, k),
             detail='%s %s' % (Uo.shape, Vo.shape))
    if Uo.shape != (m, k) or Vo.shape != (n, k):
        return
    if k:
        env.eq('orthonormal left vectors', np.dot(Hc(Uo), Uo), np.eye(k))
        env.eq('orthonormal right vectors', np.dot(Hc(Vo), Vo), np.eye(k))
        kk = min(k, r)
        env.eq('U diag(S) V* is the array restricted to the kept triplets',
               np.dot(Uo * So, Hc(Vo)),
               np.dot(U[:, :kk], np.dot(env.diag(s[:kk]), Hc(V[:, :kk])))
               if kk else np.zeros((m, n)))
        if k >= r:
            env.eq('nothing dropped: the product is the array',
                   np.dot(Uo * So, Hc(Vo)), M0)
    if form == 'array':
        env.eq('the input is not modified', M, M0)


def boundary(env, n, atol, rtol):
    """Singular values at the tolerance exactly (diagonal arrays of small
    integers, which LAPACK decomposes without rounding)."""
    s = [env.ireal('s%d' % i, 1, 9) for i in range(n)]
    for i in range(1, n):
        env.assume(s[i - 1] > s[i])
    M = env.diag(s)
    I = env.array([[int(i == j) for j in range(n)] for i in range(n)], 'f')
    env.register_svd(M, I, s, I)
    kw = {}
    if atol:
        kw['atol'] = env.ireal('atol', 0, 9)
    if rtol:
        kw['rtol'] = env.ireal('rtol', 0, 4) / 4
    k = keep(env, s, s[0], kw, exact=True)
    U, S, V = env.m.util.svd(M, **kw)
    env.true('kept exactly the singular values above both tolerances '
             '(equal is not above)', np.size(S) == k and U.shape == (n, k) and
             V.shape == (n, k), detail='%d kept, expected %d' % (
                 np.size(S), k))


def zero(env, m, n, rtol):
    """The zero array (the ratio to the largest is not defined)."""
    u = env.m.util
    kw = dict(rtol=env.real('rtol', lo=0)) if rtol else {}
    M = env.array([[0] * n for _ in range(m)], 'f')
    env.register_svd(M, *[env.array(x, 'f') if len(x) else x for x in (
        np.eye(m).tolist(), [], np.eye(n).tolist())])
    U, S, V = u.svd(M, **kw)
    env.true('the zero array has nothing above the default tolerance',
             np.size(S) == 0 and U.shape == (m, 0) and V.shape == (n, 0))
    U, S, V = u.svd(M, atol=None)
    env.true('nothing is dropped without tolerances',
             np.size(S) == min(m, n))
    env.eq('product', np.dot(U * S, Hc(V)), np.zeros((m, n)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    shapes = [(1, 1, 1, 'fc'), (2, 1, 1, 'fc'), (1, 3, 1, 'f'),
              (2, 2, 1, 'fc'), (2, 2, 2, 'fc'), (3, 2, 2, 'fc'),
              (2, 3, 2, 'fc'), (3, 3, 2, 'f'), (3, 3, 3, 'f')]
    if not q:
        shapes += [(3, 3, 1, 'f'), (3, 1, 1, 'fc'), (1, 2, 1, 'fc'),
                   (3, 2, 1, 'fc'), (2, 3, 1, 'fc'), (3, 3, 3, 'c')]
    for m, n, r, lds in shapes:
        for ld in lds:
            for at in ('default', 'none', 'sym'):
                for rt in ('default', 'sym'):
                    if q and m + n > 5 and (at, rt) in (
                            ('default', 'sym'), ('none', 'default')):
                        continue
                    out.append((svd, dict(m=m, n=n, r=r, ld=ld, atol=at,
                                          rtol=rt)))
    for form in ('list',):
        out.append((svd, dict(m=2, n=2, r=2, ld='f', atol='sym', rtol='sym',
                              form=form)))
    out.append((svd, dict(m=2, n=2, r=1, ld='f', atol='zero', rtol='none')))
    out.append((svd, dict(m=2, n=2, r=1, ld='f', atol='none', rtol='zero')))
    for n in (1, 2):
        for at, rt in ((True, False), (False, True), (True, True)):
            out.append((boundary, dict(n=n, atol=at, rtol=rt)))
    for m, n in ((1, 1), (2, 3), (3, 2)):
        for rt in (False, True):
            out.append((zero, dict(m=m, n=n, rtol=rt)))
    return out
