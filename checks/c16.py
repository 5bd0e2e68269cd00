"""C16 Hermitian eigendecomposition with truncation."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .c15 import Hc, tols

BOUNDS = ('Hermitian arrays up to 3 x 3 real and 2 x 2 complex (thorough: '
          '3 x 3 complex) with arbitrary eigenvectors and arbitrary real '
          'eigenvalues (zero, negative and of equal magnitude included); '
          'arbitrary real tolerances, each absent or present; declared '
          'positive definite or not')
OUTSIDE = 'larger arrays; arrays that are not Hermitian; rounding'
ASSUMPTIONS = [REALS, LAPACK, NUMPY]


def eigh(env, n, ld, signs, atol, rtol, posdef, form='array'):
    u = env.m.util
    Q = env.unitary('q', n, ld)
    lam = []
    for i, s in enumerate(signs):
        lam.append(0 if s == '0' else env.pos('l%d' % i) * (
            1 if s == '+' else -1))
    M = np.dot(Q, np.dot(env.diag(lam), Hc(Q)))
    if env.sym:
        M._ld = ld
    env.register_eigh(M, Q, lam)
    kw = tols(env, atol, rtol)
    if posdef != 'default':
        kw['is_positive_definite'] = posdef
    # what has to be kept
    mag = [abs(x) for x in lam]
    at = kw.get('atol', 1e-13)
    own = None
    if posdef is True:
        for i, x in enumerate(lam):
            if env.decide(x < 0):
                if at is None or env.decide(-x > at):
                    at, own = -x, i
    rt = kw.get('rtol')
    big = mag[0]
    scale = 0 if env.sym else max(mag)
    for x in mag[1:]:
        if env.decide(x > big):
            big = x
    kept = []
    for i, x in enumerate(mag):
        ok = at is None or i != own and env.above(x, at, scale)
        if ok and rt is not None:
            ok = env.above(x / big, rt, 1)
        kept.append(ok)
    k = sum(kept)
    M0 = np.array(M)
    e, V = u.eigh(M.tolist() if form == 'list' else M, **kw)
    env.true('one-dimensional eigenvalues', np.ndim(e) == 1)
    env.true('kept exactly the eigenvalues above the tolerances',
             np.size(e) == k, detail='%d kept, expected %d' % (
                 np.size(e), k))
    env.true('matching eigenvectors', V.shape == (n, np.size(e)))
    if np.size(e) != k or V.shape != (n, k):
        return
    for i in range(k):
        if i:
            env.true('descending magnitudes', abs(e[i - 1]) >= abs(e[i]))
        env.true('kept eigenvalues are above the tolerance',
                 at is None or abs(e[i]) > at)
        if rt is not None:
            env.true('kept eigenvalues are above the relative tolerance',
                     abs(e[i]) / big > rt)
        if posdef is True:
            env.true('only positive eigenvalues', e[i] > 0
                     if any(s == '-' for s in signs) else True)
    if k:
        env.eq('orthonormal eigenvectors', np.dot(Hc(V), V), np.eye(k))
        env.eq('eigenvectors of the array', np.dot(M0, V), V * e)
    # nothing of larger magnitude was dropped
    tot = sum(x for x, ok in zip(lam, kept) if ok)
    env.eq('the right ones are kept', sum(e[i] for i in range(k)), tot)
    if form == 'array':
        env.eq('the input is not modified', M, M0)


def boundary(env, signs, atol, rtol):
    """Magnitudes at the tolerance exactly (diagonal arrays of small
    integers, which LAPACK decomposes without rounding)."""
    n = len(signs)
    lam = [env.ireal('l%d' % i, 1, 9) * (1 if s == '+' else -1)
           for i, s in enumerate(signs)]
    M = env.diag(lam)
    I = env.array([[int(i == j) for j in range(n)] for i in range(n)], 'f')
    env.register_eigh(M, I, lam)
    kw = {}
    if atol:
        kw['atol'] = env.ireal('atol', 0, 9)
    if rtol:
        kw['rtol'] = env.ireal('rtol', 0, 4) / 4
    big = abs(lam[0])
    for x in lam[1:]:
        if env.decide(abs(x) > big):
            big = abs(x)
    k = 0
    for x in lam:
        if atol and not env.decide(abs(x) > kw['atol']):
            continue
        if rtol and not env.decide(abs(x) / big > kw['rtol']):
            continue
        k += 1
    e, V = env.m.util.eigh(M, **kw)
    env.true('kept exactly the eigenvalues above both tolerances (equal is '
             'not above)', np.size(e) == k and V.shape == (n, k),
             detail='%d kept, expected %d' % (np.size(e), k))


def scenarios(tier):
    out = []
    for s in ('+', '-', '++', '+-', '+-+') + (() if tier == 'quick' else
                                              ('--', '-++', '--+')):
        for at, rt in ((1, 0), (0, 1), (1, 1)):
            if len(s) == 3 and at and rt and tier == 'quick':
                continue
            out.append((boundary, dict(signs=s, atol=at, rtol=rt)))
    q = tier == 'quick'
    cases = [(1, 'f', '+'), (1, 'f', '-'), (1, 'c', '+'), (2, 'f', '++'),
             (2, 'f', '+-'), (2, 'f', '+0'), (2, 'f', '-0'), (2, 'f', '--'),
             (2, 'c', '++'), (2, 'c', '+-'), (3, 'f', '+++'),
             (3, 'f', '+-+')]
    if not q:
        cases += [(3, 'f', '+-0'), (3, 'f', '--+'), (3, 'c', '++-'),
                  (2, 'c', '--'), (3, 'f', '---'), (3, 'c', '+++')]
    for n, ld, s in cases:
        for at in ('default', 'none', 'sym'):
            for rt in ('default', 'sym'):
                for pd in (True, 'default'):
                    if '0' in s and pd is True:
                        # rounding decides whether a zero counts as negative
                        continue
                    if q and n == 3 and (pd == 'default') == (rt == 'sym'):
                        continue
                    if q and n == 3 and s == '+++' and rt == 'sym':
                        continue
                    out.append((eigh, dict(n=n, ld=ld, signs=s, atol=at,
                                           rtol=rt, posdef=pd)))
    out.append((eigh, dict(n=2, ld='f', signs='+-', atol='sym', rtol='sym',
                           posdef=False)))
    out.append((eigh, dict(n=2, ld='f', signs='+-', atol='zero', rtol='none',
                           posdef=True, form='list')))
    return out
