"""Dynamic mode decompositions: low-order maps with known eigenvectors and
the claims about their results."""
import numpy as np
from .linear import Hc, dot
from .c17 import pair


def eig_free(env, k, kind, name=''):
    """Eigenvectors and eigenvalues of a k x k array, free; the array."""
    real = kind == 'f'
    if k == 1:
        lam = [env.scal('l' + name, 'f' if kind in ('f', 'pair') else 'c')]
        R = L = env.array([[1]], 'f')
        det = 1
    elif k == 2:
        R, L, _, _ = pair(env, kind, name)
        det = R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0]
        lam = [env.scal('l0' + name, 'f' if real else 'c')]
        lam.append(np.conj(lam[0]) if kind == 'pair' else
                   env.scal('l1' + name, 'f' if real else 'c'))
    else:
        ld = kind[-1]
        R = L = env.unitary('r' + name, k, ld)
        lam = [env.scal('l%d%s' % (i, name), ld) for i in range(k)]
        det = 1
    for i in range(k):
        env.assume(lam[i] != 0)
        for j in range(i):
            env.assume(lam[i] != lam[j])
    K = dot(R, env.diag([x / det for x in lam], 'f' if real else 'c'), Hc(L))
    return R, lam, L, K


def low_map(env, Ki, kind, name=''):
    """Registers free eigenvectors of the low-order map Ki; the map to be
    used together with them."""
    k = len(Ki)
    if not env.sym:
        w, v = np.linalg.eig(Ki)
        env.assume(np.linalg.cond(v) < 1e3 and min(abs(w)) > 1e-3)
        for i in range(k):
            for j in range(i):
                env.assume(abs(w[i] - w[j]) > 1e-3 * max(abs(w)))
        return Ki
    R, lam, L, K = eig_free(env, k, kind, name)
    Ki._ld = 'c' if kind[-1] == 'c' else 'f'
    env.register_eig(Ki, R, lam, L)
    return K


def decomposition(env, k, n, s, V, C, M, Kr, res, what='correlation array'):
    """Claims about the eigenvalues and eigenvectors.  ``C`` agrees with the
    known decomposition.  ``res``: eigvals, R, L, ce, cv.  Returns False if
    the shapes are wrong."""
    sh = {'eigvals': (k,), 'R': (k, k), 'L': (k, k), 'ce': (k,),
          'cv': (n, k)}
    ok = all(np.shape(res[x]) == sh[x] for x in sh)
    env.true('shapes; as many eigenvalues as are above the tolerances and '
             'the limit', ok, detail='%s, expected %d' % (
                 {x: np.shape(res[x]) for x in sh}, k))
    if not ok:
        return False
    env.eq('eigenvalues of the %s, descending' % what, res['ce'],
           [x ** 2 for x in s[:k]])
    env.eq('eigenvectors of the %s' % what, dot(C, res['cv']),
           res['cv'] * res['ce'])
    env.eq('orthonormal eigenvectors of the %s' % what,
           dot(Hc(res['cv']), res['cv']), np.eye(k))
    # the map in the coordinates of the returned eigenvectors
    if env.sym:
        D = dot(Hc(V[:, :k]), res['cv'])
        K = dot(Hc(D), Kr, D)
    else:
        si = np.diag([1 / x for x in s[:k]])
        K = dot(si, Hc(res['cv']), M, res['cv'], si)
    env.eq('eigenvalues and right eigenvectors of the low-order map',
           dot(K, res['R']), res['R'] * res['eigvals'])
    env.eq('left eigenvectors of the low-order map',
           dot(Hc(K), res['L']), res['L'] * np.conj(res['eigvals']))
    env.eq('biorthonormal left and right eigenvectors',
           dot(Hc(res['L']), res['R']), np.eye(k))
    return True


def builders(env, k, s, res):
    """Combinations of the data that give the modes."""
    VS = res['cv'] * env.array([1 / x for x in s[:k]], 'f')
    P = dot(VS, res['R'])
    return P, P * (1 / res['eigvals']), dot(VS, res['L'])


def coefficients(env, k, n, C, M, adjoint, res):
    """``res``: spectral, proj, adv (or None)."""
    sh = {'spectral': (k,), 'proj': (k, n), 'adv': (k, n)}
    for x in sh:
        env.true('shape of the %s coefficients' % x,
                 np.shape(res[x]) == sh[x], detail=str(np.shape(res[x])))
        if np.shape(res[x]) != sh[x]:
            return
    want = dot(Hc(adjoint), C)
    env.eq('projection coefficients are the biorthogonal projections of the '
           'data', res['proj'], want)
    env.eq('projection coefficients of the advanced data', res['adv'],
           dot(Hc(adjoint), M))
    sq = [x * np.conj(x) for x in want[:, 0]]
    env.eq('spectral coefficients are the magnitudes of the coefficients of '
           'the first vector', [x ** 2 for x in res['spectral']],
           [x.real if not env.sym else x for x in sq])
    for x in res['spectral']:
        env.true('spectral coefficients are not negative', x >= 0)
