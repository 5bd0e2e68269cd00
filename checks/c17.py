"""C17 biorthogonal eigendecompositions."""
import numpy as np
from .common import REALS, LAPACK, NUMPY

BOUNDS = ('diagonalisable arrays 1 x 1 to 3 x 3 with distinct (zero, real, '
          'complex) eigenvalues: all 1 x 1 and 2 x 2 ones real or complex; '
          '3 x 3: all normal ones and all unitary rotations of (2 x 2) + '
          '(1 x 1) blocks; scale choices in any capitalisation')
OUTSIDE = 'larger arrays; repeated eigenvalues; rounding'
ASSUMPTIONS = [REALS, LAPACK, NUMPY]


def Hc(a):
    return np.conjugate(a).T


def pair(env, kind, name=''):
    """Unit right and left eigenvectors of a 2 x 2 array, and the
    eigenvalues."""
    def unit(v, ld):
        v = v + name
        g = env.givens(v, 'f')
        c, s = g[0, 0], g[1, 0]
        if ld == 'c':
            s = s * env.phase(v + '.e')
        return c, s
    if kind == 'pair':          # real array, complex conjugate eigenvalues
        c, s = unit('r', 'c')
        r = [[c, np.conj(c)], [s, np.conj(s)]]
    else:
        (a, b), (c, d) = unit('r', kind), unit('t', kind)
        r = [[a, c], [b, d]]
    det = r[0][0] * r[1][1] - r[0][1] * r[1][0]
    env.assume(abs(det) ** 2 > 0.01 if not env.sym else
               (det * np.conj(det)).real > 0)
    l = [[np.conj(r[1][1]), -np.conj(r[1][0])],
         [-np.conj(r[0][1]), np.conj(r[0][0])]]
    if kind == 'pair':
        mu = [env.cplx('m' + name)]
        mu.append(-np.conj(mu[0]))
    else:
        mu = [env.scal('m%d' % i + name, kind) for i in (0, 1)]
    d = mu[0] - mu[1]
    env.assume((d * np.conj(d)).real > (0 if env.sym else 1e-2))
    lam = [x * det for x in mu]
    ld = 'f' if kind == 'f' else 'c'
    R, L = env.array(r, ld), env.array(l, ld)
    K = np.dot(R, np.dot(env.diag(mu, ld), Hc(L)))
    return R, L, lam, real(env, K) if kind == 'pair' else K


def real(env, K):
    """The same (real) numbers in a real array."""
    if env.sym:
        return env.array([[(x + np.conj(x)) * env.half for x in row]
                          for row in K.tolist()], 'f')
    return np.real(K).copy()


def rotation(env):
    """Real 2 x 2 arrays with equal diagonal entries and eigenvalues that may
    be as close to real as one likes."""
    g = env.givens('r', 'f')
    c, s = g[0, 0], g[1, 0]
    a, w = env.real('a'), env.pos('w')
    env.assume(c > (0 if env.sym else .1))
    env.assume(s > (0 if env.sym else .1))
    j = env.I
    R = env.array([[c, c], [s * j * -1, s * j]], 'c')
    L = env.array([[s, s], [c * j * -1, c * j]], 'c')
    im = w * c * s
    return R, L, [a + im * j, a - im * j], env.array(
        [[a, w * c * c * -1], [w * s * s, a]], 'f')


def array(env, n, kind):
    if kind == 'rot':
        return rotation(env)
    if n == 1:
        x = env.scal('a', kind)
        one = env.array([[1]], kind)
        return one, one, [x], env.array([[x]], kind)
    if n == 2:
        return pair(env, kind)
    if kind in ('nf', 'nc'):            # normal arrays
        ld = kind[1]
        Q = env.unitary('q', 3, ld)
        lam = [env.scal('l%d' % i, ld) for i in range(3)]
        for i in range(3):
            for j in range(i):
                d = lam[i] - lam[j]
                env.assume((d * np.conj(d)).real > (0 if env.sym else 1e-2))
        return Q, Q, lam, np.dot(Q, np.dot(env.diag(lam, ld), Hc(Q)))
    R2, L2, lam, K2 = pair(env, kind)
    ld = 'f' if kind in ('f', 'pair') else 'c'
    Q = env.unitary('q', 3, ld)
    x = env.scal('x', ld)
    for y in lam:
        d = x - y
        env.assume((d * np.conj(d)).real > (0 if env.sym else 1e-2))

    def plus(M, x, ld):
        return env.array([list(M[0]) + [0], list(M[1]) + [0], [0, 0, x]], ld)
    vl = 'c' if kind == 'pair' else ld
    return (np.dot(Q, plus(R2, 1, vl)), np.dot(Q, plus(L2, 1, vl)),
            list(lam) + [x],
            np.dot(Q, np.dot(plus(K2, x, ld), Hc(Q))))


def eig(env, n, kind, choice, form='array', zero=False):
    u = env.m.util
    R0, L0, lam, A = array(env, n, kind)
    env.register_eig(A, R0, lam, L0)
    A0 = np.array(A)
    arg = A.tolist() if form == 'list' else A
    kw = {} if choice is None else dict(scale_choice=choice)
    ev, R, L = u.eig_biorthog(arg, **kw)
    env.true('shapes', np.shape(ev) == (n,) and R.shape == (n, n) and
             L.shape == (n, n))
    env.eq('A R = R D', np.dot(A0, R), R * ev)
    env.eq('A* L = L D*', np.dot(Hc(A0), L), L * np.conj(ev))
    env.eq('L* R = I', np.dot(Hc(L), R), np.eye(n))
    keep = R if choice is None or choice.lower() == 'left' else L
    env.eq('the vectors that are not scaled have unit norm',
           [sum(abs(keep[i, j]) ** 2 if not env.sym else
                keep[i, j] * np.conj(keep[i, j]) for i in range(n))
            for j in range(n)], [1] * n)
    env.eq('the input is not modified', A, A0)


def integers(env, choice):
    """An integer array (triangular, so that its eigenvectors are known)."""
    u = env.m.util
    a, b = env.ireal('a', -9, 9), env.ireal('b', -9, 9)
    env.assume(a != b)
    A = env.array([[a, 0], [0, b]], 'i')
    I = env.array([[1, 0], [0, 1]], 'f')
    env.register_eig(A, I, [a, b], I)
    ev, R, L = u.eig_biorthog(A, scale_choice=choice)
    env.eq('A R = R D', np.dot(A, R), R * ev)
    env.eq('L* R = I', np.dot(Hc(L), R), np.eye(2))
    env.eq('A* L = L D*', np.dot(A.T, L), L * np.conj(ev))


def names(env, choice):
    A = env.rmat('a', 1, 1)
    try:
        env.m.util.eig_biorthog(A, scale_choice=choice)
        ok = False
    except ValueError:
        ok = True
    env.true('any other name raises an error', ok)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for n, kinds in ((1, 'fc'), (2, ['f', 'c', 'pair']),
                     (3, ['nf'] if q else ['nf', 'nc', 'f', 'pair'])):
        for kind in kinds:
            for ch in (None, 'left', 'right', 'RIGHT', 'Left', 'rIgHt'):
                if n != 2 and ch in ('Left', 'rIgHt'):
                    continue
                out.append((eig, dict(n=n, kind=kind, choice=ch)))
    for ch in ('left', 'right'):
        out.append((eig, dict(n=2, kind='rot', choice=ch)))
        out.append((eig, dict(n=2, kind='c', choice=ch, form='list')))
        out.append((integers, dict(choice=ch)))
    for ch in ('', 'both', 'l', 'lefts', 'rightleft', 'none'):
        out.append((names, dict(choice=ch)))
    return out
