"""Weighted data built from symbolic decompositions (checks of the array
versions of POD, BPOD and DMD)."""
import numpy as np


def Hc(a):
    return np.conjugate(a).T


def dot(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = np.dot(r, x)
    return r


class Weights(object):
    """kind None, '1d' or '2d'; W = Lh* Lh with Lh and its inverse known."""

    def __init__(self, env, kind, n, ld='f', name='w'):
        self.env, self.kind, self.n, self.ld = env, kind, n, 'f'
        if kind is None:
            self.arg = None
        elif kind == '1d':
            q = [env.pos('%s%d' % (name, i), lo=Q(1, 4), hi=4)
                 for i in range(n)]
            self.arg = env.array([x ** 2 for x in q], 'f')
            self.W = env.diag([x ** 2 for x in q])
            self.Lh, self.Lhi = env.diag(q), env.diag([1 / x for x in q])
        else:
            L, Li = env.lower(name, n, ld)
            self.W = dot(L, Hc(L))
            self.ld = ld
            if env.sym:
                self.W._ld = ld
            self.arg = self.W.copy()
            if env.sym:
                self.arg._ld = ld
            env.register_chol(self.W, L)
            self.Lh, self.Lhi = Hc(L), Hc(Li)
            if not env.sym:
                env.assume(np.linalg.cond(L) < 1e3)

    def whiten(self, X):
        return X if self.kind is None else dot(self.Lh, X)

    def color(self, X):
        return X if self.kind is None else dot(self.Lhi, X)

    def ip(self, X, Y):
        if self.kind is None:
            return dot(Hc(X), Y)
        return dot(Hc(X), self.W, Y)

    def kw(self):
        if self.kind is None:
            return {}
        return dict(inner_product_weights=self.arg)


def Q(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def svals(env, r, name='s', lo=Q(1, 100), hi=None):
    """Strictly decreasing positive numbers."""
    s = [env.pos('%s%d' % (name, i), lo=lo, hi=hi) for i in range(r)]
    for i in range(1, r):
        env.assume(s[i - 1] > s[i])
        if not env.sym:
            env.assume(s[i - 1] > s[i] * (1 + 1e-4))
    if not env.sym and r:
        env.assume(s[0] < s[-1] * 1e4)
    return s


def data(env, w, m, n, r, ld, s=None, name='', gen=None):
    """X (m x n) with Lh X = U S V*, S = diag(s) of rank r; registers the
    decomposition of Lh X.  ``gen``: only this factor is complex."""
    s = svals(env, r, 's' + name) if s is None else s
    U = env.unitary('u' + name, m, ld if gen in (None, 'u') else 'f',
                    left=gen is None)
    V = env.unitary('v' + name, n, ld if gen in (None, 'v') else 'f',
                    left=False)
    Xw = dot(U[:, :r], env.diag(s), Hc(V[:, :r]))
    X = w.color(Xw)
    for Z in (Xw, X):
        if env.sym:
            Z._ld = 'c' if 'c' in (ld, w.ld) else 'f'
    env.register_svd(Xw, U, s, V)
    return X, U, s, V


def phase_free(env, label, A, B):
    """Columns equal up to a factor of unit modulus."""
    env.true(label + ' (shape)', A.shape == B.shape, detail='%s %s' % (
        A.shape, B.shape))
    if A.shape != B.shape:
        return
    for i in range(A.shape[1]):
        a, b = A[:, i:i + 1], B[:, i:i + 1]
        env.eq(label, dot(a, Hc(a)), dot(b, Hc(b)))


def rebuilt(env, M, r, name=''):
    """Singular value decomposition of rank r of an array whose entries are
    known.  In the encoding the factors are free (a superset of the real
    cases).  Returns s (with zeros), U, V and the array to be used together
    with the factors."""
    m, n = M.shape
    if not env.sym:
        U, s, Vh = np.linalg.svd(M, full_matrices=False)
        env.assume(s[r - 1] > 1e-3 and s[0] < 1e4)
        for i in range(1, r):
            env.assume(s[i - 1] > s[i] * (1 + 1e-3))
        return s, U, Hc(Vh), M
    ld = M._ld
    s = svals(env, r, 's' + name)
    U = unitary(env, 'u' + name, m, ld)
    V = unitary(env, 'v' + name, n, ld, left=False)
    env.register_svd(M, U, s, V)
    R = dot(U[:, :r], env.diag(s), Hc(V[:, :r]))
    return s + [0] * (min(m, n) - r), U, V, R


def unitary(env, name, n, ld, left=True):
    """4 x 4: two blocks, rows mixed."""
    if n < 4:
        return env.unitary(name, n, ld, left=left)
    a = env.unitary(name + 'a', 2, ld, left=left)
    b = env.unitary(name + 'b', 2, ld, left=left)
    return env.array([[a[0, 0], 0, 0, a[0, 1]], [0, b[0, 0], b[0, 1], 0],
                      [a[1, 0], 0, 0, a[1, 1]], [0, b[1, 0], b[1, 1], 0]], ld)
