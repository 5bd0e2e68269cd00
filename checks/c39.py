"""C39 random systems: sizes and stable real spectra."""
import contextlib

import numpy as np
from .common import REALS, NUMPY
from .linear import dot

BOUNDS = ('1 and 2 states with every draw (any invertible array of '
          'eigenvectors), 3..5 states with every array of eigenvectors that '
          'has an LU decomposition with positive pivots, 4..8 (rss: 4, 5) '
          'with sparse ones, up to 48 (thorough: 100) with eigenvectors '
          'that have one symbolic element; 1..4 inputs and outputs; for 4 and more states with '
          'symbolic eigenvalues, that they are real is decided through '
          'necessary conditions on their power sums only')
OUTSIDE = ('larger systems; draws for which the eigenvector array is '
           'singular (probability zero) or so ill-conditioned that rounding '
           'decides; the distribution of the draws')
ASSUMPTIONS = [REALS, NUMPY,
               'a draw of numpy.random.random is any number in [0, 1), of '
               'numpy.random.normal any real number; the legacy functions of '
               'numpy.random are the only source of random numbers']

NAMES = ('normal', 'random', 'random_sample', 'rand', 'randn', 'uniform',
         'standard_normal', 'ranf', 'sample')


class Draws(object):
    """All numbers drawn from numpy.random, by the order of the calls."""

    def __init__(self, env, form, n):
        self.env, self.form, self.n = env, form, n
        self.k = 0
        self.drawn = []

    def number(self, i, j, kind, shape):
        env, form = self.env, self.form
        self.k += 1
        if form != 'full' and shape == (self.n, self.n) and not self.square:
            # the array of eigenvectors
            if form == 'lower':
                if i < j:
                    return 0.
                if i > j and j != 0:
                    return 0.5
            elif form == 'sparse':
                # a permutation with symbolic entries, and constants
                if (i + j) % self.n not in (0, 1):
                    return 0.
                if (i + j) % self.n == 1 and i % 2:
                    return 0.25
        if kind == 'u':
            return env.real('d%d' % self.k, 0, 1)
        return env.real('d%d' % self.k)

    def array(self, size, kind):
        env = self.env
        if size is None or size == ():
            return self.number(0, 0, kind, ())
        shape = tuple(size) if isinstance(size, (tuple, list)) else (
            int(size),)
        if self.form == 'unit' and shape == (self.n, self.n) and \
                not self.square:
            self.square = True
            r = self.unit()
            self.drawn.append(r)
            return r
        if self.form == 'lu' and shape == (self.n, self.n) and \
                not self.square:
            self.square = True
            r = self.factored(kind)
            self.drawn.append(r)
            return r
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            x = self.number(i[0], i[-1], kind, shape)
            if kind == 'u':
                env.assume(x < 1)
            a[i] = x
        self.square = self.square or shape == (self.n, self.n)
        r = env.array(a, 'f')
        self.drawn.append(r)
        return r

    square = False

    def unit(self):
        """Half the identity and one other element, and its inverse."""
        env, n = self.env, self.n
        V = np.array(np.eye(n), dtype=object) * 0.5
        W = np.array(np.eye(n), dtype=object) * 2.
        if n > 1:
            x = env.real('v', 0, 0.75)
            V[n - 1, n // 2 - 1] = x
            W[n - 1, n // 2 - 1] = x * -4
        V = env.array(V, 'f')
        if env.sym:
            env.register_inv(V, env.array(W, 'f'))
        return V

    def factored(self, kind):
        """Any array with non-zero leading minors, and its inverse."""
        env, n = self.env, self.n
        L = np.array(np.eye(n, dtype=int), dtype=object)
        Li, U, Ui = L.copy(), np.zeros((n, n), dtype=object), np.zeros(
            (n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                if i > j:
                    L[i, j] = env.real('l%d%d' % (i, j))
                else:
                    U[i, j] = (env.real if i < j else env.pos)(
                        'u%d%d' % (i, j))
        # positive pivots; V and S V (S any signs) give the same state array
        # up to the signs of the rows
        for j in range(n):
            for i in range(j + 1, n):
                Li[i, j] = -sum(L[i, k] * Li[k, j] for k in range(j, i))
            Ui[j, j] = 1 / U[j, j]
            for i in reversed(range(j)):
                Ui[i, j] = -sum(U[i, k] * Ui[k, j]
                                for k in range(i + 1, j + 1)) / U[i, i]
        V = env.array(dot(L, U), 'f')
        if kind == 'u':
            for x in V.ravel():
                env.assume(x >= 0)
                env.assume(x < 1)
        if env.sym:
            env.register_inv(V, env.array(dot(Ui, Li), 'f'))
        return V

    @contextlib.contextmanager
    def __call__(self):
        if self.env.sym:
            from symx import npx
            npx.RANDOM.hook = self.array
            try:
                yield
            finally:
                npx.RANDOM.hook = None
            return
        old = {x: getattr(np.random, x) for x in NAMES}
        np.random.normal = lambda loc=0, scale=1, size=None: self.array(
            size, 'n')
        np.random.standard_normal = lambda size=None: self.array(size, 'n')
        np.random.randn = lambda *s: self.array(s or None, 'n')
        np.random.rand = lambda *s: self.array(s or None, 'u')
        for x in ('random', 'random_sample', 'ranf', 'sample'):
            setattr(np.random, x, lambda size=None: self.array(size, 'u'))
        np.random.uniform = lambda low=0., high=1., size=None: (
            low + (high - low) * self.array(size, 'u'))
        try:
            yield
        finally:
            for x in NAMES:
                setattr(np.random, x, old[x])


def charpoly(A):
    """det(x - A) = x^n + c[1] x^(n-1) + ... + c[n] (Faddeev-LeVerrier)."""
    n = len(A)
    c = [1]
    M = [[0] * n for _ in range(n)]
    for k in range(1, n + 1):
        M = [[sum(A[i, l] * M[l][j] for l in range(n)) + (
            c[-1] if i == j else 0) for j in range(n)] for i in range(n)]
        t = sum(A[i, l] * M[l][i] for i in range(n) for l in range(n))
        c.append(t * (-1) / k)
    return c


def det(X):
    return charpoly(X)[-1] * (-1) ** len(X)


def value(x):
    """The number a constant stands for, else None."""
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if x.is_const():
        return float(x.const()[0])
    return None


def shifted(c, a):
    """Coefficients of p(x + a) for p given by c, highest power first."""
    c = list(c)
    n = len(c)
    for k in range(1, n):
        for i in range(1, n - k + 1):
            c[i] = c[i] + c[i - 1] * a
    return c


def system(env, which, n, p, q, form='full'):
    d = Draws(env, form, n)
    try:
        with d():
            A, B, C = getattr(env.m.util, which)(n, p, q)
    except np.linalg.LinAlgError:
        # only for singular arrays of eigenvectors
        for X in d.drawn:
            if X.shape == (n, n):
                env.assume(det(X) != 0)
        raise
    for label, X, s in (('A', A, (n, n)), ('B', B, (n, p)), ('C', C, (q, n))):
        env.true('%s is a real array of the requested size' % label,
                 isinstance(X, np.ndarray) and np.shape(X) == s and
                 not np.iscomplexobj(X), detail=str(np.shape(X)))
    if np.shape(A) != (n, n):
        return
    if not env.sym:
        for X in d.drawn:
            if X.shape == (n, n):
                env.assume(np.linalg.cond(X) < 1e5)
        w = np.linalg.eigvals(A)
        tol = 1e-5
        env.true('eigenvalues are real', np.all(abs(w.imag) < tol),
                 detail=str(w))
        top = 1 if which == 'drss' else tol
        low = -1 if which == 'drss' else -np.inf
        env.true('eigenvalues are stable', np.all(w.real < top) and
                 np.all(w.real > low), detail=str(w))
        return
    if form == 'unit':
        upper = [A[i, j] for i in range(n) for j in range(i + 1, n)]
        lower = [A[j, i] for i in range(n) for j in range(i + 1, n)]
        if all(value(x) == 0 for x in upper) or all(
                value(x) == 0 for x in lower):
            # triangular: the eigenvalues are on the diagonal
            for i in range(n):
                x = A[i, i]
                if which == 'drss':
                    env.true('eigenvalues are stable', x < 1)
                    env.true('eigenvalues are stable', x > -1)
                else:
                    env.true('eigenvalues are stable', x <= 0)
            return
    c = charpoly(A)
    v = [value(x) for x in c]
    if None not in v:
        w = np.roots(v)
        env.true('eigenvalues are real', np.all(abs(w.imag) < 1e-4))
        env.true('eigenvalues are stable',
                 np.all(abs(w.real) < 1) if which == 'drss' else
                 np.all(w.real <= 1e-6))
        return
    if n == 2:
        env.true('eigenvalues are real', c[1] * c[1] - 4 * c[2] >= 0)
    elif n == 3:
        _, b, e, g = c
        env.true('eigenvalues are real',
                 b * b * e * e - 4 * e * e * e - 4 * b * b * b * g +
                 18 * b * e * g - 27 * g * g >= 0)
    elif n > 3:
        # power sums p_k: Hankel form of Sylvester is positive semidefinite;
        # here only its leading minors of order two
        s = power_sums(c, n)
        env.true('eigenvalues are real', n * s[2] - s[1] * s[1] >= 0)
        if n == 4:
            env.true('eigenvalues are real (squares)',
                     s[2] * s[2] <= s[4] * n)
    # a polynomial with real roots has all its roots below a exactly if its
    # coefficients about a are all positive
    if which == 'drss':
        up = shifted(c, 1)
        low = shifted([x * (-1) ** i for i, x in enumerate(c)], 1)
        for x in up[1:] + low[1:]:
            env.true('eigenvalues are stable', x > 0)
    else:
        for x in c[1:]:
            env.true('eigenvalues are stable', x >= 0)


def power_sums(c, n):
    s = [n]
    for k in range(1, 2 * n - 1):
        t = 0
        for i in range(1, min(k, n + 1)):
            t = t - c[i] * s[k - i]
        if k <= n:
            t = t - k * c[k]
        elif k - n >= 0:
            t = t - c[n] * s[k - n] if n >= k else t
        s.append(t)
    return s


def scenarios(tier):
    out = []
    for which in ('drss', 'rss'):
        for n in (1, 2):
            for p, q in ((1, 1), (2, 3), (4, 1), (1, 4), (3, 2)):
                out.append((system, dict(which=which, n=n, p=p, q=q)))
        for n in (3, 4, 5, 6, 8):
            for form in ('lower', 'sparse', 'lu'):
                if n == 3 and form == 'sparse' and tier == 'quick':
                    continue
                if n > 4 and form == 'sparse' or n == 3 and \
                        form == 'lower' or which == 'rss' and (
                            n > 3 and form == 'sparse' or n > 5) or \
                        form == 'lu' and n > (5 if which == 'drss' else 4):
                    continue
                out.append((system, dict(which=which, n=n, p=2, q=3,
                                         form=form)))
        for n in (12, 24, 48) if tier == 'quick' else (12, 24, 48, 100):
            out.append((system, dict(which=which, n=n, p=1, q=2,
                                     form='unit')))
    return out
