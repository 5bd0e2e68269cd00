"""C19 simulation of discrete-time systems."""
import numpy as np
from .common import REALS, NUMPY

BOUNDS = ('real systems with 1..3 states, 1..3 inputs and outputs, 1..5 '
          '(thorough: 7) time steps, arbitrary arrays, inputs and initial '
          'conditions (real or integer)')
OUTSIDE = ('complex systems (scipy simulates real ones only); larger '
           'systems, more steps; the default number of steps of impulse is '
           'checked for one small system')
ASSUMPTIONS = [REALS, NUMPY, 'scipy.signal.dlsim/dimpulse implement the '
               'recursion (their loop is re-executed symbolically and '
               'compared with scipy on sampled points)']


def system(env, n, m, p, t='f'):
    def el(name):
        return env.ireal(name, -5, 5) if t == 'i' else env.real(name)

    def mat(name, a, b):
        return env.array([[el('%s%d%d' % (name, i, j)) for j in range(b)]
                          for i in range(a)], t)
    return mat('a', n, n), mat('b', n, m), mat('c', p, n)


def lsim(env, n, m, p, T, x0=True, t='f', form='array', flat=False):
    A, B, C = system(env, n, m, p, t)
    U = [[env.real('u%d_%d' % (k, j)) for j in range(m)] for k in range(T)]
    x = [env.real('x%d' % i) for i in range(n)] if x0 else [0] * n
    u = env.array([r[0] for r in U] if flat else U, 'f')
    A0, B0, C0, u0 = (np.array(z) for z in (A, B, C, u))
    args = [z.tolist() for z in (A, B, C)] if form == 'list' else [A, B, C]
    kw = {}
    if x0:
        kw['initial_condition'] = env.array(x, 'f')
    y = env.m.util.lsim(*(args + [u]), **kw)
    want = []
    for k in range(T):
        want.append([sum(C0[i, j] * x[j] for j in range(n))
                     for i in range(p)])
        x = [sum(A0[i, j] * x[j] for j in range(n)) +
             sum(B0[i, j] * U[k][j] for j in range(m)) for i in range(n)]
    env.eq('y(k) = C x(k), x(k+1) = A x(k) + B u(k)', y, want)
    env.eq('the arguments are not modified', u, u0)
    if form == 'array':
        env.eq('the arguments are not modified', A, A0)
        env.eq('the arguments are not modified', B, B0)
        env.eq('the arguments are not modified', C, C0)


def impulse(env, n, m, p, T, t='f'):
    A, B, C = system(env, n, m, p, t)
    A0, B0, C0 = (np.array(z) for z in (A, B, C))
    Y = env.m.util.impulse(A, B, C, num_time_steps=T)
    env.true('the requested number of steps', np.shape(Y) == (T, p, m),
             detail=str(np.shape(Y)))
    if np.shape(Y) != (T, p, m):
        return
    X = B0
    for k in range(T):
        env.eq('C A^i B at step i, indexed [step, output, input]', Y[k],
               np.dot(C0, X))
        X = np.dot(A0, X)
    env.eq('the arguments are not modified', A, A0)
    env.eq('the arguments are not modified', B, B0)
    env.eq('the arguments are not modified', C, C0)


def default_steps(env):
    a = env.choice('a', 3) - 1
    b, c = env.real('b'), env.real('c')
    Y = env.m.util.impulse(*[env.array([[x]], 'f') for x in (a, b, c)])
    env.true('indexed [step, output, input]', np.ndim(Y) == 3 and
             Y.shape[1:] == (1, 1) and Y.shape[0] >= 1)
    env.eq('C A^i B', Y[:, 0, 0], [c * a ** k * b
                                   for k in range(Y.shape[0])])


def scenarios(tier):
    out = []
    q = tier == 'quick'
    dims = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2),
            (2, 2, 3), (3, 2, 2)]
    if not q:
        dims += [(3, 3, 3), (2, 3, 2), (3, 1, 1), (3, 1, 2)]
    T = [1, 2, 4] if q else [1, 2, 3, 4, 5, 6]
    for n, m, p in dims:
        for t in T:
            if n == 3 and t > 4:
                continue
            for x0 in (True, False):
                out.append((lsim, dict(n=n, m=m, p=p, T=t, x0=x0)))
            out.append((impulse, dict(n=n, m=m, p=p, T=t)))
        out.append((lsim, dict(n=n, m=m, p=p, T=3, x0=True, t='i')))
        out.append((lsim, dict(n=n, m=m, p=p, T=3, x0=False, form='list')))
        out.append((impulse, dict(n=n, m=m, p=p, T=3, t='i')))
    out.append((impulse, dict(n=1, m=1, p=1, T=7)))
    out.append((impulse, dict(n=2, m=2, p=1, T=5)))
    out.append((lsim, dict(n=1, m=1, p=1, T=6)))
    for n, p in ((1, 1), (2, 2)):
        out.append((lsim, dict(n=n, m=1, p=p, T=4, flat=True)))
    out.append((default_steps, {}))
    return out
