"""C12 the grid inner product is the tensor-product trapezoidal rule."""
import itertools
import numpy as np
from .common import REALS, NUMPY

BOUNDS = ('1 to 3 grid dimensions with up to 5 x 4 x 3 points (thorough: up '
          'to 4 dimensions and 7 points), arbitrary real grid points (equal, '
          'decreasing and integer ones included), arbitrary real, complex and '
          'integer vectors; positivity for up to 5 points')
OUTSIDE = 'larger grids; complex grids'
ASSUMPTIONS = [REALS, NUMPY,
               'numpy.trapz along an axis is its documented sum']


def grids_of(env, shape, gl='f', increasing=False):
    out = []
    for d, n in enumerate(shape):
        if increasing:
            x = [env.real('g%d_0' % d)]
            for i in range(1, n):
                x.append(x[-1] + env.pos('h%d_%d' % (d, i)))
        elif gl == 'i':
            x = [env.ireal('g%d_%d' % (d, i), -20, 20) for i in range(n)]
        else:
            x = [env.real('g%d_%d' % (d, i)) for i in range(n)]
        out.append(env.array(x, gl))
    return out


def vec(env, name, shape, ld):
    def el(i):
        n = name + '_'.join(map(str, i))
        return env.ireal(n, -9, 9) if ld == 'i' else env.scal(n, ld)

    def mk(pre, sh):
        return [el(pre + (k,)) if len(sh) == 1 else mk(pre + (k,), sh[1:])
                for k in range(sh[0])]
    return env.array(mk((), shape), ld)


def weights(g):
    """Trapezoidal weights of one grid, from its definition."""
    n = len(g)
    w = []
    for i in range(n):
        t = 0
        if i > 0:
            t = t + (g[i] - g[i - 1])
        if i < n - 1:
            t = t + (g[i + 1] - g[i])
        w.append(t)        # twice the weight
    return w


def rule(env, shape, l1, l2, gl='f', call='call'):
    shape = tuple(shape)
    g = grids_of(env, shape, gl)
    ip = env.m.vectors.InnerProductTrapz(*g)
    v, w = vec(env, 'v', shape, l1), vec(env, 'w', shape, l2)
    v0, w0 = np.array(v), np.array(w)
    r = ip(v, w) if call == 'call' else ip.inner_product(v, w)
    W = [weights(list(x)) for x in g]
    t = 0
    for i in np.ndindex(*shape):
        p = np.conj(v[i]) * w[i]
        for d, k in enumerate(i):
            p = p * W[d][k] * env.half
        t = t + p
    env.eq('trapezoidal rule', r, t)
    env.true('a number', np.ndim(r) == 0)
    env.eq('conjugate-symmetric', ip(w, v), np.conj(r))
    a = env.cplx('a')
    u = vec(env, 'u', shape, 'c')
    env.eq('linear in the second vector', ip(v, w + u * a),
           r + a * ip(v, u))
    env.eq('vectors are not modified', v, v0)
    env.eq('vectors are not modified', w, w0)
    env.eq('calling again gives the same', ip(v, w), r)


def positive(env, shape, ld):
    shape = tuple(shape)
    ip = env.m.vectors.InnerProductTrapz(*grids_of(env, shape,
                                                   increasing=True))
    v = vec(env, 'v', shape, ld)
    r = ip(v, v)
    env.eq('real', np.imag(r), 0)
    env.true('non-negative on increasing grids', np.real(r) >= 0)


def bad_shape(env, grid, shape, which):
    g = grids_of(env, tuple(grid))
    ip = env.m.vectors.InnerProductTrapz(*g)
    ok, bad = vec(env, 'v', tuple(grid), 'f'), vec(env, 'w', tuple(shape),
                                                  'f')
    a = (bad, ok) if which == 1 else (ok, bad) if which == 2 else (bad, bad)
    for f in (ip, ip.inner_product):
        try:
            f(*a)
            r = 'no error'
        except Exception:
            r = 'error'
        env.true('a vector whose shape differs from the grid raises an error',
                 r == 'error')


def bad_grid(env, what):
    m = env.m
    x = env.rvec('x', 3)
    args = {'none': (), 'list': ([1., 2.],), 'second': (x, [0., 1.]),
            'first': ((0., 1., 2.), x), 'number': (x, 2.)}[what]
    try:
        m.vectors.InnerProductTrapz(*args)
        r = 'no error'
    except (ValueError, TypeError):
        r = 'error'
    env.true('missing grids and grids that are not arrays raise an error',
             r == 'error')


def uniform(env, n, l1, l2):
    """The inner product without weights."""
    shape = (n,) if isinstance(n, int) else tuple(n)
    v, w = vec(env, 'v', shape, l1), vec(env, 'w', shape, l2)
    env.eq('sum of conj(first) * second',
           env.m.vectors.inner_product_array_uniform(v, w),
           sum(np.conj(v[i]) * w[i] for i in np.ndindex(*shape)))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    shapes = [(1,), (2,), (5,), (1, 1), (2, 3), (5, 4), (3, 1), (2, 3, 2),
              (4, 1, 3), (2, 2), (3, 3), (3, 2), (1, 4), (2, 2, 2)]
    if not q:
        shapes += [(7,), (3,), (1, 4), (6, 6), (5, 4, 3), (2, 2, 2, 2),
                   (3, 2, 1, 3)]
    for s in shapes:
        for l1, l2 in ('ff', 'cc', 'fc', 'cf', 'ii'):
            if q and len(s) > 2 and (l1, l2) in (('f', 'f'), ('f', 'c')):
                continue
            out.append((rule, dict(shape=s, l1=l1, l2=l2)))
        out.append((rule, dict(shape=s, l1='c', l2='f', gl='i')))
        out.append((rule, dict(shape=s, l1='f', l2='c', call='method')))
    for s in [(1,), (2,), (4,), (2, 2), (3, 2)]:
        for ld in 'fc':
            out.append((positive, dict(shape=s, ld=ld)))
    for g, s in [((3,), (2,)), ((3,), (4,)), ((2, 3), (3, 2)), ((2, 3), (6,)),
                 ((6,), (2, 3)), ((2, 3), (2, 3, 1)), ((3,), (3, 1)),
                 ((2, 3), (2, 4)), ((3, 3), (3,)), ((2, 3), (1, 3)),
                 ((1, 3), (3,)), ((3,), (1,)), ((2, 3), (2, 1))]:
        for w in (1, 2, 3):
            out.append((bad_shape, dict(grid=g, shape=s, which=w)))
    for w in ('none', 'list', 'second', 'first', 'number'):
        out.append((bad_grid, dict(what=w)))
    for l1, l2 in ('ff', 'cc', 'fc', 'cf', 'ii'):
        for n in (1, 3, (2, 2), (2, 3), (3, 1), (1, 3), (2, 1, 3), (2, 2, 2)):
            out.append((uniform, dict(n=n, l1=l1, l2=l2)))
    return out
