"""C18 Hankel arrays."""
import numpy as np
from .common import NUMPY

BOUNDS = ('first columns and last rows of 1 to 4 (thorough: 6) arbitrary '
          'integer, real or complex elements in any combination of sizes; '
          'chunks of 1 x 1 to 3 x 2 elements, 1 to 4 (thorough: 5) chunks')
OUTSIDE = 'longer columns and rows; chunks of unequal shapes'
ASSUMPTIONS = [NUMPY]


def elems(env, name, n, t):
    if t == 'i':
        return [env.ireal('%s%d' % (name, i), -9, 9) for i in range(n)]
    return [env.scal('%s%d' % (name, i), t) for i in range(n)]


def hankel(env, p, q, tc, tr, form='array'):
    col = elems(env, 'c', p, tc)
    arg = {'array': lambda: env.array(col, tc), 'list': lambda: list(col),
           'column': lambda: env.array([[x] for x in col], tc)}[form]()
    if q is None:
        H = env.m.util.Hankel(arg)
        row, q = [0] * p, p
    else:
        row = elems(env, 'r', q, tr)
        rarg = env.array(row, tr) if form != 'column' else env.array(
            [row], tr)
        H = env.m.util.Hankel(arg, rarg)
        env.eq('the last row given is not modified', np.ravel(rarg), row)
    env.true('shape', H.shape == (p, q), detail=str(H.shape))
    if H.shape != (p, q):
        return
    seq = col + row[1:]
    env.eq('first column', [H[i, 0] for i in range(p)], col)
    env.eq('the last row after its first element',
           [H[p - 1, j] for j in range(1, q)], row[1:])
    env.eq('constant skew diagonals', H,
           [[seq[i + j] for j in range(q)] for i in range(p)])
    env.eq('the first column given is not modified',
           np.ravel(np.array(arg)), col)


def chunks(env, p, q, a, b, t, same=True):
    """p x q chunks of a x b elements."""
    def mk(name, k):
        return [env.array([elems(env, '%s%d_%d_' % (name, n, i), b, t)
                           for i in range(a)], t) for n in range(k)]
    col = mk('c', p)
    col0 = [np.array(x) for x in col]
    if q is None:
        H = env.m.util.Hankel_chunks(col)
        q = p
        row = [np.zeros((a, b))] * q
    else:
        row = mk('r', q)
        row0 = [np.array(x) for x in row]
        H = env.m.util.Hankel_chunks(col, row)
        env.true('the lists given are not modified', len(row) == q)
        for x, y in zip(row, row0):
            env.eq('chunks are not modified', x, y)
    env.true('the lists given are not modified', len(col) == p)
    for x, y in zip(col, col0):
        env.eq('chunks are not modified', x, y)
    env.true('shape', H.shape == (p * a, q * b), detail=str(H.shape))
    if H.shape != (p * a, q * b):
        return
    seq = list(col) + list(row[1:])
    want = [[seq[i // a + j // b][i % a, j % b] for j in range(q * b)]
            for i in range(p * a)]
    env.eq('blocks constant along skew diagonals, with the given borders', H,
           want)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    N = 4 if q else 6
    for p in range(1, N + 1):
        for t in 'ifc':
            for form in ('array', 'list', 'column'):
                out.append((hankel, dict(p=p, q=None, tc=t, tr=t, form=form)))
        for r in range(1, N + 1):
            for tc, tr in (('ff', 'cc', 'fc', 'if') if q else
                           ('ff', 'cc', 'fc', 'if', 'cf', 'ii', 'ic', 'fi')):
                out.append((hankel, dict(p=p, q=r, tc=tc, tr=tr)))
            out.append((hankel, dict(p=p, q=r, tc='f', tr='c', form='list')))
    out.append((hankel, dict(p=3, q=2, tc='f', tr='f', form='column')))
    N = 4 if q else 5
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        for p in range(1, N + 1):
            t = 'fc'[(a + b + p) % 2]
            out.append((chunks, dict(p=p, q=None, a=a, b=b, t=t)))
            for r in range(1, N + 1):
                out.append((chunks, dict(p=p, q=r, a=a, b=b,
                                         t='fci'[(p + r + a) % 3])))
    return out
