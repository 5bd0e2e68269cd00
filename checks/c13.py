"""C13 array vector spaces: weighted inner products, combinations, equality."""
import numpy as np
from .common import REALS, NUMPY

BOUNDS = ('vectors of up to 4 elements, up to 3 of them per side, arbitrary '
          'real/complex/integer vectors, coefficients and weights (also '
          'indefinite and non-symmetric); weights as arrays, lists, column or '
          'row arrays; every equal/unequal pair of weights')
OUTSIDE = 'larger arrays'
ASSUMPTIONS = [REALS, NUMPY]


def tmat(env, name, m, n, ld):
    def el(i, j):
        k = '%s%d_%d' % (name, i, j)
        return env.ireal(k, -9, 9) if ld == 'i' else env.scal(k, ld)
    return env.array([[el(i, j) for j in range(n)] for i in range(m)], ld)


def tvec(env, name, n, ld):
    return env.array([env.ireal('%s%d' % (name, i), -9, 9) if ld == 'i' else
                      env.scal('%s%d' % (name, i), ld) for i in range(n)], ld)


def weights(env, n, kind, ld, name='w'):
    """(argument, the n x n array it stands for)"""
    if kind == 'none':
        return None, np.eye(n, dtype=int)
    if kind.startswith('2d'):
        W = tmat(env, name, n, n, ld)
        return (W.tolist() if kind == '2dlist' else W), W
    w = tvec(env, name, n, ld)
    W = env.diag(list(w), ld)
    if kind == '1d':
        return w, W
    if kind == 'list':
        return w.tolist(), W
    if kind == 'tuple':
        return tuple(w.tolist()), W
    if kind == 'col':
        return w.reshape(n, 1), W
    if kind == 'row':
        return w.reshape(1, n), W
    if kind == 'scalar':
        return w[0], W
    raise AssertionError(kind)


def inner(env, n, a, b, kind, wl, l1, l2):
    w, W = weights(env, n, kind, wl)
    X, Y = tmat(env, 'x', n, a, l1), tmat(env, 'y', n, b, l2)
    X0, Y0 = np.array(X), np.array(Y)
    vs = env.m.vectorspace.VectorSpaceArrays() if kind == 'none' and a == 1 \
        else env.m.vectorspace.VectorSpaceArrays(weights=w)
    r = vs.compute_inner_product_array(X, Y)
    want = [[sum(np.conj(X0[k, i]) * W[k, l] * Y0[l, j]
                 for k in range(n) for l in range(n)) for j in range(b)]
            for i in range(a)]
    env.eq('inner product array is X* W Y', r, want)
    want = [[sum(np.conj(Y0[k, i]) * W[k, l] * Y0[l, j]
                 for k in range(n) for l in range(n)) for j in range(b)]
            for i in range(b)]
    env.eq('symmetric inner product array is Y* W Y',
           vs.compute_symm_inner_product_array(Y), want)
    env.eq('vectors unchanged', X, X0)
    env.eq('vectors unchanged', Y, Y0)


def later(env, kind, wl):
    """The weights are the ones given: changing the caller's array afterwards
    or computing many times changes nothing."""
    n = 2
    w, W = weights(env, n, kind, wl)
    W = np.array(W)
    vs = env.m.vectorspace.VectorSpaceArrays(weights=w)
    X = tmat(env, 'x', n, 2, 'c')
    want = np.dot(np.conjugate(X).T, np.dot(W, X))
    for _ in range(2):
        env.eq('repeated computation', vs.compute_inner_product_array(X, X),
               want)
        env.eq('repeated computation',
               vs.compute_symm_inner_product_array(X), want)


def combine(env, n, nb, nc, l1, l2, cols=None, colform='list', aslist=False):
    X = tmat(env, 'x', n, nb, l1)
    A = tmat(env, 'a', nb, nc, l2)
    X0, A0 = np.array(X), np.array(A)
    vs = env.m.vectorspace.VectorSpaceArrays()
    kw = {}
    sel = list(range(nc))
    if cols is not None:
        sel = list(cols)
        kw = dict(coeff_array_col_indices={
            'list': list, 'array': np.array, 'range': list}[colform](cols))
    r = vs.lin_combine(X, A.tolist() if aslist else A, **kw)
    want = [[sum(X0[k, i] * A0[i, j] for i in range(nb)) for j in sel]
            for k in range(n)]
    env.eq('columns are the combinations of the selected columns, in order',
           r, want)
    env.eq('vectors unchanged', X, X0)
    env.eq('coefficients unchanged', A, A0)


def equality(env, k1, k2, n1, n2, l1='f', l2='f'):
    w1, _ = weights(env, n1, k1, l1, 'w')
    w2, _ = weights(env, n2, k2, l2, 'v')
    C = env.m.vectorspace.VectorSpaceArrays
    a, b = C(weights=w1), C(weights=w2)
    e = bool(a == b)
    if (k1 == 'none') != (k2 == 'none'):
        want = False
    elif k1 == 'none':
        want = True
    else:
        s1, s2 = np.squeeze(np.array(w1)), np.squeeze(np.array(w2))
        want = s1.shape == s2.shape
        if want:
            for x, y in zip(s1.flat, s2.flat):
                if not env.decide(x == y):
                    want = False
                    break
    env.true('equal exactly when the weights are equal', e == want,
             detail='%s %s' % (e, want))
    env.true('unequal is the opposite', bool(a != b) == (not e))
    env.true('symmetric', bool(b == a) == e)
    env.true('equal to itself', bool(a == a) and not bool(a != a))
    for o in (None, 1, w1 if k1 != 'none' else 'x',
              env.m.vectorspace.VectorSpaceHandles(verbosity=0)):
        if isinstance(o, np.ndarray):
            continue
        env.true('different from other objects', not bool(a == o) and
                 bool(a != o))


def toomany(env, n):
    w = np.ones((2,) * n)
    try:
        env.m.vectorspace.VectorSpaceArrays(weights=w)
        r = 'no error'
    except Exception:
        r = 'error'
    env.true('weights of more than two dimensions raise an error',
             r == 'error')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    lds = [('f', 'f'), ('c', 'c'), ('c', 'f'), ('f', 'c'), ('i', 'i')]
    sizes = [(1, 1, 1), (1, 2, 3), (3, 2, 2), (2, 1, 2), (4, 1, 1)]
    if not q:
        sizes += [(4, 3, 2), (5, 2, 2), (2, 4, 3), (3, 1, 3)]
    for n, a, b in sizes:
        for kind in ('none', '1d', 'list', 'tuple', 'col', 'row', '2d',
                     '2dlist', 'scalar'):
            if kind == 'scalar' and n > 1:
                continue
            wls = ('f',) if kind == 'none' else ('f', 'i', 'c')
            for wl in wls:
                for l1, l2 in lds:
                    if q and wl == 'i' and l1 != l2:
                        continue
                    if wl == 'c' and not kind.startswith('2d'):
                        continue
                    out.append((inner, dict(n=n, a=a, b=b, kind=kind, wl=wl,
                                            l1=l1, l2=l2)))
    for kind, wl in [('1d', 'f'), ('list', 'f'), ('2d', 'c'), ('none', 'f')]:
        out.append((later, dict(kind=kind, wl=wl)))
    for l1, l2 in lds:
        for n, nb, nc in [(1, 1, 1), (3, 2, 3), (2, 3, 1), (2, 3, 4)]:
            out.append((combine, dict(n=n, nb=nb, nc=nc, l1=l1, l2=l2)))
        out.append((combine, dict(n=2, nb=3, nc=2, l1=l1, l2=l2,
                                  aslist=True)))
        for cols in ([0], [2, 0], [1, 1], [2, 1, 0], [0, 1, 2], [-1], []):
            for cf in ('list', 'array'):
                if not cols and cf == 'array':
                    continue
                out.append((combine, dict(n=2, nb=2, nc=3, l1=l1, l2=l2,
                                          cols=cols, colform=cf)))
    kinds = ['none', '1d', 'list', 'col', '2d', '2dlist']
    for i, k1 in enumerate(kinds):
        for k2 in kinds[i:]:
            for n1, n2 in [(2, 2), (2, 3), (1, 1)]:
                if 'none' in (k1, k2) and (n1, n2) != (2, 2):
                    continue
                out.append((equality, dict(k1=k1, k2=k2, n1=n1, n2=n2)))
    out.append((equality, dict(k1='2d', k2='2d', n1=2, n2=2, l1='c',
                               l2='c')))
    out.append((equality, dict(k1='2d', k2='2d', n1=2, n2=2, l1='c',
                               l2='f')))
    out.append((equality, dict(k1='1d', k2='1d', n1=2, n2=2, l1='i',
                               l2='f')))
    for n in (3, 4):
        out.append((toomany, dict(n=n)))
    return out
