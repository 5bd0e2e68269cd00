"""C36 OKID recovers the Markov parameters of a linear system."""
import numpy as np
from .common import REALS, NUMPY, LAPACK
from .linear import Q

BOUNDS = ('1..6 Markov parameters (thorough: 1..9) of systems with 1..3 inputs '
          'and outputs; any real or integer data of any linear system with a '
          'deadbeat observer of as many steps (autoregressive coefficients '
          'and direct terms are arbitrary real numbers); 1D or 2D arrays or '
          'lists')
OUTSIDE = ('more parameters; complex data; truncation of memory that has not '
           'decayed; rounding; data that do not determine the parameters')
ASSUMPTIONS = [REALS, NUMPY, LAPACK,
               'least squares: numpy.linalg.lstsq of consistent equations '
               'returns a solution; whatever solution M it is, the data are '
               'those of the autoregressive system with coefficients M, whose '
               'Markov parameters are expected. In the encoding inputs and '
               'outputs are free numbers (a superset)']


def rows_of(env, name, k, n, ld):
    return [[env.ireal('%s%d_%d' % (name, i, t), -9, 9) if ld == 'i' else
             env.real('%s%d_%d' % (name, i, t), -1, 1) for t in range(n)]
            for i in range(k)]


def recover(env, m, q, p, ns, ld, ndim, form):
    """y_k = D u_k + sum_i (b_i u_(k-i) + a_i y_(k-i)), i = 1..m."""
    D = env.array([[env.real('d%d%d' % (i, j), -1, 1) for j in range(p)]
                   for i in range(q)], 'f')
    b = [env.array([[env.real('b%d_%d%d' % (l, i, j), -1, 1)
                     for j in range(p)] for i in range(q)], 'f')
         for l in range(m)]
    hi = Q(1, q * m)
    a = [env.array([[env.real('a%d_%d%d' % (l, i, j), -hi, hi)
                     for j in range(q)] for i in range(q)], 'f')
         for l in range(m)]
    U = env.array(rows_of(env, 'u', p, ns, ld), ld)
    nv = p + m * (p + q)
    if env.sym:
        Y = env.array(rows_of(env, 'y', q, ns, 'f'), 'f')
    else:
        Y = np.zeros((q, ns))
        for k in range(ns):
            Y[:, k] = D.dot(U[:, k])
            for i in range(1, min(m, k) + 1):
                Y[:, k] += b[i - 1].dot(U[:, k - i]) + \
                    a[i - 1].dot(Y[:, k - i])
    zero = [0] * ns
    V = [list(U[i]) for i in range(p)]
    for l in range(1, m + 1):
        for X, k in ((U, p), (Y, q)):
            for i in range(k):
                V.append((zero[:l] + list(X[i]))[:ns])
    M = np.hstack([D] + sum([[x, y] for x, y in zip(b, a)], []))
    if env.sym:
        A = env.array(V, 'f').T
        M = M.T
        M._ld = 'f'
        env.register_lstsq(A, Y.T, M)
    else:
        s = np.linalg.svd(np.array(V, dtype=float), compute_uv=False)
        env.assume(len(s) == nv and s[-1] > 1e-3 * s[0])
    ins, outs = U, Y
    if ndim == 1:
        ins = U[0] if p == 1 else U
        outs = Y[0] if q == 1 else Y
    before = np.array(ins), np.array(outs)
    if form == 'list':
        r = env.m.okid.OKID(ins.tolist(), outs.tolist(), m)
    else:
        r = env.m.okid.OKID(ins, outs, m)
    ok = np.shape(r) == (m, q, p)
    env.true('indices [time, output, input]', ok, detail=str(np.shape(r)))
    if ok:
        # response to an impulse of each input
        for j in range(p):
            h = []
            for t in range(m):
                x = D[:, j] if t == 0 else b[t - 1][:, j]
                for i in range(1, t + 1):
                    x = x + a[i - 1].dot(h[t - i])
                h.append(x)
                env.eq('Markov parameter = response at this time to an '
                       'impulse', r[t][:, j], x)
    env.eq('the data are not modified', [ins, outs], list(before))


def lengths(env, p, q, a, b):
    U, Y = env.rmat('u', p, a), env.rmat('y', q, b)
    try:
        env.m.okid.OKID(U, Y, 1)
        r = False
    except Exception:
        r = True
    env.true('different numbers of samples raise an error', r)


def scenarios(tier):
    out = []
    q_ = tier == 'quick'
    for m in range(1, 7 if q_ else 10):
        for q, p in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 3)):
            if m * q > (9 if q_ else 14) and q * p > 1:
                continue
            if m > 5 and q * p > 1 and q_:
                continue
            nv = p + m * (p + q)
            for k, ns in enumerate((nv + 2 * m, 2 * nv + 4)):
                out.append((recover, dict(
                    m=m, q=q, p=p, ns=ns, ld='i' if (m + k) % 3 == 0 else 'f',
                    ndim=1 + (m + k) % 2,
                    form='list' if (m + q + k) % 4 == 0 else 'array')))
    for p, q, a, b in ((1, 1, 3, 4), (1, 1, 5, 4), (2, 1, 4, 3), (1, 2, 3, 5),
                       (2, 2, 6, 5), (2, 3, 2, 6)):
        out.append((lengths, dict(p=p, q=q, a=a, b=b)))
    return out
