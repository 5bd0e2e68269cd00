"""C21 balanced truncation."""
from fractions import Fraction

import numpy as np
from .common import REALS, LAPACK, NUMPY

BOUNDS = ('systems with 1 or 2 (thorough: 3 real) states, as many or more '
          'inputs and outputs where the Gramian claims need it and 1..3 '
          'otherwise, real or complex, with arbitrary arrays; the Gramians '
          'are any pair of positive definite arrays with distinct Hankel '
          'singular values; all requested orders')
OUTSIDE = ('larger systems; uncontrollable or unobservable systems; equal '
           'Hankel singular values; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY,
               'scipy.linalg.solve_discrete_lyapunov(a, q) returns the '
               'solution of a x a* - x + q = 0; in the encoding the Gramians '
               'are independent of A, B, C (a superset of the real cases), '
               'the claims are stated so that they imply the Gramian '
               'equations when the solutions are the real ones; replays and '
               'validation runs check the equations themselves on real '
               'systems']


LO = Fraction(1, 10**5)       # nothing below the default tolerances


def Hc(a):
    return np.conjugate(a).T


def system(env, n, m, p, ld, gen=None):
    """A, B, C and, in the encoding, factors of the Gramians."""
    A = env.array([[env.scal('a%d%d' % (i, j), ld) for j in range(n)]
                   for i in range(n)], ld)
    B = env.tmat('b', n, m, ld)
    C = env.tmat('c', p, n, ld)
    if not env.sym:
        r = max(abs(np.linalg.eigvals(A)))
        if r > .9:
            A = A * (.9 / r)
        # as in the encoding: smallest eigenvalue of P, smallest Hankel
        # singular value
        P, Qo = gramians(A, B, C)
        env.assume(min(np.linalg.eigvalsh(P)) > 1e-12)
        B = B * (env.pos('e%d' % (n - 1)) / np.sqrt(
            min(np.linalg.eigvalsh(P))))
        P, Qo = gramians(A, B, C)
        h = min(abs(np.linalg.eigvals(P.dot(Qo)))) ** .5
        env.assume(h > 1e-12)
        C = C * (env.pos('s%d' % (n - 1)) ** 2 / h)
        P, Qo = gramians(A, B, C)
        h = np.sqrt(abs(np.sort(np.linalg.eigvals(P.dot(Qo)).real)))[::-1]
        c = max(np.linalg.cond(P), np.linalg.cond(Qo))
        gap = min([1.] + [(h[i] - h[i + 1]) / h[0] for i in range(n - 1)])
        env.assume(c < 1e5 and gap > 1e-3 and min(
            min(np.linalg.eigvalsh(P)), min(np.linalg.eigvalsh(Qo)),
            h[-1]) > 1e-11)
        return A, B, C, P, Qo, h
    e = [env.pos('e%d' % i, lo=LO) for i in range(n)]
    eo = [env.pos('o%d' % i, lo=LO) for i in range(n)]
    s = [env.pos('s%d' % i, lo=LO) for i in range(n)]
    for i in range(1, n):
        env.assume(s[i - 1] > s[i])
    # gen: which of the factors is complex (the phases of the others are
    # those of the decompositions)
    Uc, U, V = [env.unitary(k, n, ld if gen in (None, k) else 'f',
                            left=gen is None) for k in ('uc', 'u', 'v')]
    sq = [x ** 2 for x in s]
    Lc = np.dot(Uc, env.diag(e))
    Lci = np.dot(env.diag([1 / x for x in e]), Hc(Uc))
    # Lo* Lc = U S V*
    Lo = np.dot(Hc(Lci), np.dot(V, np.dot(env.diag(sq), Hc(U))))
    P = np.dot(Lc, Hc(Lc))
    Qo = np.dot(Lo, Hc(Lo))
    for X in (A, B, C, P, Qo):
        X._ld = ld
    Uo = np.dot(Lo, env.diag([1 / x for x in eo]))
    env.register_svd(P, Uc, [x * x for x in e], Uc)
    env.register_svd(Qo, Uo, [x * x for x in eo], Uo)
    M = np.dot(U, np.dot(env.diag(sq), Hc(V)))
    M._ld = ld
    env.register_svd(M, U, sq, V)
    env.register_dlyap(A, np.dot(B, Hc(B)), P)
    env.register_dlyap(Hc(A), np.dot(Hc(C), C), Qo)
    return A, B, C, P, Qo, sq


def gramians(A, B, C):
    import scipy.linalg
    return (scipy.linalg.solve_discrete_lyapunov(A, B.dot(Hc(B))),
            scipy.linalg.solve_discrete_lyapunov(Hc(A), Hc(C).dot(C)))


def dot(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = np.dot(r, x)
    return r


def full(env, n, m, p, ld, sv=True, form='array', order=None,
         gen=None, only=None):
    A, B, C, P, Qo, h = system(env, n, m, p, ld, gen)
    A0, B0, C0 = np.array(A), np.array(B), np.array(C)
    args = [x.tolist() for x in (A, B, C)] if form == 'list' else [A, B, C]
    kw = {} if order is None else dict(order=order)
    r = env.m.util.balanced_truncation(*args, return_sing_vals=sv, **kw)
    env.true('arrays, and singular values if asked for',
             len(r) == (4 if sv else 3))
    Ab, Bb, Cb = r[:3]
    env.true('shapes', Ab.shape == (n, n) and Bb.shape == (n, m) and
             Cb.shape == (p, n), detail='%s %s %s' % (
                 Ab.shape, Bb.shape, Cb.shape))
    if Ab.shape != (n, n) or Bb.shape != (n, m) or Cb.shape != (p, n):
        return
    X, Y = B0, Bb
    for k in range({None: n + 1, 'ir': 2}.get(only, 0)):
        env.eq('the impulse response is reproduced', dot(Cb, Y), dot(C0, X))
        X, Y = dot(A0, X), dot(Ab, Y)
    E = h
    if sv:
        E = r[3]
        env.eq('the Hankel singular values, square roots of the eigenvalues '
               'of the product of the Gramians', E, h)
        if np.shape(E) != (n,):
            return
    D = env.diag(list(E))
    if env.sym and only == 'ir':
        pass
    elif env.sym:
        # T X T* for the controllability and T^-* X T^-1 for the
        # observability Gramian, seen through C and B: the residual of the
        # first equation does not involve C, that of the second not B, and
        # a quadratic form in a free vector determines a Hermitian array
        if only != 'obs':
            env.eq('controllability Gramian is the diagonal array of the Hankel '
                   'singular values',
                   dot(Cb, dot(Ab, D, Hc(Ab)) + dot(Bb, Hc(Bb)) - D, Hc(Cb)),
                   dot(C0, dot(A0, P, Hc(A0)) + dot(B0, Hc(B0)) - P, Hc(C0)))
        if only != 'cont':
            env.eq('observability Gramian is the diagonal array of the Hankel '
                   'singular values',
                   dot(Hc(Bb), dot(Hc(Ab), D, Ab) + dot(Hc(Cb), Cb) - D, Bb),
                   dot(Hc(B0), dot(Hc(A0), Qo, A0) + dot(Hc(C0), C0) - Qo, B0))
    else:
        env.eq('controllability Gramian is the diagonal array of the Hankel '
               'singular values', dot(Ab, D, Hc(Ab)) + dot(Bb, Hc(Bb)), D)
        env.eq('observability Gramian is the diagonal array of the Hankel '
               'singular values', dot(Hc(Ab), D, Ab) + dot(Hc(Cb), Cb), D)
    if form == 'array':
        env.eq('A is not modified', A, A0)
        env.eq('B is not modified', B, B0)
        env.eq('C is not modified', C, C0)


def lower(env, n, m, p, ld, order, gen=None):
    """A lower order gives the leading block of the full realisation (up to
    the signs/phases of the states)."""
    A, B, C, P, Qo, h = system(env, n, m, p, ld, gen)
    bt = env.m.util.balanced_truncation
    Af, Bf, Cf, Ef = bt(A, B, C, return_sing_vals=True)
    A1, B1, C1, E1 = bt(A, B, C, order=order, return_sing_vals=True)
    k = order
    env.true('shapes', A1.shape == (k, k) and B1.shape == (k, m) and
             C1.shape == (p, k), detail='%s %s %s' % (
                 A1.shape, B1.shape, C1.shape))
    if A1.shape != (k, k) or B1.shape != (k, m) or C1.shape != (p, k):
        return
    env.eq('leading singular values', E1[:k], Ef[:k])
    D = env.diag(list(Ef)[:k])
    Af, Bf, Cf = Af[:k, :k], Bf[:k], Cf[:, :k]
    env.eq('leading block: C B', dot(C1, B1), dot(Cf, Bf))
    env.eq('leading block: C A B', dot(C1, A1, B1), dot(Cf, Af, Bf))
    env.eq('leading block: C E B', dot(C1, D, B1), dot(Cf, D, Bf))
    env.eq('leading block: C E C*', dot(C1, D, Hc(C1)), dot(Cf, D, Hc(Cf)))
    env.eq('leading block: C A E B', dot(C1, A1, D, B1), dot(Cf, Af, D, Bf))
    env.eq('leading block: C E A B', dot(C1, D, A1, B1), dot(Cf, D, Af, Bf))
    R = bt(A, B, C, order=order)
    env.eq('the same without singular values', dot(R[2], R[0], R[1]),
           dot(C1, A1, B1))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for ld in 'fc':
        for n, m, p in ((1, 1, 1), (1, 2, 1), (1, 1, 2)):
            for sv in (True, False):
                out.append((full, dict(n=n, m=m, p=p, ld=ld, sv=sv)))
        out.append((full, dict(n=1, m=2, p=2, ld=ld, form='list')))
        out.append((lower, dict(n=2, m=1, p=1, ld=ld, order=1)))
    out.append((full, dict(n=2, m=2, p=2, ld='f', only='ir')))
    out.append((full, dict(n=2, m=1, p=1, ld='f', sv=False, order=2)))
    out.append((full, dict(n=2, m=1, p=1, ld='f', sv=False)))
    for o in (1, 2):
        out.append((lower, dict(n=2, m=2, p=2, ld='f', order=o)))
    for gen in ('uc', 'u', 'v'):
        for o, m, p in (('ir', 2, 2), ('cont', 1, 1), ('obs', 1, 1)):
            if not q or o != 'obs' or gen == 'u':
                out.append((full, dict(n=2, m=m, p=p, ld='c', gen=gen,
                                       only=o)))
        out.append((lower, dict(n=2, m=1, p=1, ld='c', order=2, gen=gen)))
    out.append((lower, dict(n=2, m=2, p=1, ld='c', order=1, gen='u')))
    out.append((lower, dict(n=2, m=1, p=2, ld='c', order=1, gen='v')))
    for m, p in ((1, 1), (1, 2), (2, 1)) if q else (
            (1, 1), (1, 2), (2, 1), (3, 2), (2, 3)):
        out.append((full, dict(n=2, m=m, p=p, ld='f')))
    if not q:
        for o in ('ir', 'cont', 'obs'):
            out.append((full, dict(n=2, m=1, p=1, ld='c', only=o)))
        out.append((full, dict(n=3, m=3, p=3, ld='f')))
        for o in (1, 2):
            out.append((lower, dict(n=3, m=1, p=1, ld='f', order=o)))
    return out
