"""C34 ERA realises the given Markov parameters."""
import numpy as np
from .common import REALS, LAPACK, NUMPY
from .linear import Hc, dot, svals, phase_free

BOUNDS = ('systems of order 1..2 (3: companion form) with any state array, '
          '1..3 inputs and outputs, sampling intervals P of 1..3, 1..3 block '
          'rows and columns (any controllable and observable system for '
          'which the Hankel array has the rank of the order and distinct '
          'singular values), model order below (leading part), equal to or '
          'above the order; '
          'Hankel arrays and block dimensions: any data of 2..14 samples, '
          'every block dimension 1..5 given to constructor and/or call')
OUTSIDE = ('larger systems; equal Hankel singular values; '
           'rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY,
               'in the encoding the singular vectors are free (a superset), '
               'and the claims are A_r = S^(-1/2) U* (O A K) V S^(-1/2), '
               'B_r = S^(1/2) V_1*, C_r = U_1 S^(1/2); with H = O K = U S V* '
               'of rank n this is T A T^(-1), T B, C T^(-1) for T = S^(-1/2) '
               'U* O. Replays compare the Markov parameters']


def data_of(env, A, B, C, P, nt):
    """Markov parameters at the times 0, 1, P, P+1, 2P, ..."""
    n = len(A)
    pw = [np.eye(n, dtype=int) if not env.sym else
          env.array([[int(i == j) for j in range(n)] for i in range(n)])]
    times = [P * (i // 2) + i % 2 for i in range(nt)]
    for _ in range(max(times) + 1):
        pw.append(dot(pw[-1], A))
    return [dot(C, pw[t], B) for t in times], pw


def square(env, n, ld, form):
    if form == 'full':
        return env.tmat('a', n, n, ld)
    if form == 'schur':
        a = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                a[i][j] = env.scal('a%d%d' % (i, j), ld)
        return env.array(a, ld)
    if form == 'modal':
        x, y = env.real('a0'), env.real('a1')
        return env.array([[x, y], [-y, x]], ld)
    a = [[int(j == i + 1) for j in range(n)] for i in range(n)]
    a[n - 1] = [env.scal('a%d' % j, ld) for j in range(n)]
    return env.array(a, ld)


def stack(X, k):
    """First columns, with columns of zeros appended."""
    m, n = X.shape
    Z = np.zeros((m, k), dtype=object)
    Z[:, :n] = X
    return Z


def system(env, n, q, p, P, mo, mc, extra, ld, form, ns, how, ndim=3,
           odd=False):
    """Data of a linear system."""
    sym = env.sym
    nt = 2 * (mo + mc) - 2 + extra
    free = form == 'free' and sym
    if free:
        Y = [env.tmat('y%d_' % t, q, p, ld) for t in range(nt + odd)]
    else:
        A = square(env, n, ld, 'full' if form == 'free' else form)
        B, C = env.tmat('b', n, p, ld), env.tmat('c', q, n, ld)
        Y, pw = data_of(env, A, B, C, P, nt + odd)

    if ld == 'c' and sym and not (free and n < 3 and q * mo < 3):
        env.deterministic()

    def blocks(off):
        return np.vstack([np.hstack([Y[2 * (i + j) + off] for j in range(mc)])
                          for i in range(mo)])
    H = blocks(0)
    if sym:
        for x in [H] + Y:
            x._ld = ld
        e = svals(env, n, 'e')
        U = env.tmat('u', len(H), n, ld)
        V = env.tmat('v', H.shape[1], n, ld)
        env.register_svd(H, env.array(stack(U, len(H)), ld),
                         [x ** 2 for x in e],
                         env.array(stack(V, len(V)), ld))
        if free:
            M = dot(Hc(U), blocks(1), V)
        else:
            # H = O K, and the second Hankel array is O A K
            O = np.vstack([dot(C, pw[P * i]) for i in range(mo)])
            K = np.hstack([dot(pw[P * i], B) for i in range(mc)])
            env.eq('Hankel array of the system', H, dot(O, K))
            M = dot(dot(Hc(U), O), A, dot(K, V))
    else:
        s = np.linalg.svd(H, compute_uv=False)
        env.assume(s[n - 1] > 1e-2 * s[0] and s[0] > 1e-2 and
                   np.amax(np.abs(pw[-1])) < 50)
        for i in range(1, n):
            env.assume(s[i - 1] > s[i] * (1 + 1e-3))
    data = env.array([x.tolist() for x in Y], ld)
    if ndim == 1:
        data = data[:, 0, 0]
    elif ndim == 2:
        data = data[:, :, 0]
    m = env.m
    if how == 'function':
        r = m.era.compute_ERA_model(data, ns)
    elif how == 'default':
        r = m.era.ERA(verbosity=0).compute_model(data, ns)
    elif how == 'ctor':
        r = m.era.ERA(verbosity=0, mo=mo, mc=mc).compute_model(data, ns)
    elif how == 'call':
        r = m.era.ERA(verbosity=0).compute_model(data, ns, mo=mo, mc=mc)
    else:
        r = m.era.ERA(verbosity=0, mo=mc + 1, mc=mo + 2).compute_model(
            data.tolist(), ns, mc=mc, mo=mo)
    Ar, Br, Cr = r
    full, n = n, min(n, ns)
    ok = [np.shape(x) for x in r] == [(n, n), (n, p), (q, n)]
    env.true('sizes of the model', ok, detail=str([np.shape(x) for x in r]))
    if not ok:
        return
    if sym:
        if ld == 'c' and not (free and n < 3 and len(H) < 3):
            for i in range(n):
                env.eq('C_r', Cr[:, i], U[:q, i] * e[i])
                env.eq('B_r', Br[i], np.conjugate(V[:p, i]) * e[i])
                for j in range(n):
                    env.eq('A_r', Ar[i, j] * e[i] * e[j], M[i, j])
            return
        # C_r = U_1 S^(1/2), B_r = S^(1/2) V_1* and A_r = S^(-1/2) U* O A K V
        # S^(-1/2), apart from the phases of the singular vectors
        for i in range(n):
            env.eq('C_r B_r, state by state',
                   dot(Cr[:, i:i + 1], Br[i:i + 1, :]),
                   dot(U[:q, i:i + 1], Hc(V[:p, i:i + 1])) * e[i] ** 2)
            phase_free(env, 'C_r', Cr[:, i:i + 1], U[:q, i:i + 1] * e[i])
            for j in range(n):
                env.eq('terms of C_r A_r B_r',
                       dot(Cr[:, i:i + 1], Br[j:j + 1, :]) * Ar[i, j],
                       dot(U[:q, i:i + 1], Hc(V[:p, j:j + 1])) * M[i, j])
        for i in range(n):
            for j in range(i, n):
                env.eq('A_r is similar to A', Ar[i, j] * Ar[j, i] *
                       e[i] ** 2 * e[j] ** 2, M[i, j] * M[j, i])
    else:
        if n < full:
            # the part of the largest singular values
            U, e, Vh = np.linalg.svd(H, full_matrices=False)
            w = np.sqrt(e[:n])
            X0 = X1 = np.eye(n)
            A0 = dot(Hc(U[:, :n]), blocks(1), Hc(Vh[:n])) / np.outer(w, w)
            for i in range(3):
                env.eq('Markov parameters of the truncated model',
                       dot(Cr, X0, Br), dot(U[:q, :n] * w, X1, (
                           Vh[:n, :p].T * w).T), tol=1e-5)
                X0, X1 = dot(X0, Ar), dot(X1, A0)
            return
        X = np.eye(n)
        got = []
        for t in range(P * (nt // 2) + 2):
            got.append(dot(Cr, X, Br))
            X = dot(X, Ar)
        for i in range(nt):
            env.eq('Markov parameters of the model',
                   got[P * (i // 2) + i % 2], Y[i], tol=1e-5)


def hankel(env, nt, q, p, ld, ndim, ctor, call, form='array'):
    """Block dimensions and Hankel arrays for arbitrary data."""
    def x(*a):
        n = 'y' + '_'.join(map(str, a))
        return env.ireal(n, -9, 9) if ld == 'i' else env.scal(n, ld)
    Y = [env.array([[x(t, i, j) for j in range(p)] for i in range(q)], ld)
         for t in range(nt)]
    data = env.array([y.tolist() for y in Y], ld)
    if ndim == 1:
        data = data[:, 0, 0]
    elif ndim == 2:
        data = data[:, :, 0]
    before = np.array(data)

    def given(w, opts):
        out = {}
        for k in ('mc', 'mo'):
            if k in opts:
                out[k] = 1 + env.choice(w + k, 5)
        return out
    kc, ka = given('ctor', ctor), given('call', call)
    even = nt - nt % 2
    dim = {k: ka.get(k, kc.get(k, (even + 2) // 4)) for k in ('mc', 'mo')}
    fits = 2 * (dim['mo'] + dim['mc']) - 2 <= even
    if fits and env.sym:
        # the claims do not depend on this decomposition
        H = env.array(np.vstack([np.hstack([
            Y[2 * (i + j)] for j in range(dim['mc'])])
            for i in range(dim['mo'])]).tolist(), 'f' if ld == 'i' else ld)
        U, V = (env.array([[int(i == j == 0) for j in range(k)]
                           for i in range(k)], H._ld) for k in H.shape)
        env.register_svd(H, U, [env.pos('e', lo=1)], V)
    o = env.m.era.ERA(verbosity=0, **kc)
    try:
        o.compute_model(data if form == 'array' else data.tolist(), 1, **ka)
    except ValueError:
        env.true('an error only if the data are too short', not fits,
                 detail='%s with %d samples' % (dim, nt))
        return
    env.true('data too short for the block dimensions raise an error', fits,
             detail='%s with %d samples' % (dim, nt))
    mo, mc = dim['mo'], dim['mc']
    if not (ctor or call):
        env.true('default block dimensions are the largest possible',
                 4 * mc - 2 <= even and 4 * (mc + 1) - 2 > even)
    env.true('block dimensions are kept', (o.mo, o.mc) == (mo, mc))
    for name, off in (('Hankel_array', 0), ('Hankel_array2', 1)):
        M = getattr(o, name)
        ok = np.shape(M) == (mo * q, mc * p)
        env.true('dimensions of the Hankel arrays', ok, detail='%s %s, %s' % (
            name, np.shape(M), dim))
        if ok:
            for i in range(mo):
                for j in range(mc):
                    env.eq('%s: block (i, j) is sample 2(i+j)%s' % (
                        name, '+1' * off),
                        M[q * i:q * i + q, p * j:p * j + p],
                        Y[2 * (i + j) + off])
    env.eq('the data are not modified', data, before)


def too_many(env, ndim):
    a = env.array([env.real('x%d' % i) for i in range(4)], 'f')
    try:
        env.m.era.ERA(verbosity=0).compute_model(
            a.reshape((4,) + (1,) * (ndim - 1)), 1)
        r = False
    except Exception:
        r = True
    env.true('data with more than 3 dimensions raise an error', r)


def scenarios(tier):
    out = []
    q_ = tier == 'quick'
    n_ = 0
    hows = ('ctor', 'call', 'both')
    for n, q, p, mo, mc, forms in (
            (1, 1, 1, 1, 1, ('full',)), (1, 2, 1, 1, 2, ('full',)),
            (1, 1, 2, 2, 1, ('full',)), (1, 2, 2, 2, 2, ('full',)),
            (1, 1, 1, 3, 2, ('full',)), (1, 3, 1, 2, 1, ('full',)),
            (1, 1, 3, 1, 2, ('full',)),
            (2, 2, 2, 1, 1, ('full', 'free')), (2, 2, 1, 1, 2, ('full',)),
            (2, 1, 2, 2, 1, ('full', 'free')), (2, 3, 2, 1, 1, ('full',)),
            (2, 1, 1, 2, 2, ('schur', 'modal', 'companion', 'full')),
            (2, 2, 1, 2, 2, ('schur', 'companion', 'free')),
            (2, 1, 2, 2, 2, ('modal', 'companion', 'free')),
            (2, 1, 1, 3, 2, ('companion', 'free')),
            (2, 1, 1, 2, 3, ('companion', 'free')),
            (2, 2, 2, 2, 2, ('free',)), (3, 2, 2, 2, 2, ('free',)),
            (3, 1, 1, 3, 3, ('companion', 'free')),
            (3, 3, 3, 1, 1, ('companion', 'free')),
            (3, 3, 1, 1, 3, ('companion', 'free'))):
        for P in (1, 2, 3):
            for ld in 'fc':
                for form in forms:
                    if form == 'modal' and ld == 'c' or \
                            form == 'free' and P > 1:
                        continue
                    big = n * mo * mc * P * (3 if ld == 'c' else 1) * (
                        2 if form == 'full' else 1)
                    if form != 'free' and big > (24 if q_ else 100):
                        continue
                    for extra, odd, ns in ((0, False, n), (2, True, n),
                                           (1, False, n + 1)):
                        if extra and n_ % 3 and q_:
                            n_ += 1
                            continue
                        n_ += 1
                        # with extra samples the default dimensions differ
                        how = hows[n_ % 3]
                        if mo == mc and extra < 2 and n_ % 2:
                            how = ('function', 'default')[n_ // 2 % 2]
                        if how in ('function', 'default') and \
                                (2 * (mo + mc) - 2 + extra + odd - (
                                    extra + odd) % 2 + 2) // 4 != mo:
                            how = 'ctor'
                        ndim = 3
                        if p == 1 and n_ % 2:
                            ndim = 1 if q == 1 else 2
                        out.append((system, dict(
                            n=n, q=q, p=p, P=P, mo=mo, mc=mc, extra=extra,
                            ld=ld, form=form, ns=ns, how=how, ndim=ndim,
                            odd=odd)))
    for n, ns, q, p, mo, mc in ((2, 1, 2, 2, 1, 1), (2, 1, 1, 1, 2, 2),
                                (3, 2, 1, 2, 3, 2), (3, 1, 2, 1, 2, 3),
                                (3, 2, 3, 3, 1, 1)):
        for ld in 'fc':
            if n == 3 and ld == 'c' and q_:
                continue
            for how in ('function', 'call') if mo == mc else ('call',):
                out.append((system, dict(
                    n=n, q=q, p=p, P=1, mo=mo, mc=mc, extra=0, ld=ld,
                    form='free', ns=ns, how=how)))
    both = ['mc', 'mo']
    for nt in range(2, 13 if q_ else 19):
        q, p = ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1))[nt % 5]
        for ld, ctor, call in (('f', [], []), ('c', [], both),
                               ('f', both, []), ('i', ['mc'], ['mo']),
                               ('f', ['mo'], []), ('c', [], ['mc']),
                               ('f', both, ['mo']), ('f', ['mc'], both)):
            if q_ and len(ctor) + len(call) > 2 and nt % 4:
                continue
            ndim = 3
            if p == 1:
                ndim = 1 if q == 1 else 2
            if len(ctor) == 1:
                ndim = 3
            out.append((hankel, dict(nt=nt, q=q, p=p, ld=ld, ndim=ndim,
                                     ctor=ctor, call=call,
                                     form='list' if nt == 6 else 'array')))
    for ndim in (4, 5):
        out.append((too_many, dict(ndim=ndim)))
    return out
