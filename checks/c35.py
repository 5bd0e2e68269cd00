"""C35 sampled-format conversion."""
import numpy as np
from .common import REALS, NUMPY
from .linear import Q

BOUNDS = ('2..9 samples (thorough: 2..16) of 1..3 outputs and inputs; '
          'arbitrary real, complex or integer data; any time origin and any '
          'non-zero time step (negative ones included), integer times; any '
          'times with any tolerance; arrays or lists')
OUTSIDE = 'longer data; rounding; the number of samples 1'
ASSUMPTIONS = [REALS, NUMPY]


def values(env, nt, q, p, ld):
    def x(*a):
        n = 'y' + '_'.join(map(str, a))
        return env.ireal(n, -9, 9) if ld == 'i' else env.scal(n, ld)
    return [env.array([[x(t, i, j) for j in range(p)] for i in range(q)], ld)
            for t in range(nt)]


def result(env, r, Y):
    nt = len(Y)
    env.true('two results', len(r) == 2)
    steps, M = r[0], r[1]
    want = [t for i in range(nt - 1) for t in (i, i + 1)]
    ok = np.shape(steps) == (len(want),)
    env.true('number of time steps', ok, detail=str(np.shape(steps)))
    if ok:
        env.eq('time steps 0 1 1 2 2 3 ...', list(steps), want)
        env.true('integer time steps', np.asarray(steps).dtype.kind in 'iO')
    ok = np.shape(M) == (len(want),) + np.shape(Y[0])
    env.true('number of samples', ok, detail=str(np.shape(M)))
    if ok:
        for i, t in enumerate(want):
            env.eq('sample at each time step', M[i], Y[t])


def convert(env, f, times, Y, ld, form, kw):
    data = env.array([y.tolist() for y in Y], ld)
    before = np.array(data), np.array(times)
    if form == 'list':
        r = f(times.tolist(), data.tolist(), **kw)
    else:
        r = f(times, data, **kw)
    env.eq('the data are not modified', data, before[0])
    env.eq('the times are not modified', times, before[1])
    return r


def uniform(env, nt, q, p, ld, lt, form, tol):
    Y = values(env, nt, q, p, ld)
    if lt == 'i':
        t0, dt = env.ireal('t0', -9, 9), env.ireal('dt', -9, 9)
    else:
        t0, dt = env.real('t0', -100, 100), env.real('dt', -100, 100)
    env.assume(dt != 0)
    if lt == 'f':
        env.assume(dt ** 2 > Q(1, 10000))
    times = env.array([t0 + k * dt for k in range(nt)], lt)
    kw = dict(dt_tol=env.pos('tol', lo=Q(1, 10000))) if tol else {}
    result(env, convert(env, env.m.era.make_sampled_format, times, Y, ld,
                        form, kw), Y)


def perturbed(env, nt, free, form):
    """Any times (those in ``free``; the others are uniform)."""
    Y = values(env, nt, 1, 1, 'f')
    t0, dt = env.real('t0', -10, 10), env.real('dt', -10, 10)
    env.assume(dt != 0)
    t = [t0 + k * dt for k in range(nt)]
    for k in free:
        t[k] = env.real('t%d' % (k + 1), -10, 10)
    times = env.array(t, 'f')
    tol = env.pos('tol', lo=Q(1, 100), hi=20)
    bad = False
    for k in range(1, nt - 1):
        d = (t[k + 1] - t[k]) - (t[1] - t[0])
        bad = env.above(d, tol, 20) or env.above(-d, tol, 20) or bad
    env.assume(t[1] != t[0])
    try:
        r = convert(env, env.m.era.make_sampled_format, times, Y, 'f', form,
                    dict(dt_tol=tol))
    except ValueError:
        env.true('an error only if the times are not uniform', bad)
        return
    env.true('times that are not uniform beyond the tolerance raise an error',
             not bad)
    result(env, r, Y)


def lengths(env, nt, n, q, p):
    Y = values(env, nt, q, p, 'f')
    dt = env.real('dt', 1, 5)
    times = env.array([k * dt for k in range(n)], 'f')
    try:
        env.m.era.make_sampled_format(
            times, env.array([y.tolist() for y in Y], 'f'))
        r = False
    except Exception:
        r = True
    env.true('times and data of different lengths raise an error', r)


def scenarios(tier):
    out = []
    q_ = tier == 'quick'
    top = 9 if q_ else 16
    for nt in range(2, top + 1):
        for ld in 'fci':
            for lt in 'fi':
                for k, (q, p) in enumerate(((1, 1), (2, 1), (1, 3), (2, 2))):
                    if q_ and (nt + k) % 2 and nt > 4:
                        continue
                    out.append((uniform, dict(
                        nt=nt, q=q, p=p, ld=ld, lt=lt, tol=(nt + k) % 3 == 0,
                        form='list' if k == nt % 4 else 'array')))
    for nt, free in ((2, [1]), (2, [0, 1]), (3, [0]), (3, [1]), (3, [2]),
                     (3, [0, 1, 2]), (4, [3]), (4, [2]), (4, [1, 3]),
                     (4, [0, 1, 2, 3]), (5, [2]), (5, [4]), (5, [0]),
                     (5, [3, 4]), (7, [3]), (7, [6]), (9, [8]), (9, [5]),
                     (6, [2, 3, 4, 5])):
        if q_ and len(free) > 3:
            continue
        out.append((perturbed, dict(nt=nt, free=free, form='array' if nt % 2
                                    else 'list')))
    for nt, n, q, p in ((3, 4, 1, 1), (4, 3, 1, 1), (4, 2, 2, 1), (2, 3, 2, 2),
                        (3, 2, 3, 2), (2, 4, 1, 2), (5, 3, 3, 3)):
        out.append((lengths, dict(nt=nt, n=n, q=q, p=p)))
    return out
