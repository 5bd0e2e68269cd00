"""C33 Time derivatives and standard basis."""
import numpy as np
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('1..7 vectors (arrays: of dimension 1..3, in 1D or 2D arrays or '
          'lists; handles: of any vector space), arbitrary real, complex or '
          'integer entries, any non-zero real or complex time step (integers '
          'included); 1..4 workers; dimensions 0..6 of the standard basis')
OUTSIDE = ('more vectors or workers; integers that overflow; rounding; '
           'interleavings (C05)')
ASSUMPTIONS = [REALS, NUMPY, MPI]


def step(env, kind):
    if kind == 'i':
        dt = env.ireal('dt', -9, 9)
    elif kind == 'c':
        dt = env.cplx('dt')
    else:
        dt = env.real('dt')
    env.assume(dt != 0)
    return dt


def entries(env, name, shape, t):
    def x(n):
        if t == 'i':
            return env.ireal(n, -9, 9)
        return env.scal(n, t)
    if len(shape) == 1:
        rows = [x('%s%d' % (name, i)) for i in range(shape[0])]
    else:
        rows = [[x('%s%d_%d' % (name, i, j)) for j in range(shape[1])]
                for i in range(shape[0])]
    return rows, t


def arrays(env, shape, lv, la, lt, form):
    v, _ = entries(env, 'v', shape, lv)
    a, _ = entries(env, 'a', shape, la)
    dt = step(env, lt)

    def mk(x, t):
        return env.array(x, t)
    V, A = mk(v, lv), mk(a, la)
    ref = [np.array(V), np.array(A)]
    f = (lambda x: x.tolist()) if form == 'list' else (lambda x: x)
    d = env.m.ltigalerkinproj.compute_derivs_arrays(f(V), f(A), dt)
    ok = isinstance(d, np.ndarray) and np.shape(d) == tuple(shape)
    env.true('shape of the derivatives', ok, detail=str(np.shape(d)))
    if ok:
        flat = [(x, y, z) for x, y, z in zip(
            d.ravel().tolist(), V.ravel().tolist(), A.ravel().tolist())]
        for x, y, z in flat:
            env.eq('dt * derivative = advanced - vector', dt * x, z - y)
    env.eq('the arrays are not modified', [V, A], ref)


def handles(env, P, n, lt, data):
    """``data``: "separate" vectors and advanced vectors, or consecutive
    vectors of one "series", or derivatives that "replace" the vectors."""
    if data == 'series':
        s = ['x%d' % i for i in range(n + 1)]
        vk, ak = s[:-1], s[1:]
    else:
        vk = ['x%d' % i for i in range(n)]
        ak = ['y%d' % i for i in range(n)]
    dk = vk if data == 'replace' else ['d%d' % i for i in range(n)]
    st = hh.setup(env, P, sorted(set(vk + ak)))
    before = st.snapshot()
    dt = step(env, lt)
    seen = []

    def go(rank, m):
        r = m.ltigalerkinproj.compute_derivs_handles(
            st.handles(vk, rank), st.handles(ak, rank),
            st.handles(dk, rank), dt)
        seen.append(sorted(k for _, k in st.puts) == sorted(dk))
        return r
    hh.run_ranks(env, P, go)
    env.true('every derivative handle receives one vector, before any worker '
             'returns', all(seen), detail=str(st.puts))
    keys = sorted(set(vk + ak))
    for v, a, d in zip(vk, ak, dk):
        if d not in st.val:
            continue
        got = st.val[d]
        env.true('the derivative is a combination of the vectors',
                 set(got) <= set(keys))
        for k in keys:
            want = (1 if k == a else 0) - (1 if k == v else 0)
            env.eq('dt * derivative = advanced - vector',
                   dt * got.get(k, 0), want)
    for k, x in before.items():
        if k not in dk:
            env.true('the vectors are not modified', st.val[k] == x)


def memory(env, P, n, shape, lt, ld, data):
    """Arrays held in memory: the handles give out the stored arrays."""
    nv = n + 1 if data == 'series' else 2 * n
    X = [env.array(entries(env, 'x%d' % i, shape, ld)[0], ld)
         for i in range(nv)]
    ref = [np.array(x) for x in X]
    dt = step(env, lt)
    hs = []

    def go(rank, m):
        if not hs:
            hs.extend(m.vectors.VecHandleInMemory(x) for x in X)
            hs.extend(m.vectors.VecHandleInMemory() for _ in range(n))
        v = hs[:n]
        a = hs[1:n + 1] if data == 'series' else hs[n:2 * n]
        m.ltigalerkinproj.compute_derivs_handles(v, a, hs[nv:], dt)
    hh.run_ranks(env, P, go)
    for i in range(n):
        j = i + 1 if data == 'series' else n + i
        d = hs[nv + i].get()
        ok = np.shape(d) == tuple(shape)
        env.true('shape of the derivatives', ok, detail=str(np.shape(d)))
        if ok:
            for x, y, z in zip(d.ravel().tolist(), ref[i].ravel().tolist(),
                               ref[j].ravel().tolist()):
                env.eq('dt * derivative = advanced - vector', dt * x, z - y)
    env.eq('the vectors are not modified', X, ref)
    env.eq('the handles still give the vectors', [h.get() for h in hs[:nv]],
           ref)


def unequal(env, P, a, b, c):
    st = hh.setup(env, P, ['v%d' % i for i in range(a)] +
                  ['a%d' % i for i in range(b)])

    def go(rank, m):
        try:
            m.ltigalerkinproj.compute_derivs_handles(
                st.handles(['v%d' % i for i in range(a)], rank),
                st.handles(['a%d' % i for i in range(b)], rank),
                st.handles(['d%d' % i for i in range(c)], rank),
                0.5)
            return False
        except Exception:
            return True
    for r in hh.run_ranks(env, P, go):
        env.true('unequal numbers of handles raise an error', r)
    env.true('nothing is put', not st.puts)


def basis(env, n):
    b = env.m.ltigalerkinproj.standard_basis(n)
    env.true('a list of n vectors', isinstance(b, list) and len(b) == n)
    x = [env.real('x%d' % i) for i in range(n)]
    for i, v in enumerate(b):
        env.true('vectors of length n', np.shape(v) == (n,))
        env.eq('unit vectors', sum(v[j] * x[j] for j in range(n)), x[i])


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for lt in 'fci':
        for lv, la in ('ff', 'cc', 'ii', 'fc', 'cf', 'if', 'fi', 'ci', 'ic'):
            for shape in ((1, 1), (2, 3), (3, 1), (3,), (1, 4)):
                for form in ('array', 'list'):
                    if form == 'list' and shape not in ((2, 3), (3,)):
                        continue
                    out.append((arrays, dict(shape=list(shape), lv=lv, la=la,
                                             lt=lt, form=form)))
    for P in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        for n in sorted({1, 2, 3, P, P + 1, 2 * P + 1, 7}):
            for data in ('separate', 'series', 'replace'):
                for lt in 'fci' if n < 3 else 'f':
                    out.append((handles, dict(P=P, n=n, lt=lt, data=data)))
        for n in (1, 2, 3):
            for data in ('separate', 'series'):
                for ld, lt in ('ff', 'cf', 'cc', 'fi'):
                    out.append((memory, dict(
                        P=P, n=n, lt=lt, ld=ld, data=data,
                        shape=[3] if n < 3 else [2, 2])))
        if P < 4:
            for a, b, c in ((1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 2, 1),
                            (2, 1, 1), (1, 1, 2), (3, 2, 1), (0, 1, 1),
                            (1, 0, 1), (1, 1, 0), (2, 3, 3), (3, 3, 2)):
                out.append((unequal, dict(P=P, a=a, b=b, c=c)))
    for n in range(7 if q else 12):
        out.append((basis, dict(n=n)))
    return out
