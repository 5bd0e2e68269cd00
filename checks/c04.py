"""C04 linear combinations through handles."""
import numpy as np
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('1..4 workers on 1..4 nodes, up to 2 x workers + 2 basis and output '
          'handles (thorough: 3 x workers + 2), every integer memory limit '
          '>= 1 per node (symbolic, unbounded), arbitrary integer/real/'
          'complex coefficients, column selections with repeats and any order; '
          '5..8 workers for five sizes')
OUTSIDE = ('more workers or handles; empty handle lists; output handles that '
           'are also basis handles')
ASSUMPTIONS = [REALS, NUMPY, MPI]


def coeffs(env, nb, ncol, ld):
    if ld == 'i':
        return [[env.ireal('a%d_%d' % (i, j), -9, 9) for j in range(ncol)]
                for i in range(nb)]
    return [[env.scal('a%d_%d' % (i, j), ld) for j in range(ncol)]
            for i in range(nb)]


def lincomb(env, P, nodes, nb, ns, ld, cols=None, ncol=None, form='2d',
            limit='sym', verbosity=0, single=False, colform='list'):
    bk = ['b%d' % i for i in range(nb)]
    sk = ['s%d' % j for j in range(ns)]
    st = hh.setup(env, P, bk)
    ncol = ncol or ns
    A = coeffs(env, nb, ncol, ld)
    lim = env.int('limit', 1) if limit == 'sym' else limit
    sel = list(range(ncol)) if cols is None else list(cols)

    def arg():
        if form == '2d':
            return env.array([list(r) for r in A], ld)
        if form == 'list':
            return [list(r) for r in A]
        if form == '1d':
            return env.array([r[0] for r in A] if nb > 1 else list(A[0]), ld)

    def carg():
        if cols is None:
            return None
        if colform == 'array':
            return np.array(cols)
        if colform == 'tuple':
            return tuple(cols)
        if colform == 'int':
            return cols[0]
        return list(cols)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(
            inner_product=None, max_vecs_per_node=lim, verbosity=verbosity)
        b, s = st.handles(bk, rank), st.handles(sk, rank)
        if single:
            b = b[0] if nb == 1 else b
            s = s[0] if ns == 1 else s
        kw = {} if cols is None else dict(coeff_array_col_indices=carg())
        return vs.lin_combine(s, b, arg(), **kw)
    hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    env.true('every output handle receives exactly one vector',
             sorted(k for _, k in st.puts) == sorted(sk), detail=str(st.puts))
    for j, k in enumerate(sk):
        got = st.val.get(k)
        if got is None:
            continue
        env.true('only basis vectors contribute', set(got) <= set(bk))
        env.eq('output is the sum of basis vector times coefficient',
               [got.get(b, 0) for b in bk], [A[i][sel[j]]
                                             for i in range(nb)])
    for k in bk:
        env.true('basis vectors are unchanged',
                 list(st.val[k].items()) == [(k, 1)])


def mismatch(env, P, nb, ns, rows, ncol, cols=None, form='2d'):
    bk = ['b%d' % i for i in range(nb)]
    sk = ['s%d' % j for j in range(ns)]
    st = hh.setup(env, P, bk)
    A = coeffs(env, rows, ncol, 'f')

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(max_vecs_per_node=10,
                                              verbosity=0)
        a = env.array(A, 'f') if form == '2d' else env.array(
            [r[0] for r in A], 'f')
        try:
            vs.lin_combine(st.handles(sk, rank), st.handles(bk, rank), a,
                           coeff_array_col_indices=cols)
        except ValueError:
            return 'ValueError'
        return 'no error'
    res = hh.run_ranks(env, P, go)
    env.true('mismatched numbers of handles and coefficients raise an error',
             all(r == 'ValueError' for r in res), detail=str(res))
    env.true('nothing is put before the error', not st.puts,
             detail=str(st.puts))


def arrays(env, P, types, ns, ld):
    """Vectors that are numpy arrays held in memory, of different types."""
    nb = len(types)
    data = []
    for i, t in enumerate(types):
        data.append(env.array([env.ireal('x%d%d' % (i, k), -9, 9) if t == 'i'
                               else env.scal('x%d%d' % (i, k), t)
                               for k in range(2)], t))
    A = coeffs(env, nb, ns, ld)
    puts = []

    def go(rank, m):
        class H(m.vectors.VecHandleInMemory):
            def put(self, vec):
                puts.append((rank, self.j, vec))
                m.vectors.VecHandleInMemory.put(self, vec)
        b = [m.vectors.VecHandleInMemory(d.copy()) for d in data]
        s = [H() for j in range(ns)]
        for j in range(ns):
            s[j].j = j
        m.vectorspace.VectorSpaceHandles(
            max_vecs_per_node=env.int('limit', 1), verbosity=0).lin_combine(
                s, b, env.array(A, ld))
        return [(h.j, h.vec) for h in s if h.vec is not None], \
            [h.vec for h in b]
    res = hh.run_ranks(env, P, go)
    got = {}
    for s, b in res:
        for j, v in s:
            got.setdefault(j, []).append(v)
        for i in range(nb):
            env.eq('basis vectors are unchanged', b[i], data[i])
    env.true('every output handle receives exactly one vector',
             sorted(j for _, j, _ in puts) == list(range(ns)))
    for j, vs in got.items():
        for v in vs:
            want = [sum(data[i][k] * A[i][j] for i in range(nb))
                    for k in range(2)]
            env.eq('output is the sum of basis vector times coefficient', v,
                   want)


def scenarios(tier):
    out = []
    for P in (1, 2, 3, 4):
        top = 2 * P + 2 if tier == 'quick' else 3 * P + 2
        sizes = {(1, 8), (2, 9), (8, 1), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (1, 2 * P + 1),
                 (2 * P + 1, 1), (P + 1, 2 * P + 1), (top, top),
                 (2 * P + 1, P)}
        if tier != 'quick':
            sizes |= {(a, b) for a in range(1, top + 1)
                      for b in range(1, top + 1)}
        for q, (nb, ns) in enumerate(sorted(sizes)):
            for ld in (['f', 'c', 'i'] if tier != 'quick' else
                       ['fc'[q % 2]]):
                out.append((lincomb, dict(P=P, nodes=1, nb=nb, ns=ns, ld=ld)))
            out.append((lincomb, dict(P=P, nodes=P, nb=nb, ns=ns, ld='i')))
        for cols, ncol in (([1], 2), ([0, 2], 3), ([2, 0, 1], 3), ([1, 1], 2),
                           ([-1, 0], 3), ([3, 2, 1, 0], 4)):
            for k, cf in enumerate(('list', 'array')):
                out.append((lincomb, dict(P=P, nodes=1, nb=3, ns=len(cols),
                                          ld='fc'[k], cols=cols, ncol=ncol,
                                          colform=cf)))
        out.append((lincomb, dict(P=P, nodes=1, nb=1, ns=2, ld='c',
                                  cols=[2, 0], ncol=3)))
        out.append((lincomb, dict(P=P, nodes=1, nb=1, ns=3, ld='f',
                                  form='1d')))
        out.append((lincomb, dict(P=P, nodes=1, nb=3, ns=1, ld='c',
                                  form='1d')))
        out.append((lincomb, dict(P=P, nodes=1, nb=1, ns=1, ld='c',
                                  form='1d', single=True)))
        out.append((lincomb, dict(P=P, nodes=1, nb=1, ns=2, ld='f', cols=[1, 0],
                                  ncol=2, form='1d')))
        out.append((lincomb, dict(P=P, nodes=1, nb=2, ns=1, ld='f', cols=[0],
                                  ncol=1, form='1d')))
        out.append((lincomb, dict(P=P, nodes=1, nb=2, ns=1, ld='f', cols=[1],
                                  ncol=2, colform='int')))
        out.append((lincomb, dict(P=P, nodes=1, nb=3, ns=2, ld='f',
                                  form='list')))
        out.append((lincomb, dict(P=P, nodes=1, nb=2, ns=1, ld='c',
                                  single=True)))
        out.append((lincomb, dict(P=P, nodes=1, nb=3, ns=4, ld='c',
                                  limit=None, verbosity=1)))
        for a in (dict(nb=2, ns=2, rows=3, ncol=2),
                  dict(nb=3, ns=2, rows=2, ncol=2),
                  dict(nb=2, ns=2, rows=2, ncol=3),
                  dict(nb=2, ns=3, rows=2, ncol=2),
                  dict(nb=2, ns=2, rows=2, ncol=3, cols=[1]),
                  dict(nb=2, ns=2, rows=2, ncol=3, cols=[0, 1, 2]),
                  dict(nb=1, ns=2, rows=3, ncol=1, form='1d'),
                  dict(nb=2, ns=2, rows=2, ncol=1, form='1d'),
                  dict(nb=3, ns=1, rows=2, ncol=1, form='1d')):
            out.append((mismatch, dict(P=P, **a)))
    for P in (1, 2, 3):
        for types in (['f', 'f'], ['i', 'f', 'c'], ['c', 'i'], ['f', 'c', 'f'],
                      ['i', 'i']):
            for ld in 'fc':
                out.append((arrays, dict(P=P, types=types, ns=2, ld=ld)))
    for P, nodes, nb, ns in ((5, 2, 5, 6), (5, 1, 11, 3), (6, 4, 7, 13),
                             (7, 1, 3, 8), (8, 3, 9, 8)):
        out.append((lincomb, dict(P=P, nodes=nodes, nb=nb, ns=ns, ld='c')))
    out.append((lincomb, dict(P=4, nodes=3, nb=5, ns=9, ld='c')))
    return out
