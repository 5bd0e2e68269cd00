"""C02 inner product arrays from handles."""
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('1..4 workers on 1..4 nodes, up to 10 row and 10 column handles '
          '(thorough: all numbers up to 3 x workers + 1), every integer memory limit >= 1 per node '
          '(symbolic, unbounded), arbitrary integer/real/complex inner '
          'products; 5..8 workers for five sizes')
OUTSIDE = 'more workers or handles; empty handle lists'
ASSUMPTIONS = [REALS, NUMPY, MPI]

PATTERNS = {
    'f': lambda a, b: 'f',
    'i': lambda a, b: 'i',
    'c': lambda a, b: 'c',
    # the type of the very first inner product does not fit the others
    'ifc': lambda a, b: 'ifc'[(a + b) % 3],
    'fc': lambda a, b: 'c' if (a * b) % 2 else 'f',
}


def array(env, P, nodes, nr, nc, pat, limit='sym', single=False,
          verbosity=0):
    rk = ['r%d' % i for i in range(nr)]
    ck = ['c%d' % j for j in range(nc)]
    st = hh.setup(env, P, rk + ck)
    raw, tab = {}, {}
    for i, k in enumerate(rk):
        for j, l in enumerate(ck):
            t = PATTERNS[pat](i, j)
            n = 'g_%d_%d' % (i, j)
            x = env.cplx(n) if t == 'c' else (
                env.real(n) if t == 'f' else env.ireal(n, -9, 9))
            tab[k, l] = raw[k, l] = env.typed(x, t)
            y = x.conjugate() if t == 'c' else x
            tab[l, k] = raw[l, k] = env.typed(y, t)
    lim = env.int('limit', 1) if limit == 'sym' else limit

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(
            inner_product=hh.IP(tab, raw), max_vecs_per_node=lim,
            verbosity=verbosity)
        r, c = st.handles(rk, rank), st.handles(ck, rank)
        if single:
            r = r[0] if nr == 1 else r
            c = c[0] if nc == 1 else c
        return vs.compute_inner_product_array(r, c)
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    want = [[tab[k, l] for l in ck] for k in rk]
    for r, a in enumerate(res):
        env.eq('entry (i, j) is <row i, column j> on every worker',
               a, env.array(want))
    env.true('nothing is put', not st.puts)


def scenarios(tier):
    out = []
    for P in (1, 2, 3, 4):
        sizes = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 3), (2, 6),
                 (P + 1, P), (2 * P + 1, 2 * P + 2), (2 * P + 2, 2 * P + 1)]
        if tier != 'quick':
            sizes += [(a, b) for a in range(1, 3 * P + 2)
                      for b in range(1, 3 * P + 2)]
        for nr, nc in sorted(set(sizes)):
            pats = ['c', 'ifc'] if (nr + nc) % 2 else ['fc', 'i', 'f']
            if tier != 'quick':
                pats = list(PATTERNS)
            for k, pat in enumerate(pats):
                for nodes in sorted({1, P}) if k == 0 else [1]:
                    out.append((array, dict(P=P, nodes=nodes, nr=nr, nc=nc,
                                            pat=pat)))
    for P, nodes, nr, nc in ((5, 2, 5, 6), (5, 5, 11, 3), (6, 4, 13, 7),
                             (7, 1, 3, 8), (8, 3, 9, 8)):
        out.append((array, dict(P=P, nodes=nodes, nr=nr, nc=nc, pat='c')))
    out.append((array, dict(P=4, nodes=3, nr=3, nc=5, pat='fc')))
    for P in (1, 3):
        out.append((array, dict(P=P, nodes=1, nr=3, nc=2, pat='c', limit=None,
                                verbosity=1)))
    for nr, nc in ((1, 1), (1, 2), (2, 1)):
        for P in (1, 2):
            out.append((array, dict(P=P, nodes=1, nr=nr, nc=nc, pat='c',
                                    single=True)))
    return out
