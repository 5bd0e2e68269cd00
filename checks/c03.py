"""C03 symmetric inner product arrays from handles."""
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('1..4 workers on 1..4 nodes, up to 2 x workers + 2 vector handles '
          '(thorough: 4 x workers + 2), every integer memory limit >= 1 per '
          'node (symbolic, unbounded), arbitrary integer/real/complex '
          'conjugate-symmetric inner products (zeros included); 5..8 workers '
          'for up to 8 vectors (thorough: 13)')
OUTSIDE = 'more workers or handles; empty handle lists'
ASSUMPTIONS = [REALS, NUMPY, MPI]

PATTERNS = {
    'f': lambda a, b: 'f',
    'i': lambda a, b: 'i',
    'c': lambda a, b: 'c',
    # real norms, complex inner products between different vectors
    'fc': lambda a, b: 'f' if a == b else 'c',
    'ifc': lambda a, b: 'i' if a == b else 'fc'[(a + b) % 2],
}


def symm(env, P, nodes, n, pat, limit='sym', single=False, same=(),
         zero=(), verbosity=0):
    """``same``: pairs of equal vectors; ``zero``: orthogonal pairs."""
    keys = ['v%d' % i for i in range(n)]
    st = hh.setup(env, P, keys)
    tab, raw = {}, {}
    for i in range(n):
        for j in range(i, n):
            t = PATTERNS[pat](i, j)
            nm = 'g_%d_%d' % (i, j)
            if i == j:
                x = env.ireal(nm, -9, 9) if t == 'i' else env.real(nm)
            elif [i, j] in [list(z) for z in zero]:
                x = 0.
            elif t == 'c':
                x = env.cplx(nm)
            else:
                x = env.real(nm) if t == 'f' else env.ireal(nm, -9, 9)
            y = x.conjugate() if t == 'c' and i != j else x
            k, l = keys[i], keys[j]
            tab[k, l] = raw[k, l] = env.typed(x, t)
            tab[l, k] = raw[l, k] = env.typed(y, t)
    lst = list(keys)
    for i, j in same:
        lst[j] = lst[i]
    lim = env.int('limit', 1) if limit == 'sym' else limit

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(
            inner_product=hh.IP(tab, raw), max_vecs_per_node=lim,
            verbosity=verbosity)
        h = st.handles(lst, rank)
        return vs.compute_symm_inner_product_array(h[0] if single else h)
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    want = env.array([[tab[k, l] for l in lst] for k in lst])
    for r, a in enumerate(res):
        env.eq('entry (i, j) is <vector i, vector j> on every worker', a,
               want)
    env.true('nothing is put', not st.puts)


def scenarios(tier):
    out = []
    for P in (1, 2, 3, 4):
        top = 2 * P + 2 if tier == 'quick' else 4 * P + 2
        for n in range(1, top + 1):
            pats = ['c', 'fc'] if n % 2 else ['ifc', 'f', 'i']
            if tier != 'quick':
                pats = list(PATTERNS)
            for k, pat in enumerate(pats):
                for nodes in sorted({1, P}) if k == 0 else [1]:
                    out.append((symm, dict(P=P, nodes=nodes, n=n, pat=pat)))
        out.append((symm, dict(P=P, nodes=1, n=2 * P + 1, pat='c',
                               same=[[0, 2]], zero=[[0, 1], [1, 2]])))
        out.append((symm, dict(P=P, nodes=1, n=3, pat='fc',
                               limit=None, verbosity=1)))
    for P, nodes, n in ((5, 1, 5), (5, 2, 11), (6, 1, 6), (6, 4, 7),
                        (6, 1, 13), (7, 1, 8), (8, 3, 8), (8, 1, 9)):
        if tier != 'quick' or n < 7:
            out.append((symm, dict(P=P, nodes=nodes, n=n, pat='c')))
        elif n < 9:
            out.append((symm, dict(P=P, nodes=nodes, n=n, pat='f')))
    out.append((symm, dict(P=4, nodes=3, n=7, pat='c')))
    out.append((symm, dict(P=1, nodes=1, n=1, pat='c', single=True)))
    out.append((symm, dict(P=2, nodes=1, n=1, pat='c', single=True)))
    return out
