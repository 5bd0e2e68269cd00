"""C08 the number of vectors in memory respects the configured limit."""
from .common import REALS, NUMPY, MPI
from . import handles as hh
import gc

BOUNDS = ('1..4 workers on 1..4 nodes, up to 3 x workers + 2 vectors (1..2 '
          'workers: 13 x workers), every '
          'integer memory limit (symbolic, unbounded; zero and negative '
          'included) and the default')
OUTSIDE = ('more workers or vectors; vectors that the inner product or the '
           'vector operations themselves create and keep')
ASSUMPTIONS = [REALS, MPI,
               'a vector is in memory on a worker while the worker can still '
               'reach it (CPython reference counting)']
SLACK = {'inner': 2, 'symm': 2, 'lincomb': 4}


def share(env, limit, P, nodes):
    """max(3, floor(limit * nodes / P)) as a claim on the reported value."""
    return (limit * nodes) // P


def report(env, P, nodes):
    lim = env.int('limit', None)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(max_vecs_per_node=lim,
                                              verbosity=0)
        return vs.max_vecs_per_proc, vs.max_vecs_per_node
    res = env.ranks(P, go, hosts=hh.hosts_of(P, nodes))
    s = share(env, lim, P, nodes)
    for a, b in res:
        env.true('at least three vectors per worker', a >= 3)
        env.true('not less than the share of the limit', a >= s)
        env.true('not more than the share of the limit or three',
                 (a <= s) | (a <= 3) if not isinstance(a <= s, bool) or
                 not isinstance(a <= 3, bool) else (a <= s or a <= 3))
        env.true('the limit is never lowered', b >= lim)


def default(env, P, nodes):
    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(verbosity=0)
        return vs.max_vecs_per_proc, vs.max_vecs_per_node
    res = env.ranks(P, go, hosts=hh.hosts_of(P, nodes))
    for a, b in res:
        env.true('share of the default limit', a == max(3, b * nodes // P))


def memory(env, P, nodes, op, n1, n2):
    gc.collect()
    rk = ['r%d' % i for i in range(n1)]
    ck = ['c%d' % i for i in range(n2)]
    st = hh.setup(env, P, rk + ck)
    lim = env.int('limit', 1)
    x = env.real('x')

    class T(dict):
        def __missing__(self, k):
            return x
    ip = hh.IP(T(), None)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(ip, max_vecs_per_node=lim,
                                              verbosity=0)
        if op == 'inner':
            vs.compute_inner_product_array(st.handles(rk, rank),
                                           st.handles(ck, rank))
        elif op == 'symm':
            vs.compute_symm_inner_product_array(st.handles(rk, rank))
        else:
            vs.lin_combine(
                st.handles(['s%d' % i for i in range(n2)], rank),
                st.handles(rk, rank), env.array([[x] * n2] * n1, 'f'))
        return vs.max_vecs_per_proc, st.reg.peak[rank]
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    for r, (mx, peak) in enumerate(res):
        env.true('vectors alive on a worker at most its share plus '
                 'those in transit',
                 mx >= peak - SLACK[op], detail='peak %s' % peak)


def scenarios(tier):
    out = []
    for P in (1, 2, 3, 4):
        for nodes in range(1, P + 1):
            out.append((report, dict(P=P, nodes=nodes)))
            out.append((default, dict(P=P, nodes=nodes)))
        t = 3 * P + 2 if tier == 'quick' else 5 * P + 2
        for nodes in {1, P}:
            out.append((memory, dict(P=P, nodes=nodes, op='symm', n1=t,
                                     n2=0)))
            for a, b in ((t, t), (t, t - 1), (2, t), (t, 2), (P, t)):
                for op in ('inner', 'lincomb'):
                    out.append((memory, dict(P=P, nodes=nodes, op=op, n1=a,
                                             n2=b)))
    for P in (1, 2):
        t = 13 * P
        out.append((memory, dict(P=P, nodes=1, op='symm', n1=t, n2=0)))
        for op in ('inner', 'lincomb'):
            for a, b in ((t, 2), (2, t), (t, t - 1)):
                if tier == 'quick' and (a, b, P) == (t, t - 1, 2):
                    continue
                out.append((memory, dict(P=P, nodes=1, op=op, n1=a, n2=b)))
    return out
