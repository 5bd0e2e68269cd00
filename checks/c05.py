"""C05 no deadlock, no lost or mixed-up message."""
from inspect import signature
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('2..4 workers (thorough: 2..5) on 1..4 nodes, up to 2 x workers + 2 '
          'vectors, every integer memory limit >= 1 (symbolic), every '
          'interleaving and every choice of buffering of sends (symbolic), '
          'every order of matching for receives from any worker')
OUTSIDE = 'more workers; failures of workers; errors on some workers only'
ASSUMPTIONS = [REALS, MPI,
               'all workers are given the same calls with the same arguments']


def _table(env, rk, ck):
    t = {}
    for i, k in enumerate(rk):
        for j, l in enumerate(ck):
            t[k, l] = env.real('g_%d_%d' % (i, j))
            t[l, k] = t[k, l]
    return t


def _finish(env):
    env.schedules('parallel operation')


def inner(env, P, nodes, nr, nc):
    rk = ['r%d' % i for i in range(nr)]
    ck = ['c%d' % j for j in range(nc)]
    st = hh.setup(env, P, rk + ck)
    ip = hh.IP(_table(env, rk, ck))
    lim = env.int('limit', 1)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(ip, max_vecs_per_node=lim,
                                              verbosity=0)
        a = vs.compute_inner_product_array(st.handles(rk, rank),
                                           st.handles(ck, rank))
        b = vs.compute_inner_product_array(st.handles(rk[:1], rank),
                                           st.handles(ck, rank))
        return a, b
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    for r in res[1:]:
        env.eq('same result on every worker', list(r), list(res[0]))
    _finish(env)


def symm(env, P, nodes, n):
    rk = ['r%d' % i for i in range(n)]
    st = hh.setup(env, P, rk)
    t = {}
    for i in range(n):
        for j in range(i, n):
            x = env.real('g_%d_%d' % (i, j))
            t[rk[i], rk[j]] = t[rk[j], rk[i]] = x
    ip = hh.IP(t)
    lim = env.int('limit', 1)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(ip, max_vecs_per_node=lim,
                                              verbosity=0)
        return vs.compute_symm_inner_product_array(st.handles(rk, rank))
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    for r in res[1:]:
        env.eq('same result on every worker', r, res[0])
    _finish(env)


def lincomb(env, P, nodes, nb, ns):
    bk = ['b%d' % i for i in range(nb)]
    sk = ['s%d' % i for i in range(ns)]
    st = hh.setup(env, P, bk)
    A = [[env.real('a%d_%d' % (i, j)) for j in range(ns)] for i in range(nb)]
    lim = env.int('limit', 1)

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(max_vecs_per_node=lim,
                                              verbosity=0)
        vs.lin_combine(st.handles(sk, rank), st.handles(bk, rank),
                       env.array(A, 'f'))
        vs.lin_combine(st.handles(sk[:1], rank), st.handles(bk, rank),
                       env.array(A, 'f'), coeff_array_col_indices=[ns - 1])
    hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    env.true('every output is put', {k for _, k in st.puts} == set(sk))
    _finish(env)


def derivs(env, P, n):
    vk = ['x%d' % i for i in range(n)]
    ak = ['y%d' % i for i in range(n)]
    dk = ['d%d' % i for i in range(n)]
    st = hh.setup(env, P, vk + ak)
    dt = env.pos('dt')

    def go(rank, m):
        m.ltigalerkinproj.compute_derivs_handles(
            st.handles(vk, rank), st.handles(ak, rank), st.handles(dk, rank),
            dt)
    hh.run_ranks(env, P, go)
    env.true('every output is put', {k for _, k in st.puts} == set(dk))
    _finish(env)


def reductions(env, P, what, root=0):
    xs = [env.real('x%d' % i) for i in range(P)]

    def go(rank, m):
        cc = m.parallel.custom_comm
        out = []
        for _ in range(2):
            if what == 'reduce':
                out.append(cc.reduce(xs[rank], root=root))
            else:
                out.append(getattr(cc, what)(xs[rank]))
        return out
    hh.run_ranks(env, P, go)
    _finish(env)


def wrappers(env, P):
    x = env.real('x')

    def go(rank, m):
        p = m.parallel
        a = p.call_and_bcast(lambda: x)
        p.barrier()
        b = p.bcast([x, rank])
        p.call_from_rank_zero(lambda: x)
        p.print_from_rank_zero('x')
        return a, b, p.call_and_bcast(lambda v: v, x)
    hh.run_ranks(env, P, go)
    _finish(env)


def pipeline(env, P, nodes, what, n=2, lim='sym', verbosity=0, twice=False,
             **kw):
    """A whole decomposition: computations, modes, coefficients, arrays put
    and got back."""
    from . import c31
    if twice:
        env.deterministic()
    D = c31.KIND[what](env, '', limits=(None,), **dict(kw, n=n) if
                       what != 'BPOD' else kw)
    st = hh.setup(env, P, D.keys)
    ip = hh.IP(D.tab)
    lim = env.int('limit', 1) if lim == 'sym' else lim
    k = D.k if hasattr(D, 'k') else kw.get('r') or n
    idx = list(range(k))[::-1]
    files = {}

    def put(a, dest):
        files[dest] = a

    def go(rank, m):
        d = {'POD': m.pod.PODHandles, 'BPOD': m.bpod.BPODHandles,
             'DMD': m.dmd.DMDHandles, 'TLS': m.dmd.TLSqrDMDHandles}[what](
                 inner_product=ip, max_vecs_per_node=lim, put_array=put,
                 get_array=lambda s: files[s], verbosity=verbosity)
        for _ in range(2 if twice else 1):
            D.run(d, st, rank)
            for o in D.OPS:
                if o != 'again':
                    D.op(d, o, st, rank,
                         ['%s%d' % (o, i) for i in idx], idx, None, False)
        done = set()
        for f in sorted(x for x in dir(d) if x.startswith('put_') and
                        x != 'put_array'):
            for name in (f, 'get_' + f[4:]):
                g = getattr(d, name, None)
                if g is None:
                    continue
                n = len([x for x in signature(g).parameters.values()
                         if x.default is x.empty and x.kind in
                         (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD)])
                dests = ['%s%d' % (f[4:], i) for i in range(n)]
                if name != f and not all(x in done for x in dests):
                    continue
                try:
                    g(*dests)
                    if name == f:
                        done.update(dests)
                except NotImplementedError:     # not available in the class
                    pass
        if not (twice and what == 'BPOD'):
            D.op(d, D.OPS[-1], st, rank, ['z%d' % i for i in idx], idx, None,
                 True)
        return True
    hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    _finish(env)


def galerkin(env, P, nodes, k, p, orth):
    bk = ['p%d' % i for i in range(k)]
    vk = ['a%d' % i for i in range(k)] + ['b%d' % i for i in range(p)]
    tab, G = hh.herm_table(env, bk, 'f')
    for x in bk:
        for y in vk:
            tab[x, y] = tab[y, x] = env.real('g_%s_%s' % (x, y))
    for x, y in sorted(tab):
        env.assume(tab[x, y] != 0)
    if not orth:
        from .c32 import invertible
        invertible(env, env.array([[tab[x, y] for y in bk] for x in bk], 'f'))
    C = env.tmat('c', 1, k, 'f')
    lim = env.int('limit', 1)
    st = hh.setup(env, P, bk + vk)
    files = {}

    def put(a, dest):
        files[dest] = a

    def go(rank, m):
        o = m.ltigalerkinproj.LTIGalerkinProjectionHandles(
            hh.IP(tab), st.handles(bk, rank), verbosity=0,
            is_basis_orthonormal=orth, max_vecs_per_node=lim, put_array=put)
        o.compute_model(st.handles(vk[:k], rank), st.handles(vk[k:], rank),
                        [C[:, j] for j in range(k)])
        o.put_model('A', 'B', 'C')
    hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    _finish(env)


def checked(env, P):
    """The check of handles and the tests of equality."""
    st = hh.setup(env, P, ['a'])
    t = env.pos('t')
    ip = hh.IP({('a', 'a'): t ** 2})

    def go(rank, m):
        vs = m.vectorspace.VectorSpaceHandles(ip, verbosity=1,
                                              print_interval=0)
        vs.print_msg('x')
        return vs == vs
    hh.run_ranks(env, P, go)
    _finish(env)


def scenarios(tier):
    out = []
    for P in (2, 3) if tier == 'quick' else (2, 3, 4):
        for what, kw in (('POD', dict(n=2)), ('BPOD', dict(T1=2, T2=1)),
                         ('DMD', dict(n=2)), ('DMD', dict(n=1, seq=True)),
                         ('TLS', dict(n=2, seq=True)), ('TLS', dict(n=1))):
            out.append((pipeline, dict(P=P, nodes=1 + P % 2, what=what,
                                       **kw)))
        for orth in (True, False):
            out.append((galerkin, dict(P=P, nodes=1, k=1 if orth else 2, p=1,
                                       orth=orth)))
        out.append((checked, dict(P=P)))
    for what in ('POD', 'DMD'):
        out.append((pipeline, dict(P=2, nodes=1, what=what, n=2, lim=None,
                                   verbosity=1, twice=True)))
    for P in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        top = 2 * P + 2
        for nr, nc in {(1, 1), (P - 1, P - 1), (P + 1, P), (1, top),
                       (2 * P + 1, top), (P, P)}:
            out.append((inner, dict(P=P, nodes=1, nr=nr, nc=nc)))
        out.append((inner, dict(P=P, nodes=P, nr=P, nc=P + 1)))
        for n in range(1, top + 1 if tier == 'quick' else 3 * P + 2):
            out.append((symm, dict(P=P, nodes=1 + n % 2, n=n)))
        for nb, ns in {(1, 1), (P + 1, P - 1), (P - 1, P + 1), (1, top),
                       (top, top), (top, 1)}:
            out.append((lincomb, dict(P=P, nodes=1, nb=nb, ns=ns)))
        out.append((lincomb, dict(P=P, nodes=P, nb=P, ns=P + 1)))
        for n in (1, P - 1, P, P + 1, top):
            out.append((derivs, dict(P=P, n=n)))
        for root in range(P):
            out.append((reductions, dict(P=P, what='reduce', root=root)))
        for w in ('allreduce', 'scan', 'exscan'):
            out.append((reductions, dict(P=P, what=w)))
        out.append((wrappers, dict(P=P)))
    for P in (5, 6, 7, 8):
        for w in ('allreduce', 'scan', 'exscan'):
            out.append((reductions, dict(P=P, what=w)))
        out.append((reductions, dict(P=P, what='reduce', root=P - 1)))
    return out
