"""C09 results do not depend on clocks, verbosity or progress messages."""
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('1..3 workers, up to 3 vectors: every clock reading an independent '
          'arbitrary real number on every worker (standing still, jumping, '
          'backwards); 1..4 workers, up to 6 (symmetric arrays: 10) vectors: a message due at every '
          'chance, or once at any moment on any worker; arbitrary real print interval, verbosity 0, 1 and 2, '
          'specified and default memory limits')
OUTSIDE = ('more workers or vectors; the text of progress messages; clock '
           'readings that are not finite')
ASSUMPTIONS = [REALS, NUMPY, MPI]


def _run(env, P, op, n1, n2, limit, verbosity, clock, interval, table, A,
         who=0):
    rk = ['r%d' % i for i in range(n1)]
    ck = ['c%d' % i for i in range(n2)]
    sk = ['s%d' % i for i in range(n2)]
    st = hh.setup(env, P, rk + ck)
    printed = {}

    def go(rank, m):
        n = [0]

        def hook():
            n[0] += 1
            if clock == 'every':
                return 10. * n[0]
            if clock == 'once':
                # one progress message is due, after any reading of any
                # worker
                return 10. if rank == who and n[0] > env.int(
                    'when', 0, 12 * max(n1, n2)) else 0.
            if clock:
                return env.real('t%d_%d' % (rank, n[0]))
            return 0.
        m.clock.hook = hook
        vs = m.vectorspace.VectorSpaceHandles(
            hh.IP(table), max_vecs_per_node=limit, verbosity=verbosity,
            print_interval=interval)
        r = None
        if op == 'inner':
            r = vs.compute_inner_product_array(st.handles(rk, rank),
                                               st.handles(ck, rank))
        elif op == 'symm':
            r = vs.compute_symm_inner_product_array(st.handles(rk, rank))
        elif op == 'sanity':
            vs.sanity_check(st.handle(rk[0], rank))
        else:
            vs.lin_combine(st.handles(sk, rank), st.handles(rk, rank), A)
        printed[rank] = list(m.printed)
        return r
    res = hh.run_ranks(env, P, go)
    ev = [[e[:3] if e[0] == 'isend' else e[:1] if e[0].startswith('wait')
           else e for e in es] for es in env.world.events]
    return res, ev, st, printed


def clocks(env, P, op, n1, n2, limit=3, verbosity=0, clock=True, who=0):
    rk = ['r%d' % i for i in range(n1)]
    ck = ['c%d' % i for i in range(n2)]
    t = {}
    ks = rk if op == 'symm' else rk + ck
    for i, k in enumerate(ks):
        for l in ks[i:]:
            t[k, l] = env.real('g_%s_%s' % (k, l))
            if clock is not True:
                env.assume(t[k, l] != 0)
            t[l, k] = t[k, l]
    A = env.array([[env.real('a%d_%d' % (i, j)) for j in range(n2)]
                   for i in range(n1)], 'f')
    itv = env.real('interval') if clock is True else 1.
    # reference: silent, clock standing still, never due for a message
    r0, e0, s0, p0 = _run(env, P, op, n1, n2, limit, 0, False, 1e9, t, A)
    r1, e1, s1, p1 = _run(env, P, op, n1, n2, limit, verbosity, clock, itv,
                          t, A, who)
    for a, b in zip(r0, r1):
        if a is None:
            env.true('same result', b is None)
        else:
            env.eq('same result', a, b)
    env.true('same puts', s0.puts == s1.puts)
    for k in s0.val:
        env.true('same values put', set(s0.val[k]) == set(s1.val.get(k, {})))
        for b in s0.val[k]:
            env.eq('same values put', s0.val[k][b], s1.val[k][b])
    env.true('same messages between workers', e0 == e1)
    for r in range(P):
        env.true('nothing is printed with verbosity zero', not p0[r])
        if verbosity == 0:
            env.true('nothing is printed with verbosity zero', not p1[r],
                     detail=str(p1[r]))
        if r:
            env.true('only the first worker prints', not p1[r])


def scenarios(tier):
    out = []
    sizes = {('inner', 1): (2, 2), ('inner', 2): (2, 2), ('inner', 3): (1, 2),
             ('symm', 1): (3, 0), ('symm', 2): (2, 0), ('symm', 3): (2, 0),
             ('lincomb', 1): (2, 3), ('lincomb', 2): (2, 2),
             ('lincomb', 3): (2, 2)}
    big = {('inner', 1): (3, 4), ('inner', 2): (3, 2), ('inner', 3): (3, 3),
           ('symm', 1): (5, 0), ('symm', 2): (5, 0), ('symm', 3): (4, 0),
           ('lincomb', 1): (3, 4), ('lincomb', 2): (3, 3),
           ('lincomb', 3): (3, 2)}
    for (op, P), (a, b) in (sizes if tier == 'quick' else big).items():
        for v in (0, 1) if tier == 'quick' else (0, 1, 2):
            lims = [3] if v == 0 else [None] if tier == 'quick' else [3, None]
            for l in lims:
                out.append((clocks, dict(P=P, op=op, n1=a, n2=b, limit=l,
                                         verbosity=v)))
    for op in ('inner', 'symm', 'lincomb'):
        for P in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for v in (0, 2):
                n = 2 * P + 2 if op == 'symm' else P + 2
                m = 0 if op == 'symm' else P + 1
                lims = ((3 if P == 1 else 3 * P,) if tier == 'quick' else
                        (2 * P, 3 * P, None))
                for lim in lims:
                    out.append((clocks, dict(P=P, op=op, n1=n, n2=m,
                                             limit=lim, verbosity=v,
                                             clock='every')))
                    if v and P < 4:
                        for who in range(P):
                            out.append((clocks, dict(
                                P=P, op=op, n1=n, n2=m, limit=lim,
                                verbosity=v, clock='once', who=who)))
    # workers with one kind of tasks only
    for P in (2, 3):
        for op, n1, n2 in (('lincomb', 1, P + 1), ('lincomb', P + 1, 1),
                           ('inner', 1, P + 1), ('inner', P + 1, 1),
                           ('symm', 1, 0), ('lincomb', 1, 1)):
            out.append((clocks, dict(P=P, op=op, n1=n1, n2=n2, limit=None,
                                     verbosity=2, clock='every')))
    for v in (0, 1, 2):
        out.append((clocks, dict(P=1, op='inner', n1=1, n2=1, limit=1,
                                 verbosity=v)))
        out.append((clocks, dict(P=2, op='lincomb', n1=1, n2=1, limit=1,
                                 verbosity=v)))
    return out
