"""C07 broadcasting wrappers and communicator queries."""
import itertools
from .common import REALS, NUMPY, MPI

BOUNDS = ('1..5 workers, every assignment of workers to up to 4 host names and host names of up to 71 characters that are easily confused, '
          'arbitrary real arguments differing between workers; with and '
          'without mpi4py')
OUTSIDE = 'more workers; functions that raise'
ASSUMPTIONS = [REALS, MPI]


def wrappers(env, P):
    a = [env.real('a%d' % r) for r in range(P)]
    b = [env.real('b%d' % r) for r in range(P)]
    calls = []

    def go(rank, m):
        p = m.parallel

        def f(x, y=None, **kw):
            calls.append(('f', rank))
            return [x * 2 + (1 if y is None else y), kw.get('z', 0)]

        def g():
            calls.append(('g', rank))
            return None

        def h(*xs, **kw):
            calls.append(('h', rank))
            return dict(n=len(xs), xs=list(xs), kw=dict(kw))
        out = dict(
            f=p.call_and_bcast(f, a[rank], y=b[rank], z=a[rank]),
            f2=p.call_and_bcast(f, b[rank]),
            g=p.call_and_bcast(g),
            h=p.call_and_bcast(h, a[rank], b[rank], rank, k=rank),
            zf=p.call_from_rank_zero(f, a[rank], y=b[rank]),
            v=p.bcast(a[rank]),
            vl=p.bcast([a[rank], rank]),
            vn=p.bcast(None if rank == 0 else 1),
            vf=p.bcast(rank == 0))
        return out
    res = env.ranks(P, go)
    for r in range(P):
        o = res[r]
        env.eq('wrapper returns the first worker\'s result', o['f'],
               [a[0] * 2 + b[0], a[0]])
        env.eq('positional arguments', o['f2'], [b[0] * 2 + 1, 0])
        env.true('a None result is returned', o['g'] is None)
        env.true('all arguments are those of the first worker',
                 o['h'] is not None and o['h']['n'] == 3 and
                 o['h']['kw'] == {'k': 0})
        env.eq('all positional arguments', o['h']['xs'], [a[0], b[0], 0])
        if r == 0:
            env.eq('non-broadcasting wrapper returns the result',
                   o['zf'], [a[0] * 2 + b[0], 0])
        else:
            env.true('non-broadcasting wrapper returns nothing elsewhere',
                     o['zf'] is None)
        env.eq('broadcast value', o['v'], a[0])
        env.eq('broadcast list', o['vl'], [a[0], 0])
        env.true('broadcast None', o['vn'] is None)
        env.true('broadcast False/True', o['vf'] is True)
    env.true('functions are called exactly once, on the first worker',
             sorted(calls) == sorted([('f', 0)] * 3 + [('g', 0), ('h', 0)]),
             detail=str(calls))


def queries(env, P, hosts):
    insts = {}

    def go(rank, m):
        insts[rank] = m
        p = m.parallel
        p.print_from_rank_zero('hello')
        p.barrier()
        return dict(
            rank=p.get_rank(), n=p.get_num_procs(),
            w=p.get_num_MPI_workers(), nodes=p.get_num_nodes(),
            dist=p.is_distributed(), zero=p.is_rank_zero(),
            host=p.get_hostname(), id=p.get_node_ID())
    res = env.ranks(P, go, hosts=list(hosts))
    for r, o in enumerate(res):
        env.true('rank', o['rank'] == r)
        env.true('number of workers', o['n'] == P and o['w'] == P)
        env.true('number of nodes', o['nodes'] == len(set(hosts)),
                 detail=str((o['nodes'], hosts)))
        env.true('distributed status', bool(o['dist']) == (P > 1))
        env.true('first-worker status', bool(o['zero']) == (r == 0))
        env.true('host name', o['host'] == hosts[r])
        for s in range(P):
            env.true('node IDs identify nodes',
                     (o['id'] == res[s]['id']) == (hosts[r] == hosts[s]))
        out = [x for x in insts[r].printed if 'hello' in x[1]]
        env.true('only the first worker prints',
                 len(out) == (1 if r == 0 else 0))


def no_mpi(env):
    i = env._new_instance(None, None, 'node0')
    i.over['mpi4py'] = None
    i.over.pop('mpi4py.MPI', None)
    p = i.parallel
    x = env.real('x')
    env.true('one worker', p.get_num_procs() == 1 and p.get_rank() == 0 and
             p.get_num_MPI_workers() == 1 and p.get_num_nodes() == 1)
    env.true('not distributed', not p.is_distributed() and p.is_rank_zero())
    env.eq('bcast', p.bcast(x), x)
    env.eq('call_and_bcast', p.call_and_bcast(lambda v, w=0: v + w, x, w=x),
           x * 2)
    env.eq('call_from_rank_zero',
           p.call_from_rank_zero(lambda v, w=0: v + w, x, w=x), x * 2)
    p.barrier()
    env.true('assignments', p.find_assignments([1, 2, 3]) == [[1, 2, 3]])


def scenarios(tier):
    out = []
    for P in (1, 2, 3, 4, 5):
        out.append((wrappers, dict(P=P)))
        for hosts in itertools.product('abcd', repeat=P):
            # canonical assignments only (first occurrences in order)
            seen = []
            for h in hosts:
                if h not in seen:
                    seen.append(h)
            if seen != list('abcd')[:len(seen)]:
                continue
            out.append((queries, dict(P=P, hosts=[
                {'a': 'node1', 'b': 'node10', 'c': 'Node1',
                 'd': 'node1.x'}[h] for h in hosts])))
    # names that are easily taken for one another
    L = 'a' * 70
    for hosts in (['node12', 'node21', 'node12', 'node21'],
                  ['a-compute.cluster.example.org', 'b-compute.cluster.'
                   'example.org'], ['a' + L, 'b' + L, 'a' + L],
                  [L + 'a', L + 'b'], [L, L + 'a', 'a'],
                  ['node1', 'node01', 'node001', 'node1'],
                  ['n1', 'n2', 'n1.x', 'n2.x', 'n3'], ['a', 'aa', 'aaa'],
                  ['x.local', 'x.lan'], ['a1b', 'a2b'], ['ad', 'bc'],
                  ['aab', 'aba', 'baa'], ['0', '00'], ['node1', 'node-1'],
                  ['c', 'b', 'a', 'c'], ['b', 'a', 'a', 'b', 'a']):
        out.append((queries, dict(P=len(hosts), hosts=hosts)))
    out.append((no_mpi, {}))
    return out
