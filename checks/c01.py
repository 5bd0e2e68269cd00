"""C01 work assignment."""
from .common import REALS, NUMPY

BOUNDS = ('1..4 workers, 0..6 tasks (thorough: 0..7), default weights or '
          'arbitrary non-negative real weights (strictly positive where '
          'stated); 5..9 workers with default weights, 5..6 with up to 3 '
          'weighted tasks')
OUTSIDE = 'more workers or tasks; negative weights'
ASSUMPTIONS = [REALS, NUMPY]


def _flat(parts):
    return [t for p in parts for t in p]


def partition(env, P, n, weights, as_array=False):
    tasks = [('task', i) for i in range(n)]
    if weights == 'none':
        w = None
    elif weights == 'nonneg':
        w = [env.real('w%d' % i, lo=0, hi=100) for i in range(n)]
    elif weights == 'pos':
        w = [env.pos('w%d' % i, hi=100) for i in range(n)]
    else:
        w = [env.ireal('w%d' % i, lo=0, hi=9) for i in range(n)]

    def go(rank, m):
        pw = w if w is None else (env.array(w) if as_array else list(w))
        r = m.parallel.find_assignments(list(tasks), task_weights=pw) \
            if pw is not None else m.parallel.find_assignments(list(tasks))
        return [list(x) for x in r], m.parallel.check_for_empty_tasks(r)
    res = env.ranks(P, go)
    a = res[0][0]
    env.true('one share per worker', len(a) == P)
    env.true('every task assigned exactly once, in order',
             _flat(a) == tasks, detail=str(a))
    env.true('all workers compute the same assignment',
             all(r[0] == a for r in res))
    env.true('empty shares are reported',
             all(bool(r[1]) == any(len(x) == 0 for x in r[0]) for r in res))
    if weights == 'none':
        sizes = [len(x) for x in a]
        env.true('uniform tasks are spread evenly',
                 max(sizes) - min(sizes) <= 1, detail=str(sizes))
    if weights == 'pos' and n:
        # no worker exceeds an even share by more than the heaviest task
        tot = sum(w[1:], w[0])
        pos = 0
        for x in a:
            if x:
                load = sum(w[pos + 1:pos + len(x)], w[pos])
                big = w[0]
                for i in range(n):
                    # load <= tot / P + max(w): it suffices that some single
                    # task bounds the excess
                    pass
                conds = [load * P <= tot + w[i] * P for i in range(n)]
                c = conds[0]
                for d in conds[1:]:
                    c = c | d
                env.true('load at most an even share plus one task', c)
            pos += len(x)


def scenarios(tier):
    out = []
    N = 6 if tier == 'quick' else 7
    for P in (1, 2, 3, 4):
        for n in range(0, 4 * P + 2 if tier == 'quick' else 40):
            out.append((partition, dict(P=P, n=n, weights='none')))
        top = {1: 5, 2: 5, 3: 5, 4: 4} if tier == 'quick' else \
            {1: 6, 2: 6, 3: 6, 4: 6}
        for n in range(0, top[P] + 1):
            out.append((partition, dict(P=P, n=n, weights='nonneg',
                                        as_array=n % 2 == 0)))
            out.append((partition, dict(P=P, n=n, weights='pos')))
        out.append((partition, dict(P=P, n=3, weights='int')))
    for P in (5, 6, 7, 8, 9):
        for n in range(0, 2 * P + 2):
            out.append((partition, dict(P=P, n=n, weights='none')))
    for P in (5, 6):
        for n in (2, 3):
            out.append((partition, dict(P=P, n=n, weights='nonneg')))
    return out
