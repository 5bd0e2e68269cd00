"""C06 reductions over workers."""
import numpy as np
from .common import REALS, NUMPY, MPI

BOUNDS = ('1..8 workers, every root, sums of scalars/arrays/lists, products '
          'of arbitrary 2x2 matrices and composition of affine maps '
          '(non-commutative), max/min, max/min with location up to 4 workers '
          '(thorough: 5), every real contribution')
OUTSIDE = 'more than 8 workers; other operations'
ASSUMPTIONS = [REALS, NUMPY, MPI, 'operations are associative']


def _mat(env, r):
    return env.array([[env.real('m%d%d%d' % (r, i, j)) for j in range(2)]
                      for i in range(2)], 'f')


def contribs(env, P, kind):
    """(contributions, op name or function, reference fold)."""
    if kind == 'sum':
        return [env.real('x%d' % r) for r in range(P)], None, \
            lambda a, b: a + b
    if kind == 'csum':
        return [env.cplx('x%d' % r) for r in range(P)], 'SUM', \
            lambda a, b: a + b
    if kind == 'arraysum':
        return [_mat(env, r) for r in range(P)], None, lambda a, b: a + b
    if kind == 'listsum':
        return [[env.real('x%d' % r), r] for r in range(P)], None, \
            lambda a, b: a + b
    if kind == 'matmul':
        return [_mat(env, r) for r in range(P)], \
            lambda a, b: np.dot(a, b), lambda a, b: np.dot(a, b)
    if kind == 'affine':
        f = lambda a, b: [a[0] * b[0], a[0] * b[1] + a[1]]
        return [[env.real('a%d' % r), env.real('b%d' % r)]
                for r in range(P)], f, f
    if kind == 'prod':
        return [env.real('x%d' % r) for r in range(P)], 'PROD', \
            lambda a, b: a * b
    raise ValueError(kind)


def fold(f, xs):
    a = xs[0]
    for x in xs[1:]:
        a = f(a, x)
    return a


def reduction(env, P, what, kind, root=0):
    xs, op, f = contribs(env, P, kind)

    def go(rank, m):
        kw = {}
        if op is not None:
            kw['op'] = getattr(m.parallel.MPI, op) if isinstance(op, str) \
                else op
        if what == 'reduce':
            kw['root'] = root
        cc = m.parallel.custom_comm
        a = getattr(cc, what)(xs[rank], **kw)
        b = getattr(cc, what)(xs[rank], **kw)
        return a, b
    res = env.ranks(P, go)
    for n in (0, 1):
        for r in range(P):
            got = res[r][n]
            if what == 'reduce' and r != root:
                env.true('other workers get nothing', got is None)
                continue
            if what == 'exscan' and r == 0:
                env.true('the first worker of an exclusive scan gets nothing',
                         got is None)
                continue
            sub = {'reduce': xs, 'allreduce': xs, 'scan': xs[:r + 1],
                   'exscan': xs[:r]}[what]
            env.true('the worker gets a result', got is not None)
            if got is not None:
                env.eq('contributions combined in worker order, once each',
                       got, fold(f, sub))


def location(env, P, what, op, root=0):
    xs = [env.real('x%d' % r, -5, 5) for r in range(P)]

    def go(rank, m):
        kw = dict(op=getattr(m.parallel.MPI, op))
        if what == 'reduce':
            kw['root'] = root
        return getattr(m.parallel.custom_comm, what)(xs[rank], **kw)
    res = env.ranks(P, go)
    for r in range(P):
        got = res[r]
        if (what == 'reduce' and r != root) or (what == 'exscan' and r == 0):
            env.true('no result', got is None)
            continue
        sub = {'reduce': range(P), 'allreduce': range(P),
               'scan': range(r + 1), 'exscan': range(r)}[what]
        env.true('a value is reported', got is not None)
        if got is None:
            continue
        if op.endswith('LOC'):
            v, w = got
            env.true('the reported worker contributed', w in list(sub))
            env.eq('the reported worker has the reported value', v,
                   xs[int(w)])
            for k in sub:
                env.true('smallest worker among equal values',
                         (xs[k] < v) | (xs[k] > v) if k < int(w) else True)
        else:
            v = got
            c = False
            for k in sub:
                c = c | (v == xs[k])
            env.true('the result is one of the contributions', c)
        for k in sub:
            env.true('the result is extremal',
                     v >= xs[k] if op.startswith('MAX') else v <= xs[k])


def scenarios(tier):
    out = []
    for P in range(1, 9):
        for what in ('reduce', 'allreduce', 'scan', 'exscan'):
            kinds = ['sum', 'affine', 'matmul'] if P <= 6 or \
                tier != 'quick' else ['sum', 'affine']
            if P <= 5:
                kinds += ['arraysum', 'listsum', 'csum', 'prod']
            for k in kinds:
                roots = range(P) if what == 'reduce' and k in (
                    'affine', 'matmul') else [0]
                for root in roots:
                    out.append((reduction, dict(P=P, what=what, kind=k,
                                                root=root)))
    for P in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for what in ('reduce', 'allreduce', 'scan', 'exscan'):
            for op in ('MAXLOC', 'MINLOC', 'MAX', 'MIN'):
                if P == 4 and op in ('MAX', 'MIN'):
                    continue
                out.append((location, dict(P=P, what=what, op=op,
                                           root=P - 1)))
    return out
