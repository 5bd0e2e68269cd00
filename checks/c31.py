"""C31 reusing an object gives the same results as a fresh one."""
import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI
from .linear import Hc, dot, rebuilt
from . import handles as hh
from .c23 import gram, same_everywhere
from .c25 import blocks
from .c27 import problem
from .c29 import Problem
from .dmdlib import low_map

BOUNDS = ('one or two earlier computations (on other data of the same or a '
          'different size or type, through other handles or the same ones, sequential or not, other truncations, arrays given '
          'or read back, requests in between), then one computation on new '
          'data of 1..2 (earlier: 1..3) vectors, followed by every sequence '
          'of two requests (thorough: three) for modes, coefficients, '
          'spectra or the decomposition again; 1..2 workers; ERA: any three '
          'computations of given sizes; Galerkin projection: any two models')
OUTSIDE = ('longer histories; more vectors or workers; equal non-zero '
           'eigenvalues; rounding')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI,
               'LAPACK returns the same decomposition of equal arrays',
               'in the encoding the inner products and the decompositions '
               'are free numbers (a superset of the real cases)']


class Pod(object):
    OPS = ('modes', 'coeffs', 'again')

    def __init__(self, env, tag, n=2, r=None, ld='f', limits=()):
        r = n if r is None else r
        C, R, s, V = gram(env, n, r, ld, tag)
        self.keys = ['x%s%d' % (tag, i) for i in range(n)]
        self.tab = hh.table(self.keys, self.keys, C)
        self.arrays = dict(correlation_array=C)
        self.k = r
        self.decomp = [r, (n, r)]

    @staticmethod
    def new(m, **kw):
        return m.pod.PODHandles(verbosity=0, **kw)

    def run(self, d, st, rank, limit=None, how='decomp'):
        if how == 'decomp':
            return list(d.compute_decomp(st.handles(self.keys, rank)))
        if how == 'existing':
            for a, v in self.arrays.items():
                setattr(d, a, v)
        d.compute_eigendecomp()
        return [d.eigvals, d.eigvecs]

    def state(self, d):
        return [d.eigvals, d.eigvecs, d.correlation_array]

    def read(self, d, m):
        d.get_decomp('2', '32')

    def op(self, d, name, st, rank, key, idx, limit, given):
        kw = dict(vec_handles=st.handles(self.keys, rank)) if given else {}
        if name == 'modes':
            d.compute_modes(idx, st.handles(key, rank), **kw)
        elif name == 'coeffs':
            return [d.compute_proj_coeffs(), d.proj_coeffs]
        else:
            d.compute_eigendecomp()
            return self.state(d)


class Bpod(object):
    OPS = ('direct_modes', 'adjoint_modes', 'coeffs', 'again')

    def __init__(self, env, tag, p=1, q=1, T1=2, T2=2, ld='f', limits=()):
        self.p, self.q = p, q
        H = blocks(env, p, q, T1, T2, ld, False, tag)
        r = min(H.shape)
        if env.sym:
            for x in H.ravel().tolist():
                env.assume(x != 0)
        s, U, V, R = rebuilt(env, H, r, tag)
        self.xk = ['x%s%d' % (tag, i) for i in range(p * T1)]
        self.yk = ['y%s%d' % (tag, i) for i in range(q * T2)]
        self.keys = self.xk + self.yk
        self.tab = hh.table(self.yk, self.xk, H)
        self.arrays = dict(Hankel_array=H)
        self.k = r

    @staticmethod
    def new(m, **kw):
        return m.bpod.BPODHandles(verbosity=0, **kw)

    def run(self, d, st, rank, limit=None, how='decomp'):
        if how == 'decomp':
            kw = {}
            if self.p > 1:
                kw['num_inputs'] = self.p
            if self.q > 1:
                kw['num_outputs'] = self.q
            return list(d.compute_decomp(st.handles(self.xk, rank),
                                         st.handles(self.yk, rank), **kw))
        if how == 'existing':
            d.Hankel_array = self.arrays['Hankel_array']
        d.compute_SVD()
        return [d.sing_vals, d.L_sing_vecs, d.R_sing_vecs]

    def state(self, d):
        return [d.sing_vals, d.L_sing_vecs, d.R_sing_vecs, d.Hankel_array]

    def read(self, d, m):
        d.get_decomp('2', '32', '22')

    def op(self, d, name, st, rank, key, idx, limit, given):
        if name == 'direct_modes':
            kw = dict(direct_vec_handles=st.handles(self.xk, rank)) \
                if given else {}
            d.compute_direct_modes(idx, st.handles(key, rank), **kw)
        elif name == 'adjoint_modes':
            kw = dict(adjoint_vec_handles=st.handles(self.yk, rank)) \
                if given else {}
            d.compute_adjoint_modes(idx, st.handles(key, rank), **kw)
        elif name == 'coeffs':
            return [d.compute_adjoint_proj_coeffs(),
                    d.compute_direct_proj_coeffs(), d.direct_proj_coeffs,
                    d.adjoint_proj_coeffs]
        else:
            d.compute_SVD()
            return self.state(d)


class Dmd(object):
    OPS = ('exact_modes', 'proj_modes', 'adjoint_modes', 'spectrum', 'coeffs',
           'again')
    LOW = ('eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs')
    DEC = LOW + ('correlation_array_eigvals', 'correlation_array_eigvecs')
    ARR = ('correlation_array', 'cross_correlation_array')
    cls = 'DMDHandles'

    def __init__(self, env, tag, n=2, r=None, ld='f', seq=False, kind=None,
                 limits=(None,)):
        r = n if r is None else r
        kind = kind or ld
        self.build(env, tag, n, r, ld, seq)
        self.seq = seq
        for i, lim in enumerate(sorted({min(x or r, r) for x in limits},
                                      reverse=True)):
            self.lower(env, lim, kind, '%s%d' % (tag, i))

    def build(self, env, tag, n, r, ld, seq):
        C, R, s, V, M, xk, yk, self.tab = problem(env, n, r, ld, seq, tag)
        self.sv = s, V, M
        self.xk, self.yk = xk, yk
        self.keys = xk + ([] if seq else yk)
        self.arrays = dict(correlation_array=C, cross_correlation_array=M)

    def lower(self, env, k, kind, name):
        s, V, M = self.sv
        VS = V[:, :k] * env.array([1 / x for x in s[:k]], 'f')
        low_map(env, dot(Hc(VS), M, VS), kind, name)

    @classmethod
    def new(cls, m, **kw):
        return getattr(m.dmd, cls.cls)(verbosity=0, **kw)

    def run(self, d, st, rank, limit=None, how='decomp'):
        kw = {} if limit is None else dict(max_num_eigvals=limit)
        if how == 'decomp':
            if not self.seq:
                kw['adv_vec_handles'] = st.handles(self.yk, rank)
            return list(d.compute_decomp(st.handles(self.xk, rank), **kw))
        if how == 'existing':
            for a, v in self.arrays.items():
                setattr(d, a, v)
        d.compute_eigendecomp(**kw)
        return [getattr(d, x) for x in self.DEC]

    def state(self, d):
        return [getattr(d, x) for x in self.DEC + self.ARR]

    def read(self, d, m):
        d.get_decomp('2', '22', '22', '2', '32')

    def op(self, d, name, st, rank, key, idx, limit, given):
        kw = {}
        if name == 'exact_modes':
            if given and not self.seq:
                kw['adv_vec_handles'] = st.handles(self.yk, rank)
            if given and self.seq:
                kw['adv_vec_handles'] = st.handles(self.xk[1:], rank)
            d.compute_exact_modes(idx, st.handles(key, rank), **kw)
        elif name in ('proj_modes', 'adjoint_modes'):
            if given:
                kw['vec_handles'] = st.handles(self.xk, rank)
            getattr(d, 'compute_' + name)(idx, st.handles(key, rank), **kw)
        elif name == 'spectrum':
            return [d.compute_spectrum(), d.spectral_coeffs]
        elif name == 'coeffs':
            return list(d.compute_proj_coeffs()) + [d.proj_coeffs,
                                                    d.adv_proj_coeffs]
        else:
            d.compute_eigendecomp(**({} if limit is None else
                                     dict(max_num_eigvals=limit)))
            return self.state(d)


class Tls(Dmd):
    DEC = Dmd.LOW + ('sum_correlation_array_eigvals',
                     'sum_correlation_array_eigvecs',
                     'proj_correlation_array_eigvals',
                     'proj_correlation_array_eigvecs')
    ARR = Dmd.ARR + ('adv_correlation_array', 'sum_correlation_array',
                     'proj_correlation_array')
    cls = 'TLSqrDMDHandles'

    def build(self, env, tag, n, r, ld, seq):
        self.pr = Problem(env, n, r, ld, seq, tag)
        self.tab = self.pr.tab if env.sym or seq else None
        self.xk, self.yk = self.pr.xk, self.pr.yk
        self.keys = self.xk + ([] if seq else self.yk)
        self.main = True

    def lower(self, env, k, kind, name):
        pr = self.pr
        s, Vp, Pq, R = pr.project(k, name, self.main)
        self.main = False
        if self.tab is None:
            self.tab = pr.tab
        self.arrays = dict(correlation_array=pr.C,
                           cross_correlation_array=pr.M,
                           adv_correlation_array=pr.A)
        pr.reduce(k, s, Vp, Pq, kind, name)

    def read(self, d, m):
        d.get_decomp('2', '22', '22', '3', '33', '2', '32')


KIND = {'POD': Pod, 'BPOD': Bpod, 'DMD': Dmd, 'TLS': Tls}


class Shared(object):
    """Hands out one list of handles per list of keys; the vectors behind
    them are those of another data set from ``hold`` on."""

    def __init__(self, st):
        self.st = st
        self.lists = {}
        self.names = {}

    def hold(self, first, sets, tag):
        src, dst = sets[tag].keys, sets[first].keys
        assert len(src) == len(dst)
        self.names = {s: 'h%d' % i for i, s in enumerate(src)}
        for s, h in self.names.items():
            self.st.val[h] = dict(self.st.val[s])

    def handles(self, keys, rank=0):
        if not set(keys) <= set(self.names):
            return self.st.handles(keys, rank)
        names = tuple(self.names[k] for k in keys)
        if names not in self.lists:
            self.lists[names] = self.st.handles(names, rank)
        return self.lists[names]


def reuse(env, what, P, data, history, L, given=False, ops=None,
          rewritten=False):
    """``data``: tag -> arguments; ``history``: list of (tag, limit, how, ops
    requested after it); the last one is compared with a fresh object.
    ``rewritten``: all computations are given the same handles (the same
    lists); the vectors behind them are overwritten in between."""
    env.deterministic()
    K = KIND[what]
    last, limit, how, _ = history[-1]
    sets = {}
    for tag in sorted(data):
        lims = [h[1] for h in history if h[0] == tag]
        if tag == last:
            lims.append(limit)
        sets[tag] = K(env, tag, limits=lims or [None], **data[tag])
    D = sets[last]
    tab = {}
    for x in sets.values():
        tab.update(x.tab)
    ip = hh.IP(tab)
    k = min(D.k if hasattr(D, 'k') else data[last].get(
        'r', data[last].get('n', 2)), limit or 99)
    ops = list(ops or K.OPS)
    plan = [ops[env.choice('op%d' % i, len(ops))] for i in range(L)]
    st = hh.setup(env, P, sorted(set(sum([x.keys for x in sets.values()],
                                         []))))
    idx = list(range(k))[::-1]
    # what is read back in the meantime
    files = {s: env.tmat('f', int(s[0]), int(s[1]), 'f') if len(s) == 2 else
             env.array([env.pos('w%s%d' % (s, i), lo=1) ** 2
                        for i in range(int(s))], 'f')
             for s in ('2', '3', '22', '32', '33')} \
        if any(h[2] == 'read' for h in history) else {}

    def go(rank, m):
        def new():
            return K.new(m, inner_product=ip, max_vecs_per_node=10,
                         get_array=lambda s: np.array(files[s]))
        a = new()
        kept = []
        shared = Shared(st) if rewritten else st
        for i, (tag, lim, hw, mid) in enumerate(history):
            if rewritten:
                shared.hold(history[0][0], sets, tag)
            if hw == 'read':
                sets[tag].read(a, m)
                r = []
            else:
                r = sets[tag].run(a, shared, rank, lim, hw)
            if i + 1 < len(history):
                for o in mid:
                    r = r + (sets[tag].op(
                        a, o, shared, rank, ['mid%d_%s' % (i, o)], [0], lim,
                        given) or [])
                kept.append((r, [np.array(x) for x in r]))
        got = list(r) + sets[last].state(a)
        b = new()
        want = D.run(b, st, rank, limit, 'decomp') + D.state(b)
        kept.append((list(r), [np.array(x) for x in r]))
        out = [(got, want)]
        for i, o in enumerate(plan):
            x = D.op(a, o, shared, rank, ['a%d_%d' % (i, j) for j in idx], idx,
                     limit, given)
            f = new()
            D.run(f, st, rank, limit, 'decomp')
            y = D.op(f, o, st, rank, ['b%d_%d' % (i, j) for j in idx], idx,
                     limit, False)
            if x is not None:
                kept.append((x, [np.array(z) for z in x]))
            out.append((x or [], y or []))
        out.append((D.state(a), D.state(b)))
        return out, kept
    res = hh.run_ranks(env, P, go)
    for rank, (out, kept) in enumerate(res):
        names = ['decomposition'] + plan + ['decomposition at the end']
        for nm, (x, y) in zip(names, out):
            for i, (v, w) in enumerate(zip(x, y)):
                ok = np.shape(v) == np.shape(w)
                env.true('same shapes as from a fresh object', ok,
                         detail='%s (%s): %s, fresh: %s' % (
                             nm, i, np.shape(v), np.shape(w)))
                if ok:
                    env.eq('same results as from a fresh object: %s' % nm,
                           v, w)
        for x, y in kept:
            env.eq('results returned earlier do not change', x, y)
    for i, o in enumerate(plan):
        if o.endswith('modes'):
            for j in idx:
                x, y = (st.val.get('%s%d_%d' % (w, i, j)) for w in 'ab')
                ok = x is not None and y is not None and set(x) == set(y)
                env.true('modes use the same vectors as from a fresh object',
                         ok, detail='%s: %s, fresh: %s' % (o, x, y))
                if ok:
                    env.eq('same modes as from a fresh object: %s' % o,
                           [x[s] for s in sorted(x)],
                           [y[s] for s in sorted(y)])


def era(env, calls, ctor):
    """``calls``: (Markov shape, mc, mo, states) of each computation."""
    env.deterministic()
    kw = {k: v for k, v in zip(('mc', 'mo'), ctor) if v is not None}
    cases = []
    for c, (shape, mc, mo, ns, ld) in enumerate(calls):
        T = shape[0]
        Y = env.array([[[env.scal('y%d_%d%d%d' % (c, i, j, l), ld)
                         for l in range(shape[2])] for j in range(shape[1])]
                       for i in range(T)], ld)
        c0, o0 = (x if x is not None else z if z is not None else
                  (T - T % 2 + 2) // 4
                  for x, z in ((mc, ctor[0]), (mo, ctor[1])))
        H = np.vstack([np.hstack([Y[2 * (i + j)] for j in range(c0)])
                       for i in range(o0)])
        if env.sym:
            H._ld = ld
        rebuilt(env, H, min(H.shape), 'e%d' % c)
        cases.append((Y, dict({} if mc is None else dict(mc=mc),
                              **({} if mo is None else dict(mo=mo))), ns))
    m = env.m
    a = m.era.ERA(verbosity=0, **kw)

    def compute(o, case):
        Y, k, ns = case
        r = list(o.compute_model(Y, ns, **k))
        return r, [o.A, o.B, o.C, o.sing_vals, o.L_sing_vecs, o.R_sing_vecs,
                   o.Hankel_array, o.Hankel_array2]
    kept = []
    for case in cases:
        r, s = compute(a, case)
        kept.append((r + s, [np.array(x) for x in r + s]))
        f = m.era.ERA(verbosity=0, **kw)
        x, y = compute(f, case)
        for v, w in zip(r + s, x + y):
            env.true('same shapes as from a fresh object',
                     np.shape(v) == np.shape(w), detail='%s, fresh: %s' % (
                         np.shape(v), np.shape(w)))
        env.eq('same results as from a fresh object: model', r + s, x + y)
    for x, y in kept:
        env.eq('results returned earlier do not change', x, y)


def galerkin(env, P, cls, orthonormal, adjoint, ld, plan=2):
    """Models of several systems on one basis."""
    n, k = 3, 2
    arrays = cls == 'arrays'
    if arrays:
        Phi = env.tmat('p', n, k, ld)
        Psi = env.tmat('q', n, k, ld) if adjoint else Phi
        A = [env.tmat('a%d' % i, n, k, ld) for i in range(2)]
        B = [env.tmat('b%d' % i, n, i + 1, ld) for i in range(2)]
        G = dot(Hc(Psi), Phi)
    else:
        bk = ['p%d' % i for i in range(k)]
        ak = ['q%d' % i for i in range(k)] if adjoint else bk
        A = [['a%d_%d' % (i, j) for j in range(k)] for i in range(2)]
        B = [['b%d_%d' % (i, j) for j in range(i + 1)] for i in range(2)]
        keys = sorted(set(bk + ak + sum(A + B, [])))
        tab = {}
        for x in ak:
            for y in keys:
                z = env.scal('g_%s_%s' % (x, y), ld)
                env.assume(z != 0)
                tab[x, y], tab[y, x] = z, np.conj(z)
        if not adjoint:
            for i, x in enumerate(bk):
                for y in bk[:i + 1]:
                    z = env.real('h_%s_%s' % (x, y)) if x == y else \
                        env.scal('h_%s_%s' % (x, y), ld)
                    env.assume(z != 0)
                    tab[x, y] = z
                    tab[y, x] = np.conj(z)
        G = env.array([[tab[x, y] for y in bk] for x in ak], ld)
    C = [env.tmat('c%d' % i, i + 1, k, ld) for i in range(2)]
    if not orthonormal:
        det = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
        if env.sym:
            env.assume(det != 0)
        else:
            env.assume(abs(det) > 1e-2)
    st = hh.setup(env, P, [] if arrays else keys)
    ops = ('reduce_A', 'reduce_B', 'reduce_C', 'compute_model')
    todo = [(ops[env.choice('op%d' % i, len(ops))], i % 2)
            for i in range(plan)]

    def go(rank, m):
        g = m.ltigalerkinproj

        def new():
            kw = dict(is_basis_orthonormal=orthonormal)
            if arrays:
                if adjoint:
                    kw['adjoint_basis_vecs'] = Psi
                return g.LTIGalerkinProjectionArrays(Phi, **kw)
            if adjoint:
                kw['adjoint_basis_vec_handles'] = st.handles(ak, rank)
            return g.LTIGalerkinProjectionHandles(
                hh.IP(tab), st.handles(bk, rank), verbosity=0, **kw)

        def args(c):
            if arrays:
                return A[c], B[c], C[c]
            return (st.handles(A[c], rank), st.handles(B[c], rank),
                    list(C[c].T))

        def do(o, op, c):
            x = dict(zip(('reduce_A', 'reduce_B', 'reduce_C'), args(c)))
            if op == 'compute_model':
                return list(o.compute_model(*args(c)))
            return [getattr(o, op)(x[op])]
        a = new()
        out, kept = [], []
        for op, c in todo + [('compute_model', 1)]:
            r = do(a, op, c)
            kept.append((r, [np.array(x) for x in r]))
            out.append((op, r, do(new(), op, c)))
        return out, kept
    for out, kept in hh.run_ranks(env, P, go):
        for op, x, y in out:
            for v, w in zip(x, y):
                env.true('same shapes as from a fresh object',
                         np.shape(v) == np.shape(w))
            env.eq('same results as from a fresh object: ' + op, x, y)
        for x, y in kept:
            env.eq('results returned earlier do not change', x, y)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for P in (1, 2) if q else (1, 2, 3):
        L = 2 if q else 3
        for data, hist in (
                (dict(a=dict(n=3), b=dict(n=2, ld='c')), ['a', 'b']),
                (dict(a=dict(n=1), b=dict(n=2)), ['a', 'b']),
                (dict(a=dict(n=2), b=dict(n=3, r=2)), ['a', 'b'])):
            out.append((reuse, dict(
                what='POD', P=P, data=data, L=L,
                history=[(hist[0], None, 'decomp', ['modes', 'coeffs']),
                         (hist[1], None, 'decomp', [])])))
        for how in ('existing', 'read'):
            out.append((reuse, dict(
                what='POD', P=P, L=1, data=dict(a=dict(n=3), b=dict(n=2)),
                history=[('a', None, how, []), ('b', None, 'decomp', [])])))
        out.append((reuse, dict(
            what='POD', P=P, L=2, data=dict(a=dict(n=2)), given=True,
            history=[('a', None, 'decomp', ['coeffs']),
                     ('a', None, 'eig', [])])))
        for a, b in ((dict(T1=3, T2=2), dict(ld='c')),
                     (dict(p=2, T1=1, T2=2), dict(q=2, T2=1)),
                     (dict(T1=1, T2=1), dict(p=2, T1=1, T2=2))):
            out.append((reuse, dict(
                what='BPOD', P=P, data=dict(a=a, b=b), L=L,
                history=[('a', None, 'decomp', ['adjoint_modes',
                                                'direct_modes', 'coeffs']),
                         ('b', None, 'decomp', [])])))
        for how in ('existing', 'read'):
            out.append((reuse, dict(
                what='BPOD', P=P, L=1,
                data=dict(a=dict(T1=3, T2=2), b=dict()),
                history=[('a', None, how, []), ('b', None, 'decomp', [])])))
        out.append((reuse, dict(
            what='BPOD', P=P, L=2, data=dict(a=dict()), given=True,
            history=[('a', None, 'decomp', ['coeffs']),
                     ('a', None, 'eig', [])])))
        for what in ('DMD', 'TLS'):
            for sa, sb in ((False, True), (True, False), (True, True),
                           (False, False)):
                mid = ['exact_modes', 'proj_modes', 'coeffs', 'spectrum']
                if what == 'TLS' and q:
                    mid = mid[:3]
                big = dict(n=3, seq=sa, ld='f')
                if what == 'TLS':
                    big['n'] = 2
                    if sa and sb:
                        big['n'] = 1
                for n2, l2 in ((2, L - 1), (1, L)):
                    if q and P > 1 and (n2 == 1 or sa == sb):
                        continue
                    out.append((reuse, dict(
                        what=what, P=P, L=l2, given=sa and sb,
                        data=dict(a=big, b=dict(
                            n=n2, seq=sb, ld='f', kind='pair' if n2 == 2
                            else 'c')),
                        history=[('a', 1 if big['n'] == 3 else None, 'decomp',
                                  mid), ('b', None, 'decomp', [])])))
                if q and P > 1:
                    continue
                out.append((reuse, dict(
                    what=what, P=P, L=1,
                    data=dict(a=dict(n=1, seq=sa, ld='f'),
                              b=dict(n=2, seq=sb, ld='f', kind='f')),
                    history=[('b', 1, 'decomp', mid[:2]),
                             ('a', None, 'decomp', mid),
                             ('b', 1 if sa else None, 'decomp', [])])))
            if q and P > 1:
                continue
            for seq in (False, True):
                for l1, l2 in ((None, 1), (1, None), (1, 1)):
                    out.append((reuse, dict(
                        what=what, P=P, L=1,
                        data=dict(a=dict(n=2, seq=seq, ld='f', kind='f')),
                        history=[('a', l1, 'decomp', ['coeffs']),
                                 ('a', l2, 'eig', [])])))
                for how in ('existing', 'read'):
                    out.append((reuse, dict(
                        what=what, P=P, L=1,
                        data=dict(a=dict(n=2, seq=False, ld='f', kind='f'),
                                  b=dict(n=1, seq=seq, ld='c')),
                        history=[('a', None, how, []),
                                 ('b', None, 'decomp', [])])))
        for what in KIND:
            ops = ['modes', 'coeffs'] if what == 'POD' else \
                ['direct_modes', 'adjoint_modes'] if what == 'BPOD' else \
                ['exact_modes', 'proj_modes', 'coeffs', 'spectrum']
            for seq in (False, True) if what in ('DMD', 'TLS') else (None,):
                kw = dict() if what == 'BPOD' else dict(n=2)
                if seq is not None:
                    kw.update(seq=seq, kind='f', n=1 if what == 'TLS' and seq
                              else 2)
                for rw in (False, True) if P == 1 else (False,):
                    if q and (P > 1 and seq):
                        continue
                    out.append((reuse, dict(
                        what=what, P=P, L=1, rewritten=rw,
                        data=dict(a=kw, b=kw),
                        history=[('a', None, 'decomp', ops),
                                 ('b', None, 'decomp', [])])))
        for cls in ('arrays', 'handles'):
            if cls == 'arrays' and P > 1:
                continue
            for on in (True, False):
                for adj in (True, False):
                    for ld in 'fc':
                        if ld == 'c' and q and (P > 1 or cls == 'arrays' and
                                                not (on or adj)):
                            continue
                        out.append((galerkin, dict(
                            P=P, cls=cls, orthonormal=on, adjoint=adj,
                            ld=ld, plan=2 if q else 3)))
    big, small, mimo = (6, 1, 1), (3, 1, 1), (4, 1, 2)
    for ctor in ((None, None), (1, 2), (None, 1)):
        for seqs in ([(big, None, None, 2, 'f'), (small, 1, 1, 1, 'f'),
                      (mimo, None, None, 1, 'f')],
                     [(big, 1, 2, 1, 'f'), (big, None, None, 2, 'c')],
                     [(big, 1, 2, 1, 'f'), (big, 1, 2, 1, 'f')],
                     [(mimo, 1, 1, 1, 'f'), (mimo, 1, 1, 1, 'c')],
                     [((4, 2, 2), 1, 1, 2, 'c'), (big, None, 1, 1, 'f'),
                      (big, 1, None, 1, 'f')]):
            ok = True
            for sh, mc, mo, ns, ld in seqs:
                T = sh[0] - sh[0] % 2
                c, o = ((x if x is not None else z if z is not None else
                         (T + 2) // 4)
                        for x, z in ((mc, ctor[0]), (mo, ctor[1])))
                if 2 * (c + o) - 2 > T or ns > min(c * sh[2], o * sh[1]):
                    ok = False
            if ok:
                out.append((era, dict(calls=seqs, ctor=ctor)))
    return out
