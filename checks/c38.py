"""C38 inputs are never modified."""
import os

import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI, FILES
from .linear import dot
from . import handles as hh

BOUNDS = ('every public computation with small inputs (2 or 3 vectors of 2 '
          'or 3 elements, systems with 1 or 2 states) of any real, complex '
          'or integer values, given as arrays or lists, with no, diagonal '
          'and full weights; vectors with in-place operations held in '
          'memory, with base vectors and scales, on 1..3 workers with every '
          'integer memory limit >= 1; all paths through the tolerance and '
          'value dependent branches')
OUTSIDE = ('larger inputs; input arrays that are modified inside LAPACK; '
           'modifications that are undone before the call returns')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI, FILES,
               'the results of decompositions are opaque: no property of '
               'their values is used']


class IVec(object):
    """A vector whose in-place operations change the object itself."""

    def __init__(self, x):
        self.x = list(x)

    def _num(self, f):
        return IVec([f(a) for a in self.x])

    def _two(self, o, f):
        if not isinstance(o, IVec):
            raise TypeError('not a vector')
        return IVec([f(a, b) for a, b in zip(self.x, o.x)])

    def __add__(self, o):
        return self._two(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._two(o, lambda a, b: a - b)

    def __mul__(self, s):
        return self._num(lambda a: a * s)

    __rmul__ = __mul__

    def __truediv__(self, s):
        return self._num(lambda a: a / s)

    def __neg__(self):
        return self * -1

    def __iadd__(self, o):
        self.x[:] = (self + o).x
        return self

    def __isub__(self, o):
        self.x[:] = (self - o).x
        return self

    def __imul__(self, s):
        self.x[:] = (self * s).x
        return self

    def __itruediv__(self, s):
        self.x[:] = (self / s).x
        return self

    def __deepcopy__(self, memo):
        return IVec(self.x)


class IP(object):
    def __call__(self, a, b):
        if isinstance(a, IVec):
            return sum(np.conj(p) * q for p, q in zip(a.x, b.x))
        return np.vdot(a, b)

    def __eq__(self, o):
        return type(self) is type(o)

    __hash__ = None


def deep(x):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, IVec):
        return list(x.x)
    if isinstance(x, (list, tuple)):
        return [deep(v) for v in x]
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    return x


class Kept(object):
    """Objects and their contents before a computation."""

    def __init__(self, env):
        self.env = env
        self.items = []
        self.marks = []

    def __call__(self, label, x):
        self.items.append((label, x, deep(x)))
        return x

    def mark(self):
        """Record the contents between two operations."""
        self.marks.append([deep(x) for _, x, _ in self.items])

    def check(self, what=''):
        for i in range(len(self.marks)):
            for (label, _, y), x in zip(self.items, self.marks[i]):
                self.same('%s not modified%s by step %d' % (label, what, i),
                          x, y)
        for label, x, y in self.items:
            self.same('%s not modified%s' % (label, what), x, y)

    def same(self, label, x, y):
        env = self.env
        if isinstance(x, np.ndarray):
            env.true(label, np.shape(x) == np.shape(y), detail='shape')
            if np.shape(x) == np.shape(y) and x.size and any(
                    a is not b for a, b in zip(np.asarray(x).flat,
                                               np.asarray(y).flat)):
                env.eq(label, x, y)
        elif isinstance(x, IVec):
            self.same(label, x.x, y)
        elif isinstance(x, (list, tuple)):
            env.true(label, len(x) == len(y), detail='length')
            if len(x) == len(y):
                for a, b in zip(x, y):
                    self.same(label, a, b)
        elif isinstance(x, dict):
            env.true(label, list(x) == list(y))
            for k in x:
                if k in y:
                    self.same(label, x[k], y[k])
        elif x is not y:
            if isinstance(x, str) or x is None or y is None:
                env.true(label, x == y)
            else:
                env.eq(label, x, y)


def mat(env, name, r, c, ld):
    if ld == 'i':
        return env.array([[env.ireal('%s%d%d' % (name, i, j), -3, 3)
                           for j in range(c)] for i in range(r)], 'i')
    return env.tmat(name, r, c, ld)


def given(form, A):
    if form == 'list':
        return A.tolist()
    if form == 'fortran':
        return A.T.copy().T
    return A


def weights(env, kind, n):
    if kind == '1d':
        return env.array([env.pos('w%d' % i) for i in range(n)], 'f')
    if kind == '1dlist':
        return [env.pos('w%d' % i) for i in range(n)]
    if kind == '2d':
        return env.diag([env.pos('w%d' % i) for i in range(n)])
    return None


def decomposition(env, f, n, m, ld, form, w, adv=False, mode='some', kw=None):
    """POD, BPOD and DMD of arrays."""
    k = Kept(env)
    u = env.m
    X = k('vectors', given(form, mat(env, 'x', n, m, ld)))
    W = k('weights', weights(env, w, n))
    idx = k('mode indices', [1, 0, 1]) if mode == 'some' else None
    kws = dict(inner_product_weights=W)
    kws.update(kw or {})
    if env.sym:
        env.deterministic()
    try:
        if f == 'bpod':
            Y = k('adjoint vectors', given(form, mat(env, 'y', n, m, ld)))
            u.bpod.compute_BPOD_arrays(
                X, Y, direct_mode_indices=idx,
                adjoint_mode_indices=k('adjoint mode indices', [1, 0])
                if mode == 'some' else None, **kws)
        else:
            if adv:
                kws['adv_vecs'] = k('advanced vectors', given(
                    form, mat(env, 'y', n, m, ld)))
            mod = u.pod if 'POD' in f else u.dmd
            getattr(mod, f)(X, mode_indices=idx, **kws)
    except (IndexError, np.linalg.LinAlgError, ZeroDivisionError):
        pass
    k.check()


def space(env, n, m, ld, form, w):
    """Vector spaces of arrays, and Galerkin projections."""
    k = Kept(env)
    X = k('vectors', given(form if form != 'list' else 'array',
                            mat(env, 'x', n, m, ld)))
    Y = k('vectors', given(form if form != 'list' else 'array',
                            mat(env, 'y', n, m, ld)))
    C = k('coefficients', given(form, mat(env, 'c', m, m, ld)))
    W = k('weights', weights(env, w, n))
    idx = k('indices', [m - 1, 0])
    v = env.m.vectorspace.VectorSpaceArrays(weights=W)
    v.compute_inner_product_array(X, Y)
    k.mark()
    v.compute_symm_inner_product_array(X)
    k.mark()
    v.lin_combine(X, C)
    k.mark()
    v.lin_combine(X, C, coeff_array_col_indices=idx)
    k.mark()
    v == env.m.vectorspace.VectorSpaceArrays(weights=W)
    k.mark()
    k.check()


def galerkin(env, n, m, ld, form, w, ortho, adj):
    k = Kept(env)
    g = env.m.ltigalerkinproj
    X = k('basis vectors', given(form, mat(env, 'x', n, m, ld)))
    Y = k('adjoint basis vectors', given(form, mat(env, 'y', n, m, ld))) \
        if adj else None
    W = k('weights', weights(env, w, n))
    A = k('A on the basis', given(form, mat(env, 'a', n, m, ld)))
    B = k('B on the standard basis', given(form, mat(env, 'b', n, 2, ld)))
    C = k('C on the basis', given(form, mat(env, 'c', 2, m, ld)))
    saved = []
    p = g.LTIGalerkinProjectionArrays(
        X, adjoint_basis_vecs=Y, is_basis_orthonormal=ortho,
        inner_product_weights=W, put_array=lambda a, d: saved.append(a))
    try:
        r = p.compute_model(A, B, C)
        k.mark()
    except np.linalg.LinAlgError:
        return
    q = Kept(env)
    q('reduced model', list(r))
    p.put_model('a', 'b', 'c')
    k.mark()
    p.reduce_A(A)
    k.mark()
    p.reduce_B(B)
    k.mark()
    p.reduce_C(C)
    k.mark()
    dt = env.pos('dt')
    g.compute_derivs_arrays(X, A, dt)
    k.mark()
    k.check()
    q.check(' by saving')


def systems(env, f, n, ld, form):
    k = Kept(env)
    u = env.m.util
    A = k('A', given(form, mat(env, 'a', n, n, ld)))
    B = k('B', given(form, mat(env, 'b', n, 1, ld)))
    C = k('C', given(form, mat(env, 'c', 1, n, ld)))
    if env.sym:
        env.deterministic()
    try:
        if f == 'balanced':
            u.balanced_truncation(A, B, C, order=1, return_sing_vals=True)
            k.mark()
        elif f == 'balanced all':
            u.balanced_truncation(A, B, C)
            k.mark()
        elif f == 'lsim':
            U = k('inputs', given(form, mat(env, 'u', 3, 1, ld)))
            x0 = k('initial condition', [env.real('x%d' % i)
                                         for i in range(n)])
            u.lsim(A, B, C, U, initial_condition=x0)
            k.mark()
            u.lsim(A, B, C, U)
            k.mark()
        elif f == 'impulse':
            u.impulse(A, B, C, num_time_steps=3)
            k.mark()
        elif f == 'eig':
            for s in ('left', 'right'):
                u.eig_biorthog(A, scale_choice=s)
                k.mark()
        elif f == 'svd':
            u.svd(A)
            k.mark()
            u.svd(A, atol=env.pos('atol'), rtol=env.pos('rtol'))
            k.mark()
            u.svd(B)
            k.mark()
        elif f == 'eigh':
            H = k('Hermitian array', given(form, np.array(env.array(
                [[env.pos('h%d' % i) if i == j else
                  env.real('o%d%d' % (min(i, j), max(i, j)))
                  for j in range(n)] for i in range(n)], 'f'))))
            u.eigh(H)
            k.mark()
            u.eigh(H, rtol=env.pos('rtol'), is_positive_definite=True)
            k.mark()
    except (np.linalg.LinAlgError, ZeroDivisionError):
        pass
    k.check()


def identification(env, f, ld, form, q=1, p=1):
    k = Kept(env)
    m = env.m
    if env.sym:
        env.deterministic()
    if f == 'okid':
        U = k('inputs', given(form, mat(env, 'u', p, 4, ld)))
        Y = k('outputs', given(form, mat(env, 'y', q, 4, ld)))
        m.okid.OKID(U, Y, 1)
        k.mark()
        k.check()
        return
    Y = [mat(env, 'y%d' % t, q, p, ld) for t in range(4)]
    if form == 'array':
        M = env.array([y.tolist() for y in Y])
        if env.sym:
            M._ld = ld
    elif form == 'list':
        M = list(Y)
    else:
        M = [y.tolist() for y in Y]
    k('Markov parameters', M)
    if f == 'sampled':
        t = k('times', np.array([1., 1.5, 2., 2.5]))
        m.era.make_sampled_format(t, M)
        k.mark()
        t2 = k('times', np.array([3, 4, 5, 6]))
        m.era.make_sampled_format(t2, M)
        k.mark()
        k.check()
        return
    try:
        if f == 'function':
            m.era.compute_ERA_model(M, 1)
            k.mark()
        else:
            saved = []
            e = m.era.ERA(put_array=lambda a, d: saved.append(a), mc=1, mo=1)
            r = Kept(env)
            r('model', list(e.compute_model(M, 1)))
            k.mark()
            e.put_model('a', 'b', 'c')
            k.mark()
            e.put_decomp('s', 'l', 'r', 'h', 'H')
            k.mark()
            r.check(' by saving')
    except (np.linalg.LinAlgError, IndexError, ZeroDivisionError):
        pass
    k.check()


def utilities(env, ld, form):
    k = Kept(env)
    u = env.m.util
    A = k('array', given(form, mat(env, 'a', 2, 2, ld)))
    v = k('column', given(form, mat(env, 'v', 1, 2, ld)[0]))
    w = k('row', given(form, mat(env, 'w', 1, 2, ld)[0]))
    u.atleast_2d_row(v)
    k.mark()
    u.atleast_2d_col(v)
    k.mark()
    u.atleast_2d_row(A)
    k.mark()
    u.atleast_2d_col(A)
    k.mark()
    u.make_iterable(A)
    k.mark()
    u.sum_arrays(A, A)
    k.mark()
    u.sum_arrays(v, w)
    k.mark()
    u.smart_eq(A, A)
    k.mark()
    w0 = w[0]
    h = k('first column', env.array([v[0], v[1]], ld))
    l = k('last row', env.array([v[1], w0], ld))
    u.Hankel([v[0], v[1]])
    k.mark()
    u.Hankel(h)
    k.mark()
    u.Hankel(h, l)
    k.mark()
    blocks = k('first column of blocks', [
        env.array(mat(env, 'p%d' % i, 2, 1, ld)) for i in range(2)])
    last = k('last row of blocks', [blocks[1], env.array(
        mat(env, 'q', 2, 1, ld))])
    u.Hankel_chunks(blocks)
    k.mark()
    u.Hankel_chunks(blocks, last)
    k.mark()
    ll = k('list of lists', [[1, w0], [], [v[1]]])
    u.flatten_list(ll)
    k.mark()
    a, b = k('lists', [[1, w0], [v[1], 2.]])
    u.sum_lists(a, b)
    k.mark()
    tasks = k('tasks', [5, 3, 1, 2])
    tw = k('task weights', [1., 3., 2., 1.5])
    p = env.m.parallel
    p.find_assignments(tasks)
    k.mark()
    p.find_assignments(tasks, tw)
    k.mark()
    p.find_assignments(tasks, task_weights=k('task weights', np.array(tw)))
    k.mark()
    p.bcast(ll)
    k.mark()
    args = k('arguments', [[1, 2], {'a': [v[0]]}])
    p.call_and_bcast(lambda x, y=None: x, args[0], y=args[1])
    k.mark()
    p.call_from_rank_zero(lambda x, y=None: x, args[0], y=args[1])
    k.mark()
    p.check_for_empty_tasks(k('assignments', [[1], [2, 3]]))
    k.mark()
    k.check()


def text(env, ld, form):
    k = Kept(env)
    u = env.m.util
    A = k('array', given(form, mat(env, 'a', 2, 2, ld)))
    v = k('vector', given(form, mat(env, 'v', 1, 3, ld)[0]))
    f = [env.tmp('a'), env.tmp('v')]
    u.save_array_text(A, f[0])
    k.mark()
    u.save_array_text(v, f[1], delimiter=',')
    k.mark()
    B = u.load_array_text(f[0], is_complex=ld == 'c')
    k.mark()
    h = env.m.vectors.VecHandleArrayText(env.tmp('h'), is_complex=ld == 'c')
    h.put(np.asarray(A))
    k.mark()
    x = k('loaded vector', h.get())
    g = env.m.vectors.VecHandleArrayText(env.tmp('h'), base_vec_handle=h,
                                         scale=2., is_complex=ld == 'c')
    g.get()
    k.mark()
    if ld != 'c':
        paths = k('paths', [f[0], f[0]])
        u.load_multiple_signals(paths)
        k.mark()
        u.load_signals(f[0])
        k.mark()
    k.check()


def operations(env, P, nodes, kind, n, m, ld, base=False, scale=False,
               limit='sym', op='all'):
    """Vector spaces of handles, on P workers."""
    lim = env.int('limit', 1) if limit == 'sym' else limit
    dim = 2
    C0 = mat(env, 'c', n, m, ld)

    def go(rank, mod):
        k = Kept(env)
        hs = held_in(mod, k, kind, ['x%d' % i for i in range(n)], dim, ld,
                     base, scale, env)
        gs = held_in(mod, k, kind, ['y%d' % i for i in range(m)], dim, ld,
                     base, scale, env)
        C = k('coefficients', np.array(C0))
        k('list of handles', hs)
        k('list of handles', gs)
        vs = mod.vectorspace.VectorSpaceHandles(IP(), max_vecs_per_node=lim,
                                                verbosity=0)
        out = [mod.vectors.VecHandleInMemory() for _ in range(m)]
        if op in ('all', 'inner'):
            vs.compute_inner_product_array(hs, gs)
            k.mark()
        if op in ('all', 'symm'):
            vs.compute_symm_inner_product_array(hs)
            k.mark()
        if op in ('all', 'lin'):
            vs.lin_combine(out, hs, C)
            k.mark()
            idx = k('indices', [m - 1])
            vs.lin_combine(out[:1], hs, C, coeff_array_col_indices=idx)
            k.mark()
        if op in ('all', 'derivs') and n == m:
            mod.ltigalerkinproj.compute_derivs_handles(
                hs, gs, out, k('dt', [env.pos('dt')])[0])
            k.mark()
        return k
    for r, k in enumerate(hh.run_ranks(env, P, go,
                                       hosts=hh.hosts_of(P, nodes))):
        k.check()


def held_in(mod, k, kind, names, dim, ld, base, scale, env):
    H = mod.vectors.VecHandleInMemory

    def vec(name):
        x = [env.scal('%s_%d' % (name, i), ld) for i in range(dim)]
        return k('vector', env.array(x, ld) if kind == 'array' else IVec(x))
    b = H(vec('base')) if base else None
    s = None if not scale else env.real('scale')
    return [H(vec(n), base_vec_handle=b, scale=s) for n in names]


def sanity(env, kind, ld, base, scale):
    k = Kept(env)
    h, = held_in(env.m, k, kind, ['x'], 2, ld, base, scale, env)
    vs = env.m.vectorspace.VectorSpaceHandles(IP(), verbosity=0)
    try:
        vs.sanity_check(h)
        k.mark()
    except ValueError:
        pass
    env.m.vectors.InnerProductTrapz(k('grid', np.array([0., .5])))
    k.mark()
    k.check()


def trapz(env, ld, form):
    k = Kept(env)
    g = k('grid', given(form, env.array([env.real('g%d' % i)
                                         for i in range(2)])))
    h = k('grid', given(form, env.array([env.real('h%d' % i)
                                         for i in range(2)])))
    ip = env.m.vectors.InnerProductTrapz(g, h)
    x, y = (k('vector', mat(env, n, 2, 2, ld)) for n in 'xy')
    ip(x, y)
    k.mark()
    ip.inner_product(x, y)
    k.mark()
    env.m.vectors.inner_product_array_uniform(x, y)
    k.mark()
    k.check()


def classes(env, f, P, kind, ld, limit=10):
    """POD, BPOD, DMD and Galerkin projections with handles."""
    n = 2

    if env.sym:
        env.deterministic()

    def go(rank, mod):
        k = Kept(env)
        names = ['x%d' % i for i in range(n)]
        hs = k('list of handles', held_in(mod, k, kind, names, 2, ld, False,
                                          False, env))
        gs = k('list of handles', held_in(
            mod, k, kind, ['y%d' % i for i in range(n)], 2, ld, False, False,
            env))
        idx = k('mode indices', [1, 0])

        def out(j=1):
            return [mod.vectors.VecHandleInMemory() for _ in range(j)]
        saved = []
        kw = dict(max_vecs_per_node=limit, verbosity=0,
                  put_array=lambda a, d: saved.append(a))
        r = Kept(env)
        try:
            if f == 'pod':
                p = mod.pod.PODHandles(inner_product=IP(), **kw)
                r('decomposition', list(p.compute_decomp(hs)))
                k.mark()
                p.compute_modes(idx, out(2))
                k.mark()
                p.compute_modes(idx, out(2), vec_handles=hs)
                k.mark()
                p.compute_proj_coeffs()
                k.mark()
                p.put_decomp('a', 'b')
                k.mark()
                p.put_correlation_array('c')
                k.mark()
            elif f == 'bpod':
                p = mod.bpod.BPODHandles(inner_product=IP(), **kw)
                r('decomposition', list(p.compute_decomp(hs, gs)))
                k.mark()
                p.compute_direct_modes(idx, out(2))
                k.mark()
                p.compute_adjoint_modes(idx, out(2))
                k.mark()
                p.compute_direct_proj_coeffs()
                k.mark()
                p.compute_adjoint_proj_coeffs()
                k.mark()
                p.put_decomp('a', 'b', 'c')
                k.mark()
                p.put_Hankel_array('c')
                k.mark()
            elif f in ('dmd', 'tlsqr'):
                p = (mod.dmd.DMDHandles if f == 'dmd' else
                     mod.dmd.TLSqrDMDHandles)(inner_product=IP(), **kw)
                r('decomposition', list(p.compute_decomp(
                    hs, adv_vec_handles=gs)))
                k.mark()
                p.compute_exact_modes(idx, out(2))
                k.mark()
                p.compute_proj_modes(idx, out(2))
                k.mark()
                p.compute_adjoint_modes(idx, out(2))
                k.mark()
                p.compute_spectrum()
                k.mark()
                p.compute_proj_coeffs()
                k.mark()
            else:
                del kw['put_array']
                B = k('B', held_in(mod, k, kind, ['b'], 2, ld, False, False,
                                   env))
                C = k('C', [env.array([env.scal('c%d' % i, ld)], ld)
                            for i in range(n)])
                A = k('A', held_in(mod, k, kind,
                                   ['a%d' % i for i in range(n)], 2, ld,
                                   False, False, env))
                p = mod.ltigalerkinproj.LTIGalerkinProjectionHandles(
                    IP(), hs, adjoint_basis_vec_handles=gs
                    if f != 'galerkin' else None,
                    is_basis_orthonormal=f == 'orthonormal', **kw)
                p.compute_model(A, B, C)
                k.mark()
        except (np.linalg.LinAlgError, IndexError, ZeroDivisionError):
            pass
        return k, r
    for k, r in hh.run_ranks(env, P, go):
        k.check()
        r.check(' by later steps')


def reductions(env, P, what):
    """Values given to the reductions."""
    def go(rank, m):
        k = Kept(env)
        cc = m.parallel.custom_comm
        x = k('list', [env.real('x%d_%d' % (rank, i)) for i in range(2)])
        a = k('array', env.array([env.real('a%d_%d' % (rank, i))
                                  for i in range(2)], 'f'))
        for v, op in ((x, m.util.sum_lists), (a, m.util.sum_arrays)):
            if what == 'reduce':
                cc.reduce(v, op=op)
                k.mark()
            else:
                getattr(cc, what)(v, op=op)
                k.mark()
        m.parallel.bcast(x)
        k.mark()
        m.parallel.bcast(a)
        k.mark()
        return k
    for k in hh.run_ranks(env, P, go):
        k.check()


def scenarios(tier):
    out = []
    q = tier == 'quick'
    fs = ('compute_POD_arrays_snaps_method', 'compute_POD_arrays_direct_method',
          'bpod', 'compute_DMD_arrays_snaps_method',
          'compute_DMD_arrays_direct_method',
          'compute_TLSqrDMD_arrays_snaps_method',
          'compute_TLSqrDMD_arrays_direct_method')
    for f in fs:
        for form, ld, w in (('array', 'f', 'none'), ('array', 'f', '1d'),
                            ('list', 'f', 'none'), ('array', 'c', '1d'),
                            ('array', 'f', '2d'), ('fortran', 'f', '1d'),
                            ('array', 'i', 'none'),
                            ('array', 'f', '1dlist'), ('list', 'c', '2d')):
            for adv in ((False, True) if 'DMD' in f else (False,)):
                m = 2 if adv or 'DMD' not in f else 3
                if 'TLSqr' in f and (q or ld == 'c'):
                    m -= 1
                if 'TLSqr' in f and 'snaps' in f and q and ld != 'f':
                    continue
                if w == '1dlist' and 'direct' in f:
                    continue            # documented as an array
                out.append((decomposition, dict(
                    f=f, n=2, m=m, ld=ld, form=form, w=w, adv=adv)))
        out.append((decomposition, dict(f=f, n=2, m=2, ld='f',
                                        form='array',
                                        w='none', mode='all')))
    for ld in 'fci':
        for form in ('array', 'list', 'fortran'):
            for w in ('none', '1d', '2d', '1dlist'):
                if form != 'array' and (ld != 'f' or w == '2d'):
                    continue
                out.append((space, dict(n=2, m=2, ld=ld, form=form, w=w)))
                for ortho, adj in ((True, False), (False, True),
                                   (False, False)):
                    if ld == 'i' and form != 'array':
                        continue
                    out.append((galerkin, dict(n=2, m=2 if ortho else 1,
                                               ld=ld, form=form, w=w,
                                               ortho=ortho, adj=adj)))
            for f in ('balanced', 'balanced all', 'lsim', 'impulse', 'eig',
                      'svd', 'eigh'):
                for n in (1, 2):
                    if f == 'impulse' and form == 'list':
                        continue
                    if n == 2 and f.startswith('balanced') and (
                            q or ld != 'f' or form == 'list'):
                        continue
                    if n == 2 and f == 'eigh' and q and (
                            ld != 'f' or form != 'array'):
                        continue
                    out.append((systems, dict(f=f, n=n, ld=ld, form=form)))
            out.append((utilities, dict(ld=ld, form=form)))
            out.append((text, dict(ld=ld, form=form)))
            for f in ('okid', 'sampled', 'function', 'class'):
                out.append((identification, dict(f=f, ld=ld, form=form)))
            if form != 'list':
                out.append((trapz, dict(ld=ld, form=form)))
    for kind in ('array', 'object'):
        for ld in 'fc':
            for base, scale in ((False, False), (True, False),
                                (False, True), (True, True)):
                out.append((sanity, dict(kind=kind, ld=ld, base=base,
                                         scale=scale)))
                out.append((operations, dict(P=1, nodes=1, kind=kind, n=2,
                                             m=2, ld=ld, base=base,
                                             scale=scale)))
        for P in (2, 3):
            for n, m in ((2, 2), (3, 3), (3, 1)):
                for op in ('inner', 'symm', 'lin', 'derivs'):
                    if op == 'derivs' and n != m or op == 'symm' and m == 1:
                        continue
                    out.append((operations, dict(
                        P=P, nodes=1 + (P + n) % 2, kind=kind, n=n, m=m,
                        ld='f', base=n == 3, scale=n == m, op=op)))
        for f in ('pod', 'bpod', 'dmd', 'tlsqr', 'galerkin', 'adjoint',
                  'orthonormal'):
            out.append((classes, dict(f=f, P=1, kind=kind, ld='f')))
            if f != 'tlsqr':
                out.append((classes, dict(f=f, P=1, kind=kind, ld='f',
                                          limit=3)))
            if f in ('pod', 'bpod', 'orthonormal'):
                out.append((classes, dict(f=f, P=2, kind=kind, ld='f')))
    for P in (1, 2, 3, 4):
        for what in ('reduce', 'allreduce', 'scan', 'exscan'):
            out.append((reductions, dict(P=P, what=what)))
    return out
