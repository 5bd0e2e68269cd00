"""C25 BPOD with handles."""
import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI
from .linear import Hc, dot, Q, rebuilt
from . import handles as hh
from .c15 import keep
from .c23 import same_everywhere
from .c24 import decomp, builders, biorthogonal

BOUNDS = ('1..3 inputs and outputs, 1..3 time steps, Hankel arrays up to '
          '4 x 4 with arbitrary real or complex blocks (or of rank 1), '
          'vectors of any space; 1..4 workers on 1..3 nodes, every integer '
          'memory limit >= 1; any real tolerances; mode index lists with any '
          'order, subsets, repetitions')
OUTSIDE = ('more vectors or workers; equal non-zero singular values; data '
           'that are not impulse responses; rounding; interleavings (C05)')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI,
               'in the encoding the inner products are free numbers (in '
               'Hankel blocks) and the decomposition of their array any '
               'unitary arrays and numbers (a superset of the real cases)']


def blocks(env, p, q, T1, T2, ld, rank1, name=''):
    """Blocks h[k], Hankel array."""
    if rank1:
        a = env.scal('a', ld)
        c = [env.scal('c%d' % i, ld) for i in range(q)]
        b = [env.scal('b%d' % j, ld) for j in range(p)]
        h = [[[c[i] * (a ** k if k else 1) * b[j] for j in range(p)]
              for i in range(q)] for k in range(T1 + T2 - 1)]
    else:
        h = [[[env.scal('h%s%d_%d%d' % (name, k, i, j), ld) for j in range(p)]
              for i in range(q)] for k in range(T1 + T2 - 1)]
    H = env.array([[h[I + J][i][j] for J in range(T1) for j in range(p)]
                   for I in range(T2) for i in range(q)], ld)
    return H


def put_modes(env, st, keys, mk, what):
    env.true('every %s handle receives exactly one vector' % what,
             all(sum(k == z for _, k in st.puts) == 1 for z in mk),
             detail=str(st.puts))
    if not all(k in st.val for k in mk):
        return None
    env.true('%ss are combinations of the given vectors' % what,
             all(set(st.val[k]) <= set(keys) for k in mk))
    return env.array([[st.val[k].get(x, 0) for k in mk] for x in keys], 'c')


def bpod(env, P, nodes, p, q, T1, T2, ld, didx=None, aidx=None, new='',
         tol=None, how='decomp', rank1=False):
    nd, na = p * T1, q * T2
    xk = ['x%d' % i for i in range(nd)]
    yk = ['y%d' % i for i in range(na)]
    xn = ['u%d' % i for i in range(nd)] if 'd' in new else xk
    yn = ['v%d' % i for i in range(na)] if 'a' in new else yk
    st = hh.setup(env, P, set(xk + yk + xn + yn))
    H = blocks(env, p, q, T1, T2, ld, rank1)
    r = 1 if rank1 else min(nd, na)
    s, U, V, R = rebuilt(env, H, r)
    ip = hh.IP(hh.table(yk, xk, H))
    lim = env.int('limit', 1)
    tk = {}
    if tol is not None:
        if 'a' in tol:
            tk['atol'] = env.real('atol', lo=Q(1, 10**4))
        if 'r' in tol:
            tk['rtol'] = env.real('rtol', lo=Q(1, 10**4))
    k = keep(env, s[:r], s[0], tk) if tol else r
    didx = list(range(k)) if didx is None else didx
    aidx = list(range(k)) if aidx is None else aidx
    if k == 0 or max(didx + aidx) >= k:
        return
    H0 = np.array(H)
    dk = ['d%d' % i for i in range(len(didx))]
    ak = ['a%d' % i for i in range(len(aidx))]

    def go(rank, m):
        b = m.bpod.BPODHandles(inner_product=ip, max_vecs_per_node=lim,
                               verbosity=0)
        dkw, akw = {}, {}
        if how == 'decomp':
            kw = dict(tk)
            if p > 1:
                kw['num_inputs'] = p
            if q > 1:
                kw['num_outputs'] = q
            ev, L, Rv = b.compute_decomp(st.handles(xk, rank),
                                         st.handles(yk, rank), **kw)
        else:
            b.Hankel_array = H
            b.compute_SVD(**tk)
            ev, L, Rv = b.sing_vals, b.L_sing_vecs, b.R_sing_vecs
        if how != 'decomp' or 'd' in new:
            dkw = dict(direct_vec_handles=st.handles(xn, rank))
        if how != 'decomp' or 'a' in new:
            akw = dict(adjoint_vec_handles=st.handles(yn, rank))
        b.compute_direct_modes(didx, st.handles(dk, rank), **dkw)
        b.compute_adjoint_modes(aidx, st.handles(ak, rank), **akw)
        cd = b.compute_direct_proj_coeffs()
        ca = b.compute_adjoint_proj_coeffs()
        return [b.Hankel_array, L, ev, Rv, cd, ca, b.L_sing_vecs,
                b.sing_vals, b.R_sing_vecs, b.direct_proj_coeffs,
                b.adjoint_proj_coeffs]
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    same_everywhere(env, res)
    H1, L, ev, Rv, cd, ca = res[0][:6]
    env.eq('returned and stored results agree', res[0][1:6], res[0][6:])
    if not decomp(env, H0, R, s, U, V, k, H1, L, ev, Rv):
        return
    Td, Ta = builders(env, L, ev, Rv, s, k)
    biorthogonal(env, R, Td, Ta, k)
    D = put_modes(env, st, xn, dk, 'direct mode')
    A = put_modes(env, st, yn, ak, 'adjoint mode')
    if D is None or A is None:
        return
    env.true('nothing else is put', len(st.puts) == len(dk) + len(ak),
             detail=str(st.puts))
    env.eq('direct modes are the combinations X V E^(-1/2) of the requested '
           'indices', D, Td[:, didx])
    env.eq('adjoint modes are the combinations Y U E^(-1/2) of the requested '
           'indices', A, Ta[:, aidx])
    env.true('shapes of the coefficients', np.shape(cd) == (k, nd) and
             np.shape(ca) == (k, na))
    if np.shape(cd) == (k, nd) and np.shape(ca) == (k, na):
        env.eq('direct coefficients are the inner products of adjoint modes '
               'with direct vectors', cd, dot(Hc(Ta), R))
        env.eq('adjoint coefficients are the inner products of direct modes '
               'with adjoint vectors', ca, dot(Hc(Td), Hc(R)))


def undefined(env, P, first):
    """Modes without vectors."""
    H = env.array([[env.real('h')]], 'f')
    rebuilt(env, H, 1)

    def go(rank, m):
        st = hh.Store(P)
        out = []
        for what in ('direct', 'adjoint'):
            b = m.bpod.BPODHandles(verbosity=0, max_vecs_per_node=10)
            b.Hankel_array = H
            b.compute_SVD()
            try:
                getattr(b, 'compute_%s_modes' % what)(
                    [0], st.handles(['m'], rank))
                out.append(False)
            except m.util.UndefinedError:
                out.append(True)
            out.append(not st.puts)
        return out
    res = hh.run_ranks(env, P, go)
    env.true('modes without vectors raise an error', all(
        all(r) for r in res), detail=str(res))


def repeated(env, P, ld):
    """Adjoint modes first, one by one, again with other handles."""
    xk, yk = ['x0', 'x1'], ['y0', 'y1']
    st = hh.setup(env, P, xk + yk)
    H = blocks(env, 1, 1, 2, 2, ld, False)
    s, U, V, R = rebuilt(env, H, 2)
    ip = hh.IP(hh.table(yk, xk, H))
    lim = env.int('limit', 1)

    def go(rank, m):
        b = m.bpod.BPODHandles(inner_product=ip, max_vecs_per_node=lim,
                               verbosity=0)
        b.compute_decomp(st.handles(xk, rank), st.handles(yk, rank))
        for i in (1, 0):
            b.compute_adjoint_modes([i], st.handle('a%d' % i, rank))
            b.compute_direct_modes([i], st.handle('d%d' % i, rank))
            b.compute_adjoint_proj_coeffs()
            b.compute_direct_proj_coeffs()
        b.compute_direct_modes([0, 1], st.handles(['e0', 'e1'], rank))
        b.compute_adjoint_modes([0, 1], st.handles(['b0', 'b1'], rank))
        return [b.L_sing_vecs, b.sing_vals, b.R_sing_vecs,
                b.direct_proj_coeffs, b.adjoint_proj_coeffs]
    res = hh.run_ranks(env, P, go)
    same_everywhere(env, res)
    L, ev, Rv, cd, ca = res[0]
    Td, Ta = builders(env, L, ev, Rv, s, 2)
    D = put_modes(env, st, xk, ['d0', 'd1', 'e0', 'e1'], 'direct mode')
    A = put_modes(env, st, yk, ['a0', 'a1', 'b0', 'b1'], 'adjoint mode')
    if D is not None and A is not None:
        for j in (0, 2):
            env.eq('direct modes', D[:, j:j + 2], Td)
            env.eq('adjoint modes', A[:, j:j + 2], Ta)
    env.eq('coefficients', [cd, ca], [dot(Hc(Ta), R), dot(Hc(Td), Hc(R))])


def scenarios(tier):
    out = []
    q = tier == 'quick'
    names = ('p', 'q', 'T1', 'T2')
    small = [(1, 1, 1, 1), (1, 1, 2, 2), (2, 1, 1, 2), (1, 2, 2, 1),
             (2, 2, 1, 1), (1, 1, 3, 2), (1, 1, 2, 3), (1, 2, 3, 1),
             (2, 1, 1, 3)]
    big = [(2, 1, 2, 2), (1, 2, 2, 2), (2, 2, 2, 2), (2, 2, 1, 2),
           (2, 2, 2, 1), (1, 1, 4, 2), (1, 1, 2, 4)]
    for P in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for z in small + big:
            if q and P == 3 and z in small[5:]:
                continue
            for ld in 'fc':
                if q and ld == 'c' and (z in big or z in small[5:] or P == 3):
                    continue
                out.append((bpod, dict(zip(names, z), P=P, nodes=1, ld=ld)))
        for d, a in (([1], None), (None, [1]), ([1, 0], [0]),
                     ([0, 0, 1], [1, 0])):
            out.append((bpod, dict(P=P, nodes=min(P, 2), p=1, q=1, T1=2, T2=2,
                                   ld='c', didx=d, aidx=a,
                                   new='' if d is None else 'da')))
        for new in ('d', 'a', 'da'):
            out.append((bpod, dict(P=P, nodes=P, p=1, q=1, T1=2, T2=2,
                                   ld='c', new=new)))
        out.append((bpod, dict(P=P, nodes=1, p=2, q=1, T1=1, T2=3, ld='f',
                               how='svd')))
        out.append((repeated, dict(P=P, ld='c')))
    for P in (1, 2):
        for tol in ('a', 'r', 'ar'):
            for how in ('decomp', 'svd'):
                out.append((bpod, dict(P=P, nodes=1, p=1, q=1, T1=2, T2=2,
                                       ld='f', tol=tol, how=how)))
        out.append((undefined, dict(P=P, first='direct')))
        out.append((bpod, dict(P=P, nodes=1, p=1, q=1, T1=2, T2=2, ld='c',
                               rank1=True)))
        out.append((bpod, dict(P=P, nodes=1, p=2, q=1, T1=2, T2=3, ld='f',
                               rank1=True)))
    out.append((bpod, dict(P=4, nodes=2, p=1, q=1, T1=2, T2=2, ld='c')))
    return out
