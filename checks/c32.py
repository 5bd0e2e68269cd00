"""C32 Galerkin projection."""
import numpy as np
from .common import REALS, NUMPY, MPI
from .linear import Hc, dot, Weights
from . import handles as hh
from .c23 import same_everywhere

BOUNDS = ('1..3 basis vectors (with weights: 1 or 2) of dimension 1..3 or of '
          'any vector space with any Hermitian inner product, 1..3 inputs '
          'and outputs, arbitrary real, complex or mixed entries; weights '
          'none, any positive 1D, any Hermitian positive definite 2D; 1..3 '
          'workers (thorough: 4) on 1..2 nodes, every integer memory limit '
          '>= 1; the reductions in any order')
OUTSIDE = 'larger bases; rounding; interleavings (C05)'
ASSUMPTIONS = [REALS, NUMPY, MPI,
               'numpy.linalg.inv and solve of an invertible array are exact']


def invertible(env, G):
    """Assume that the array is invertible."""
    if not env.sym:
        env.assume(np.linalg.cond(G) < 1e4)
        return
    k = len(G)
    if k == 1:
        d = G[0, 0]
    elif k == 2:
        d = G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]
    else:
        d = sum(G[0, i] * (G[1, (i + 1) % 3] * G[2, (i + 2) % 3] -
                           G[1, (i + 2) % 3] * G[2, (i + 1) % 3])
                for i in range(3))
    env.assume(d != 0)


def model(env, o, how, A, B, C):
    """Compute the model in one of several ways."""
    if how == 'model':
        r = o.compute_model(A, B, C)
    elif how == 'parts':
        r = o.reduce_A(A), o.reduce_B(B), o.reduce_C(C)
    elif how == 'again':
        o.compute_model(B, A, C)
        r = o.compute_model(A, B, C)
    else:
        c = o.reduce_C(C)
        b = o.reduce_B(B)
        r = o.reduce_A(A), b, c
    return list(r) + [o.A_reduced, o.B_reduced, o.C_reduced]


def claims(env, res, G, PA, PB, C, orth):
    k = len(G)
    Ar, Br, Cr = res[:3]
    sh = [(k, k), (k, PB.shape[1]), C.shape]
    ok = all(np.shape(x) == s for x, s in zip(res, sh + sh))
    env.true('shapes of the reduced arrays', ok, detail=str(
        [np.shape(x) for x in res]))
    if not ok:
        return
    env.eq('returned and stored arrays agree', res[:3], res[3:])
    env.eq('C_r = C Phi', Cr, C)
    if orth:
        env.eq('A_r = Psi* W A Phi for bases declared biorthonormal', Ar, PA)
        env.eq('B_r = Psi* W B for bases declared biorthonormal', Br, PB)
    else:
        env.eq('(Psi* W Phi) A_r = Psi* W A Phi', dot(G, Ar), PA)
        env.eq('(Psi* W Phi) B_r = Psi* W B', dot(G, Br), PB)


def arrays(env, n, k, p, q, ld, adjoint, orth, weights=None, how='model',
           form='array', lds=None):
    """``lds``: types of Phi, Psi, A, B, C (default: all ld)."""
    lds = lds or [ld] * 5

    def mat(name, a, b, t):
        if t == 'i':
            return env.array([[env.ireal('%s%d%d' % (name, i, j), -9, 9)
                               for j in range(b)] for i in range(a)], 'i')
        return env.tmat(name, a, b, t)
    w = Weights(env, weights, n, ld)
    Phi = mat('p', n, k, lds[0])
    Psi = mat('q', n, k, lds[1]) if adjoint else Phi
    A, B = mat('a', n, k, lds[2]), mat('b', n, p, lds[3])
    C = mat('c', q, k, lds[4])
    G = w.ip(Psi, Phi)
    if not orth:
        invertible(env, G)
    PA, PB = w.ip(Psi, A), w.ip(Psi, B)
    ins = [Phi, Psi, A, B, C]
    ref = [np.array(x) for x in ins]
    kw = dict(w.kw())
    f = (lambda x: x.tolist()) if form == 'list' else (lambda x: x)
    if adjoint:
        kw['adjoint_basis_vecs'] = f(Psi)
    if orth is not None:
        kw['is_basis_orthonormal'] = orth
    o = env.m.ltigalerkinproj.LTIGalerkinProjectionArrays(f(Phi), **kw)
    res = model(env, o, how, f(A), f(B), f(C))
    claims(env, res, G, PA, PB, ref[4], orth)
    for x, y in zip(ins, ref):
        env.eq('the arguments are not modified', x, y)


def handles(env, P, nodes, k, p, q, ld, adjoint, orth, how='model'):
    bk = ['p%d' % i for i in range(k)]
    ak = ['q%d' % i for i in range(k)] if adjoint else bk
    Ak = ['a%d' % i for i in range(k)]
    Bk = ['b%d' % i for i in range(p)]
    tab = {}
    if not adjoint:
        tab, _ = hh.herm_table(env, bk, ld)
    for x in ak:
        for y in (bk if adjoint else []) + Ak + Bk:
            z = env.scal('g_%s_%s' % (x, y), ld)
            tab[x, y], tab[y, x] = z, np.conj(z)
    for x, y in sorted(tab):
        env.assume(tab[x, y] != 0)

    def block(cols):
        return env.array([[tab[x, y] for y in cols] for x in ak], ld)
    G, PA, PB = block(bk), block(Ak), block(Bk)
    if not orth:
        invertible(env, G)
    C = env.tmat('c', q, k, ld)
    C0 = np.array(C)
    lim = env.int('limit', 1)
    st = hh.setup(env, P, sorted(set(bk + ak + Ak + Bk)))
    before = st.snapshot()

    def go(rank, m):
        kw = {}
        if adjoint:
            kw['adjoint_basis_vec_handles'] = st.handles(ak, rank)
        if orth is not None:
            kw['is_basis_orthonormal'] = orth
        o = m.ltigalerkinproj.LTIGalerkinProjectionHandles(
            hh.IP(tab), st.handles(bk, rank), verbosity=0,
            max_vecs_per_node=lim, **kw)
        return model(env, o, how, st.handles(Ak, rank),
                     st.handles(Bk, rank), [C[:, j] for j in range(k)])
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    same_everywhere(env, res)
    claims(env, res[0], G, PA, PB, C0, orth)
    env.true('nothing is put', not st.puts, detail=str(st.puts))
    env.true('vectors are unchanged', st.snapshot() == before)


def mismatched(env, P, cls, a, b):
    """Bases of different sizes."""
    if cls == 'arrays':
        X, Y = env.rmat('p', *a), env.rmat('q', *b)

    def go(rank, m):
        g = m.ltigalerkinproj
        try:
            if cls == 'arrays':
                g.LTIGalerkinProjectionArrays(X, adjoint_basis_vecs=Y)
            else:
                st = hh.setup(env, P, [])
                g.LTIGalerkinProjectionHandles(
                    hh.IP({}), st.handles('p%d' % i for i in range(a)),
                    adjoint_basis_vec_handles=st.handles(
                        'q%d' % i for i in range(b)), verbosity=0)
            return False
        except Exception:
            return True
    for r in hh.run_ranks(env, P, go):
        env.true('mismatched bases raise an error', r)


def parallel_arrays(env, P):
    X = env.rmat('p', 2, 1)

    def go(rank, m):
        try:
            m.ltigalerkinproj.LTIGalerkinProjectionArrays(X)
            return False
        except RuntimeError:
            return True
    for r in hh.run_ranks(env, P, go):
        env.true('arrays cannot be used by several workers', r == (P > 1))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    n = 0
    hows = ('model', 'parts', 'reverse', 'again')
    for orth in (False, True, None):
        for adjoint in (False, True):
            for ld in 'fc':
                for w in (None, '1d', '2d'):
                    for nx, k, p, r in ((1, 1, 1, 1), (2, 2, 1, 2),
                                        (3, 2, 3, 1), (3, 1, 2, 3)):
                        if w and nx == 3 and k == 2 and ld == 'c' and q:
                            continue
                        if orth is None and nx == 3:
                            continue
                        n += 1
                        out.append((arrays, dict(
                            n=nx, k=k, p=p, q=r, ld=ld, adjoint=adjoint,
                            orth=orth, weights=w, how=hows[n % 4],
                            form='list' if n % 5 == 0 and not w else
                            'array')))
    for lds in ('fcfff', 'cffff', 'ffcff', 'ffffc', 'fffcf', 'iiiii',
                'iffff', 'ffiii', 'cccff'):
        for adjoint in (False, True):
            out.append((arrays, dict(n=2, k=2, p=1, q=1, ld='f',
                                     adjoint=adjoint, orth=False,
                                     lds=list(lds))))
    for nx, k in ((3, 3), (4, 2)):
        out.append((arrays, dict(n=nx, k=k, p=1, q=1, ld='f', adjoint=True,
                                 orth=False)))
    for P in (1, 2, 3) if q else (1, 2, 3, 4):
        for orth in (False, True, None):
            for adjoint in (False, True):
                for ld in 'fc':
                    for k, p, r in ((1, 1, 1), (2, 1, 2), (2, 3, 1),
                                    (3, 2, 1)):
                        if k == 3 and (q and (P == 3 or ld == 'c') or
                                       orth is None):
                            continue
                        if orth is None and P > 1:
                            continue
                        n += 1
                        out.append((handles, dict(
                            P=P, nodes=1 + (P > 1 and n % 2), k=k, p=p, q=r,
                            ld=ld, adjoint=adjoint, orth=orth,
                            how=hows[n % 4])))
    for P in (1, 2, 3):
        for a, b in ((1, 2), (2, 1), (3, 2)):
            out.append((mismatched, dict(P=P, cls='handles', a=a, b=b)))
        out.append((parallel_arrays, dict(P=P)))
    for a, b in (((2, 2), (2, 1)), ((2, 2), (3, 2)), ((1, 2), (2, 1)),
                 ((3, 1), (3, 2))):
        out.append((mismatched, dict(P=1, cls='arrays', a=a, b=b)))
    return out
