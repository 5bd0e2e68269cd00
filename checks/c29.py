"""C29 total-least-squares DMD with handles."""
import numpy as np
from .common import REALS, LAPACK, NUMPY, MPI
from .linear import Hc, dot, svals, unitary
from . import handles as hh
from .c15 import keep
from .c23 import same_everywhere
from .c25 import put_modes
from .c27 import tolerances, inconsistent
from .dmdlib import low_map, decomposition, builders, coefficients

BOUNDS = ('1..3 vectors (sequential: one more; 3 vectors: at most 1 kept) of '
          'any vector space with any Hermitian inner product whose '
          'correlation arrays have non-zero entries (others: C03), sum '
          'correlation arrays of any rank with distinct non-zero '
          'eigenvalues, projected ones of rank up to 2; low-order maps with '
          'distinct non-zero eigenvalues (real or complex); 1..4 workers on '
          '1..2 nodes, every integer memory limit >= 1; any real tolerances, '
          'every limit on the number of eigenvalues; mode index lists with '
          'any order, subsets, repetitions')
OUTSIDE = ('more vectors or workers; projected rank above 2; equal non-zero '
           'eigenvalues; rounding; interleavings (C05)')
ASSUMPTIONS = [REALS, LAPACK, NUMPY, MPI,
               'in the encoding the inner products are free numbers and the '
               'decompositions of the sum and projected correlation arrays '
               'and of the low-order map any unitary or invertible arrays '
               'and numbers (a superset of the real cases)']


def numeric_eigh(env, M, r):
    E, V = np.linalg.eigh(M)
    E, V = E[::-1], V[:, ::-1]
    env.assume(E[r - 1] > 1e-3 and E[0] < 1e4)
    for i in range(1, r):
        env.assume(E[i - 1] > E[i] * (1 + 1e-3))
    return [x ** 0.5 for x in E[:r]], V


class Problem(object):
    """Vectors x (and y), inner products, decompositions."""

    def __init__(self, env, n, r, ld, seq, name=''):
        self.env, self.n, self.r, self.ld, self.seq = env, n, r, ld, seq
        self.name = name
        self.xk = ['x%s%d' % (name, i) for i in range(n + seq)]
        self.yk = self.xk[1:] if seq else ['y%s%d' % (name, i) for i in range(n)]
        keys = self.xk if seq else self.xk + self.yk
        if env.sym or not seq:
            self.t = svals(env, r, 't' + name)
            self.V = unitary(env, 'tv' + name, n, ld, left=False)
        if env.sym:
            self.tab, _ = hh.herm_table(env, keys, ld)
            for k in keys:
                for l in keys:
                    env.assume(self.tab[k, l] != 0)
        elif seq:
            D = env.tmat('d' + name, n + 1, n + 1, ld)
            G = dot(Hc(D), D)
            self.tab = {(a, b): G[i, j] for i, a in enumerate(keys)
                        for j, b in enumerate(keys)}
        if env.sym or seq:
            self.C = self.block(self.xk[:n], self.xk[:n])
            self.M = self.block(self.xk[:n], self.yk)
            self.A = self.block(self.yk, self.yk)
            S = self.C + self.A
            if env.sym:
                env.register_eigh(S, self.V, [x ** 2 for x in self.t]
                                  + [0] * (n - r))
            else:
                self.t, self.V = numeric_eigh(env, S, r)

    def block(self, rows, cols):
        return self.env.array([[self.tab[a, b] for b in cols] for a in rows],
                              self.ld)

    def project(self, q, name='', main=True):
        """Decomposition of the correlation array projected on q
        directions."""
        env, n, V = self.env, self.n, self.V
        name = self.name + name
        Vq = V[:, :q]
        Pq = dot(Vq, Hc(Vq))
        if env.sym or not self.seq:
            s = svals(env, q, 's' + name)
            T = unitary(env, 'v' + name, q, self.ld, left=False)
            Vp = dot(Vq, T)
            E = [x ** 2 for x in s]
            R = dot(Vp, env.diag(E), Hc(Vp))
        if env.sym:
            env.register_eigh(dot(Pq, self.C, Pq), np.hstack([Vp, V[:, q:]]),
                              E + [0] * (n - q))
        elif self.seq:
            s, F = numeric_eigh(env, dot(Pq, self.C, Pq), q)
            Vp = F[:, :q]
            R = dot(Vp, np.diag([x ** 2 for x in s]), Hc(Vp))
        elif main:
            # arrays of inner products with these decompositions
            self.C = R
            if q < n:
                B = env.tmat('b' + name, q, n - q, self.ld)
                D = env.tmat('h' + name, n - q, n - q, self.ld)
                B = dot(Vq, B, Hc(V[:, q:]))
                D = dot(V[:, q:], D + Hc(D), Hc(V[:, q:]))
                self.C = R + B + Hc(B) + D
            self.A = dot(V[:, :self.r], env.diag([x ** 2 for x in self.t]),
                         Hc(V[:, :self.r])) - self.C
            self.M = env.tmat('m' + name, n, n, self.ld)
            self.tab = hh.table(self.xk, self.xk, self.C)
            self.tab.update(hh.table(self.xk, self.yk, self.M))
            self.tab.update(hh.table(self.yk, self.yk, self.A))
        return s, Vp, Pq, R

    def reduce(self, k, s, Vp, Pq, kind, name=''):
        VS = Vp[:, :k] * self.env.array([1 / x for x in s[:k]], 'f')
        PMP = dot(Pq, self.M, Pq)
        return low_map(self.env, dot(Hc(VS), PMP, VS), kind,
                       self.name + name), PMP


def tls(env, P, nodes, n, r, ld, seq, kind=None, idx=None, new=False, tol='',
        limit=None, how='decomp'):
    pr = Problem(env, n, r, ld, seq)
    xk, yk, V, t = pr.xk, pr.yk, pr.V, pr.t
    un = ['u%d' % i for i in range(len(xk))] if new else xk
    vn = (un[1:] if seq else ['v%d' % i for i in range(n)]) if new else yk
    st = hh.setup(env, P, sorted(set(xk + yk + un + vn)))
    lim = env.int('limit', 1)
    tk = tolerances(env, tol)
    q = keep(env, [x ** 2 for x in t], t[0] ** 2, tk) if tol else r
    if limit is not None:
        tk['max_num_eigvals'] = limit
        q = min(q, limit)
    if q == 0 or q > 2:
        return
    s, Vp, Pq, Rp = pr.project(q)
    k = keep(env, [x ** 2 for x in s], s[0] ** 2, tk) if tol else q
    if k == 0 or idx is not None and max(idx) >= k:
        return
    idx = list(range(k)) if idx is None else idx
    Kr, PMP = pr.reduce(k, s, Vp, Pq, kind or ld)
    if how == 'again' and env.sym and q < r:
        f = pr.project(r, 'f', False)
        pr.reduce(r, *f[:3], kind or ld, 'f')
    elif how == 'again' and env.sym and k < q:
        pr.reduce(q, s, Vp, Pq, kind or ld, 'f')
    Rs = dot(V[:, :r], env.diag([x ** 2 for x in t]), Hc(V[:, :r]))
    C, M, A = pr.C, pr.M, pr.A
    C0, M0, A0 = np.array(C), np.array(M), np.array(A)
    ip = hh.IP(pr.tab)
    mk = {w: [w + str(i) for i in range(len(idx))] for w in ('e', 'p', 'a')}

    def go(rank, m):
        d = m.dmd.TLSqrDMDHandles(inner_product=ip, max_vecs_per_node=lim,
                                  verbosity=0)
        ret = None
        if how == 'existing':
            d.correlation_array = C
            d.cross_correlation_array = M
            d.adv_correlation_array = A
            d.compute_eigendecomp(**tk)
        else:
            akw = {} if seq else dict(adv_vec_handles=st.handles(yk, rank))
            ret = d.compute_decomp(st.handles(xk, rank),
                                   **dict(akw, **({} if how == 'again' else
                                                  tk)))
            if how == 'again':
                d.compute_eigendecomp(**tk)
                ret = None
        pk = dict(vec_handles=st.handles(un, rank)) \
            if new or how == 'existing' else {}
        ek = dict(adv_vec_handles=st.handles(vn, rank)) \
            if (new or how == 'existing') and not seq else {}
        d.compute_proj_modes(idx, st.handles(mk['p'], rank), **pk)
        d.compute_adjoint_modes(idx, st.handles(mk['a'], rank), **pk)
        d.compute_exact_modes(idx, st.handles(mk['e'], rank), **ek)
        sp = d.compute_spectrum()
        pc, ac = d.compute_proj_coeffs()
        dec = (d.eigvals, d.R_low_order_eigvecs, d.L_low_order_eigvecs,
               d.sum_correlation_array_eigvals,
               d.sum_correlation_array_eigvecs,
               d.proj_correlation_array_eigvals,
               d.proj_correlation_array_eigvecs)
        return [list(dec), [sp, pc, ac, d.correlation_array,
                            d.cross_correlation_array,
                            d.adv_correlation_array,
                            d.sum_correlation_array,
                            d.proj_correlation_array],
                [d.spectral_coeffs, d.proj_coeffs, d.adv_proj_coeffs],
                list(dec if ret is None else ret)]
    res = hh.run_ranks(env, P, go, hosts=hh.hosts_of(P, nodes))
    same_everywhere(env, [r[0] + r[1] for r in res])
    dec, (sp, pc, ac, corr, cross, adv, total, proj), stored, ret = res[0]
    env.eq('returned and stored results agree', ret + [sp, pc, ac],
           dec + stored)
    ok = all(np.shape(x) == (n, n) for x in (corr, cross, adv, total, proj))
    env.true('shapes of the correlation arrays', ok)
    if not ok:
        return
    env.eq('correlation array', corr, C0)
    env.eq('cross-correlation array', cross, M0)
    env.eq('correlation array of the advanced data', adv, A0)
    env.eq('sum correlation array', total, C0 + A0)
    env.eq('projected correlation array', proj, dot(Pq, C0, Pq))
    d = dict(zip(('eigvals', 'R', 'L', 'se', 'sv', 'ce', 'cv'), dec))
    ok = np.shape(d['se']) == (q,) and np.shape(d['sv']) == (n, q)
    env.true('as many directions of the stacked data are kept as are above '
             'the tolerances and the limit', ok, detail='%s %s, expected %d'
             % (np.shape(d['se']), np.shape(d['sv']), q))
    if not ok:
        return
    env.eq('eigenvalues of the sum correlation array, descending', d['se'],
           [x ** 2 for x in t[:q]])
    env.eq('eigenvectors of the sum correlation array', dot(Rs, d['sv']),
           d['sv'] * d['se'])
    env.eq('orthonormal eigenvectors of the sum correlation array',
           dot(Hc(d['sv']), d['sv']), np.eye(q))
    if not decomposition(env, k, n, s, Vp, Rp, PMP, Kr, d,
                         'projected correlation array'):
        return
    pb, eb, ab = builders(env, k, s, d)
    for w, keys, want, what in (
            ('e', vn, eb, 'exact mode'),
            ('p', un[:n], pb, 'projected mode'),
            ('a', un[:n], ab, 'adjoint mode')):
        got = put_modes(env, st, keys, mk[w], what)
        if got is not None:
            env.eq('%ss of the requested indices are the combinations that '
                   'define them' % what, got, dot(Pq, want)[:, idx])
    env.true('nothing else is put', len(st.puts) == 3 * len(idx),
             detail=str(st.puts))
    coefficients(env, k, n, Rp, PMP, ab,
                 dict(spectral=sp, proj=pc, adv=ac))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for seq in (False, True):
        for P in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            for n, r in ((1, 1), (2, 1)):
                if seq and r < n:
                    continue
                for ld in 'fc':
                    out.append((tls, dict(P=P, nodes=1, n=n, r=r, ld=ld,
                                          seq=seq)))
            for kind in ('f', 'pair', 'c'):
                if q and P == 3 and kind == 'c':
                    continue
                out.append((tls, dict(P=P, nodes=min(P, 2), n=2, r=2,
                                      ld='c' if kind == 'c' else 'f',
                                      kind=kind, seq=seq)))
            if not q or P < 3:
                out.append((tls, dict(P=P, nodes=1, n=3,
                                      r=3, ld='f', seq=seq, limit=1)))
                if not seq:
                    out.append((tls, dict(P=P, nodes=1, n=3,
                                          r=1, ld='f', seq=seq)))
            for idx in ([1], [1, 0], [0, 0, 1]):
                out.append((tls, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                      kind='pair', seq=seq, idx=idx)))
        for P in (1, 2):
            out.append((tls, dict(P=P, nodes=P, n=2, r=2, ld='c', kind='c',
                                  seq=seq, idx=[1, 0], new=True)))
            for limit in (1, 2, 3):
                for how in ('decomp', 'again', 'existing'):
                    out.append((tls, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                          kind='pair', seq=seq, how=how,
                                          limit=limit)))
            out.append((tls, dict(P=P, nodes=1, n=2, r=2, ld='c',
                                  kind='c', seq=seq, how='decomp',
                                  limit=1)))
            for tol in ('a', 'r', 'ar'):
                for how in ('decomp', 'again', 'existing'):
                    if q and how != 'decomp' and tol != 'ar':
                        continue
                    out.append((tls, dict(P=P, nodes=1, n=2, r=2, ld='f',
                                          kind='f', seq=seq, how=how,
                                          tol=tol, limit=1 if P == 2 and
                                          tol == 'a' else None)))
        out.append((tls, dict(P=4, nodes=2, n=2, r=2, ld='f', kind='pair',
                              seq=seq)))
        if not q:
            out.append((tls, dict(P=1, nodes=1, n=3, r=2, ld='f', kind='nf',
                                  seq=seq)))
            out.append((tls, dict(P=2, nodes=1, n=3, r=3, ld='f',
                                  kind='pair', seq=seq, limit=2)))
    cls = 'TLSqrDMDHandles'
    for P in (1, 2):
        for nx, ny in ((2, 1), (1, 2), (3, 2), (2, 3)):
            out.append((inconsistent, dict(P=P, what='decomp', nx=nx,
                                           ny=ny, cls=cls)))
        for nx, ny in ((None, None), (2, None), (4, None), (3, 3), (2, 1)):
            out.append((inconsistent, dict(P=P, what='exact', nx=nx, ny=ny,
                                           cls=cls)))
        for what in ('proj', 'adjoint'):
            for nx in (1, 4):
                out.append((inconsistent, dict(P=P, what=what, nx=nx,
                                               ny=None, cls=cls)))
    return out
