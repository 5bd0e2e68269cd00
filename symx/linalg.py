"""Contract stubs for the numerical kernels (LAPACK and friends).

A harness registers, on the path context, the decompositions of the matrices
it builds (the matrix is *constructed* from a symbolic decomposition, so the
registered factors are exact).  A stub recognises its argument (numeric
prefilter, then an exact symbolic identity) and returns the registered factors
with fresh, arbitrary column phases: anything a correct kernel may return.
Arguments that are not recognised give opaque values (an over-approximation of
the kernel: unconstrained for the solver, evaluated with the real kernel when a
counterexample is looked for)."""
import itertools
import random
import types

import numpy as np
import scipy.linalg

from . import scalar
from . import ctx as _ctx
from .arr import SymArray, as_sym, wrap, unwrap, obj, _arr_ld, promote, sym_map
from .scalar import (S, Unsupported, lift, ZERO, ONE, Valuation, EvalError,
                     is_zero_s)


# ----------------------------------------------------------------- helpers
def mul(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = np.dot(r, m)
    return r


def H(a):
    return np.conjugate(a).T


def arr2(a):
    a = as_sym(a) if not isinstance(a, SymArray) else a
    return a


def same(a, b):
    """Exact symbolic equality of two arrays (numeric prefilter first)."""
    if a.shape != b.shape:
        return False
    x, y = unwrap(a), unwrap(b)
    v = probe()
    try:
        for i in np.ndindex(*a.shape):
            p, q = v(x[i]), v(y[i])
            if abs(p - q) > 1e-7 * max(1., abs(p), abs(q)):
                return False
    except (EvalError, ZeroDivisionError, OverflowError):
        pass
    for i in np.ndindex(*a.shape):
        if not (lift(x[i]) - lift(y[i])).is_zero():
            return False
    return True


def _lead(x):
    """Leading term for a monomial order (compatible with products)."""
    best = None
    for m, c in x.t.items():
        e = dict(m)
        if best is None or _gt(e, best[0]):
            best = (e, c)
    return best


def _gt(a, b):
    for i in sorted(set(a) | set(b)):
        d = a.get(i, 0) - b.get(i, 0)
        if d:
            return d > 0
    return False


def phase_ratio(x, y):
    """p with x = p * y, p a monomial of unit modulus (None if there is
    none)."""
    if len(x.t) != len(y.t) or not x.t:
        return None
    (ex, cx), (ey, cy) = _lead(x), _lead(y)
    m = []
    for i in set(ex) | set(ey):
        d = ex.get(i, 0) - ey.get(i, 0)
        if d:
            if scalar.ATOMS[i].kind != 'phase':
                return None
            m.append((i, d))
    k = S({(): cx}, x.d) * scalar.inv(S({(): cy}, y.d))
    re, im = k.const()
    if re * re + im * im != 1:
        return None
    p = S({tuple(sorted(m)): (1, 0)}) * k
    return p if (x - p * y).is_zero() else None


def phased(a, M):
    """Diagonals d1, d2 of unit modulus with a = diag(d1) M diag(d2), found
    entry by entry; None if there are none."""
    if a.shape != M.shape or a.ndim != 2 or not a.size:
        return None
    x, y = unwrap(a), unwrap(M)
    m, n = a.shape
    v = probe()
    try:
        for i in np.ndindex(m, n):
            p, q = abs(v(lift(x[i]))), abs(v(lift(y[i])))
            if abs(p - q) > 1e-7 * max(1., p, q):
                return None
    except (EvalError, ZeroDivisionError, OverflowError):
        pass
    if all((lift(x[i]) - lift(y[i])).is_zero() for i in np.ndindex(m, n)):
        return [ONE] * m, [ONE] * n
    d1, d2 = [None] * m, [None] * n
    for s in range(m):
        if d1[s] is not None or all(lift(y[s, j]).is_zero()
                                    for j in range(n)):
            continue
        d1[s] = ONE
        todo = [(0, s)]
        while todo:
            side, k = todo.pop()
            for o in range(n if side == 0 else m):
                i, j = (k, o) if side == 0 else (o, k)
                if lift(y[i, j]).is_zero() or lift(x[i, j]).is_zero():
                    continue
                if (d2[j] if side == 0 else d1[i]) is not None:
                    continue
                r = phase_ratio(lift(x[i, j]), lift(y[i, j]))
                if r is None:
                    return None
                if side == 0:
                    d2[j] = r * d1[i].conjugate()
                    todo.append((1, j))
                else:
                    d1[i] = r * d2[j].conjugate()
                    todo.append((0, i))
    d1 = [ONE if z is None else z for z in d1]
    d2 = [ONE if z is None else z for z in d2]
    for i in range(m):
        for j in range(n):
            if not (lift(x[i, j]) - d1[i] * lift(y[i, j]) * d2[j]).is_zero():
                return None
    return d1, d2


def similar(a, K):
    """Diagonal d of unit modulus with a = diag(d) K diag(d)^-1, or None."""
    p = phased(a, K)
    if p is None:
        return None
    d = p[0]
    x, y = unwrap(a), unwrap(K)
    n = a.shape[0]
    # fix the free phases of decoupled blocks
    d = list(d)
    seen = [False] * n
    for s in range(n):
        if seen[s]:
            continue
        seen[s] = True
        d[s] = ONE
        todo = [s]
        while todo:
            k = todo.pop()
            for o in range(n):
                for i, j in ((k, o), (o, k)):
                    if seen[o] or lift(y[i, j]).is_zero():
                        continue
                    r = phase_ratio(lift(x[i, j]), lift(y[i, j]))
                    if r is None:
                        return None
                    # x_ij = d_i y_ij conj(d_j)
                    d[o] = r.conjugate() * d[k] if i == k else r * d[k]
                    seen[o] = True
                    todo.append(o)
    for i in range(n):
        for j in range(n):
            if not (lift(x[i, j]) - d[i] * lift(y[i, j]) *
                    d[j].conjugate()).is_zero():
                return None
    return d


def rows(M, d):
    """diag(d) M"""
    out = M.copy()
    raw = unwrap(out)
    for i in range(raw.shape[0]):
        if d[i] is not ONE:
            for j in range(raw.shape[1]):
                raw[i, j] = lift(raw[i, j]) * d[i]
    if any(x is not ONE for x in d):
        out._ld = promote(_arr_ld(M), 'c')
    return out


def conj(d):
    return [x if x is ONE else x.conjugate() for x in d]


_probe = [None, 0]


def probe():
    """A numeric point used as prefilter (any point will do)."""
    c = _ctx.current()
    n = len(scalar.ATOMS)
    if _probe[0] is c and _probe[1].nat == n:
        return _probe[1]
    rng = random.Random(7)
    vals = {}
    for i, a in enumerate(scalar.ATOMS):
        if a.kind == 'phase':
            t = rng.uniform(-3, 3)
            vals[i] = complex((1 - t * t) / (1 + t * t), 2 * t / (1 + t * t))
        elif a.kind == 'pos':
            vals[i] = rng.uniform(.5, 2.)
        elif a.kind == 'real' and a.defn is None:
            vals[i] = rng.uniform(-2, 2)
    v = Valuation(vals)
    v.nat = n
    _probe[0], _probe[1] = c, v
    return v


def _phases(n, ld):
    c = _ctx.current()
    if ld != 'c' or getattr(c, 'nophase', False):
        return [ONE] * n
    k = getattr(c, 'nphase', 0)
    c.nphase = k + n
    return [scalar.phase('ph%d' % (k + j)) for j in range(n)]


def _cols(M, ph):
    out = M.copy()
    raw = unwrap(out)
    for j in range(raw.shape[1]):
        if ph[j] is not ONE:
            for i in range(raw.shape[0]):
                raw[i, j] = lift(raw[i, j]) * ph[j]
    return out


def _freeze(M):
    M = M.copy()
    return M


# ------------------------------------------------------------- registration
def register_svd(M, U, s, V):
    """M = U[:, :r] diag(s) V[:, :r]^*, U and V square unitary, s strictly
    decreasing positive scalars (r = len(s))."""
    c = _ctx.current()
    c.decomps.append(('svd', M, U, list(s), V))


def register_eig(K, R, lam, L):
    """K R = R diag(lam), L^* K = diag(lam) L^*; columns arbitrary scale."""
    _ctx.current().decomps.append(('eig', K, R, list(lam), L))


def register_eigh(Hm, Q, lam):
    _ctx.current().decomps.append(('eigh', Hm, Q, list(lam)))


def register_chol(W, L):
    _ctx.current().decomps.append(('chol', W, L))


def register_inv(M, Mi):
    _ctx.current().decomps.append(('inv', M, Mi))


def diag_of(s, m=None, n=None):
    m = len(s) if m is None else m
    n = len(s) if n is None else n
    D = np.empty((m, n), dtype=object)
    D[...] = ZERO
    for i, x in enumerate(s):
        D[i, i] = x
    return wrap(D, 'f')


# ------------------------------------------------------------------ opaque
def opaque(name, args, func, shape, ld):
    """Fresh atoms standing for the entries of func(*args)."""
    c = _ctx.current()
    c.opaque = True
    node = scalar.FnNode(name, args, func)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        re = scalar.fn_atom(node, i, 're')
        if ld == 'c':
            im = scalar.fn_atom(node, i, 'im')
            out[i] = re + scalar.I * im
        else:
            out[i] = re
    return wrap(out, ld)


def _multi_opaque(name, A, func, shapes, lds):
    c = _ctx.current()
    c.opaque = True
    res = []
    nodes = scalar.FnNode(name, [A], func)
    for k, (sh, ld) in enumerate(zip(shapes, lds)):
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            re = scalar.fn_atom(nodes, (k,) + i, 're')
            if ld == 'c':
                out[i] = re + scalar.I * scalar.fn_atom(nodes, (k,) + i, 'im')
            else:
                out[i] = re
        res.append(wrap(out, ld))
    return res


# ----------------------------------------------------------------- kernels
def _is_numeric(a):
    if isinstance(a, SymArray):
        return all(lift(x).is_const() for x in unwrap(a).flat)
    return not (isinstance(a, np.ndarray) and a.dtype == object)


def _numeric(a):
    if isinstance(a, SymArray):
        raw = unwrap(a)
        out = np.empty(raw.shape, dtype=complex if _arr_ld(a) == 'c'
                       else float)
        for i in np.ndindex(*raw.shape):
            re, im = lift(raw[i]).const()
            out[i] = complex(re, im) if _arr_ld(a) == 'c' else float(re)
        return out
    return np.asarray(a)


def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **kw):
    a = arr2(a)
    ld = 'c' if _arr_ld(a) == 'c' else 'f'
    m, n = a.shape
    k = min(m, n)
    for d in _ctx.current().decomps:
        if d[0] != 'svd':
            continue
        _, M, U, s, V = d
        p = phased(a, M)
        if p is None:
            p = phased(a, H(M))
            if p is None:
                continue
            U, V = V, U
        U, V = rows(U, p[0]), rows(V, conj(p[1]))
        ph = _phases(k, ld)
        phu = ph + _phases(m - k, ld) if m > k else ph
        phv = ph + _phases(n - k, ld) if n > k else ph
        sv = np.empty(k, dtype=object)
        sv[...] = ZERO
        for i in range(min(k, len(s))):
            sv[i] = s[i]
        sv = wrap(sv, 'f')
        if not compute_uv:
            return sv
        Uo, Vo = _cols(U, phu), _cols(V, phv)
        Uo._ld = Vo._ld = ld
        if full_matrices:
            return Uo, sv, H(Vo)
        return Uo[:, :k], sv, H(Vo[:, :k])
    mu, nv = (m, n) if full_matrices else (k, k)
    U, sv, Vh = _multi_opaque(
        'svd', a, lambda x: np.linalg.svd(x, full_matrices=full_matrices),
        [(m, mu), (k,), (nv, n)], [ld, 'f', ld])
    c = _ctx.current()
    for i in range(k):
        c.assume(sv[i] >= 0)
        if i:
            c.assume(sv[i - 1] >= sv[i])
    return (U, sv, Vh) if compute_uv else sv


def _ascending(lam):
    """Indices sorting real scalars ascending; each comparison is decided by
    the solver (forks if not implied)."""
    idx = []
    for i in range(len(lam)):
        j = len(idx)
        while j > 0 and bool(lift(lam[i]) < lift(lam[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def eigh(a, UPLO='L', **kw):
    a = arr2(a)
    ld = 'c' if _arr_ld(a) == 'c' else 'f'
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    # LAPACK reads one triangle only
    full = a.copy()
    raw = unwrap(full)
    for i in range(n):
        raw[i, i] = lift(raw[i, i]).real
        for j in range(i + 1, n):
            if UPLO == 'L':
                raw[i, j] = lift(raw[j, i]).conjugate()
            else:
                raw[j, i] = lift(raw[i, j]).conjugate()
    for d in _ctx.current().decomps:
        Q = lam = None
        if d[0] == 'svd':
            _, M, U, s, V = d
            s2 = [x * x for x in s]
            for G, W in ((lambda: mul(H(M), M), V), (lambda: mul(M, H(M)),
                                                     U)):
                if full.shape[0] != W.shape[0]:
                    continue
                p = similar(full, G())
                if p is not None:
                    Q, lam = rows(W, p), s2 + [ZERO] * (n - len(s2))
                    break
        elif d[0] == 'eigh' and full.shape == d[1].shape:
            p = similar(full, d[1])
            if p is not None:
                Q, lam = rows(d[2], p), d[3]
        if Q is None:
            continue
        order = _ascending(lam)
        Qo = _cols(Q[:, order], _phases(n, ld))
        Qo._ld = ld
        w = np.empty(n, dtype=object)
        for i, j in enumerate(order):
            w[i] = lam[j]
        return wrap(w, 'f'), Qo
    if n == 1:
        q = np.empty((1, 1), dtype=object)
        q[0, 0] = _phases(1, ld)[0]
        w = np.empty(1, dtype=object)
        w[0] = raw[0, 0]
        return wrap(w, 'f'), wrap(q, ld)
    w, Q = _multi_opaque('eigh', full, lambda x: np.linalg.eigh(x),
                         [(n,), (n, n)], ['f', ld])
    c = _ctx.current()
    for i in range(1, n):
        c.assume(w[i - 1] <= w[i])
    return w, Q


def eigvalsh(a, **kw):
    return eigh(a)[0]


def _find_eig(a):
    for d in _ctx.current().decomps:
        if d[0] == 'eig':
            _, K, R, lam, L = d
            if a.shape != K.shape:
                continue
            p = similar(a, K)
            if p is not None:
                return rows(R, p), lam, rows(L, p)
            p = similar(a, H(K))
            if p is not None:
                return rows(L, p), [x.conjugate() for x in lam], rows(R, p)
            p = similar(a, K.T)
            if p is not None:
                return (rows(np.conjugate(L), p), lam,
                        rows(np.conjugate(R), p))
    return None


def _lam(lam):
    w = np.empty(len(lam), dtype=object)
    for i, x in enumerate(lam):
        w[i] = x
    return wrap(w, 'c')


def eig_np(a, **kw):
    w, vr = eig_sp(a)
    if _arr_ld(arr2(a)) != 'c' and all(
            lift(x).is_real() for x in unwrap(w).flat):
        w._ld = 'f'
        if vr._ld == 'c' and all(lift(x).is_real() for x in unwrap(vr).flat):
            vr._ld = 'f'
    return w, vr


def eig_sp(a, b=None, left=False, right=True, overwrite_a=False,
           overwrite_b=False, check_finite=True, homogeneous_eigvals=False):
    if b is not None:
        raise Unsupported('generalised eigenproblem')
    a = arr2(a)
    n = a.shape[0]
    f = _find_eig(a)
    out = None
    if f is not None:
        R, lam, L = f
        ld = 'c'
        if _arr_ld(a) != 'c' and all(lift(x).is_real() for x in lam) and all(
                lift(x).is_real() for M in (R, L) for x in unwrap(M).flat):
            ld = 'f'        # real vectors when everything is real
        R = _cols(R, _phases(n, ld))
        L = _cols(L, _phases(n, ld))
        R._ld = L._ld = ld
        out = _lam(lam), L, R
    elif n == 1:
        one = np.empty((1, 1), dtype=object)
        one[0, 0] = _phases(1, 'c')[0]
        two = np.empty((1, 1), dtype=object)
        two[0, 0] = _phases(1, 'c')[0]
        out = _lam([lift(unwrap(a)[0, 0])]), wrap(two, 'c'), wrap(one, 'c')
    else:
        out = _multi_opaque(
            'eig', a, lambda x: scipy.linalg.eig(x, left=True, right=True),
            [(n,), (n, n), (n, n)], ['c', 'c', 'c'])
    w, L, R = out
    if left and right:
        return w, L, R
    if left:
        return w, L
    if right:
        return w, R
    return w


def eigvals(a, **kw):
    a = arr2(a)
    f = _find_eig(a)
    if f is not None:
        return _lam(f[1])
    n = a.shape[0]
    if n == 0:
        return wrap(np.empty(0, dtype=object), 'c')
    if n == 1 and len(lift(unwrap(a)[0, 0]).t) < 3:
        return _lam([lift(unwrap(a)[0, 0])])
    return opaque('eigvals', [a], lambda x: np.linalg.eigvals(x) + 0j, (n,),
                  'c')


def cholesky(a, lower=True, **kw):
    a = arr2(a)
    ld = 'c' if _arr_ld(a) == 'c' else 'f'
    for d in _ctx.current().decomps:
        if d[0] == 'chol' and same(a, d[1]):
            r = d[2].copy()
            r._ld = ld
            return r
    n = a.shape[0]
    raw = unwrap(a)
    L = np.empty((n, n), dtype=object)
    L[...] = ZERO
    for j in range(n):
        t = lift(raw[j, j])
        for k in range(j):
            t = t - L[j, k] * L[j, k].conjugate()
        if not bool(t.real > 0):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = scalar.sqrt(t.real)
        for i in range(j + 1, n):
            t = lift(raw[i, j])
            for k in range(j):
                t = t - L[i, k] * L[j, k].conjugate()
            L[i, j] = t / L[j, j]
    return wrap(L, ld)


def cholesky_sp(a, lower=False, **kw):
    L = cholesky(a)
    return L if lower else H(L)


def _det(raw):
    n = raw.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return lift(raw[0, 0])
    if n == 2:
        return lift(raw[0, 0]) * raw[1, 1] - lift(raw[0, 1]) * raw[1, 0]
    t = ZERO
    for j in range(n):
        if lift(raw[0, j]).is_zero():
            continue
        mnr = np.delete(raw[1:], j, axis=1)
        x = lift(raw[0, j]) * _det(mnr)
        t = t + (x if j % 2 == 0 else -x)
    return t


def det(a, **kw):
    return _det(unwrap(arr2(a)))


def _tri_solve_inv(raw, lower):
    n = raw.shape[0]
    X = np.empty((n, n), dtype=object)
    X[...] = ZERO
    rng = range(n) if lower else range(n - 1, -1, -1)
    for col in range(n):
        for i in rng:
            t = ONE if i == col else ZERO
            ks = range(i) if lower else range(i + 1, n)
            for k in ks:
                t = t - lift(raw[i, k]) * X[k, col]
            X[i, col] = t / lift(raw[i, i])
    return X


def inv(a, **kw):
    a = arr2(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    ld = 'c' if _arr_ld(a) == 'c' else 'f'
    for d in _ctx.current().decomps:
        if d[0] == 'inv':
            for M, Mi in ((d[1], d[2]), (d[2], d[1])):
                for X, Xi in ((M, Mi), (H(M), H(Mi))):
                    p = phased(a, X)
                    if p is not None:
                        r = H(rows(H(rows(Xi, conj(p[1]))), p[0]))
                        r._ld = ld
                        return r
    raw = unwrap(a)
    n = a.shape[0]
    up0 = all(lift(raw[i, j]).is_zero() for i in range(n)
              for j in range(i + 1, n))
    lo0 = all(lift(raw[i, j]).is_zero() for i in range(n)
              for j in range(i))
    c = _ctx.current()
    if up0 or lo0:
        for i in range(n):
            nonzero(raw[i, i])
        return wrap(_tri_solve_inv(raw, up0), ld)
    if n > 4:
        return opaque('inv', [a], lambda x: np.linalg.inv(x), (n, n), ld)
    D = _det(raw)
    nonzero(D)
    di = scalar.inv(D)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mnr = np.delete(np.delete(raw, j, axis=0), i, axis=1)
            x = _det(mnr) * di
            out[i, j] = x if (i + j) % 2 == 0 else -x
    return wrap(out, ld)


def nonzero(x):
    """Raise LinAlgError on the paths where x vanishes."""
    x = lift(x)
    if x.is_const():
        if not x.t:
            raise np.linalg.LinAlgError('Singular matrix')
        return
    e = (x == 0)
    if e is True or (not isinstance(e, bool) and bool(e)):
        raise np.linalg.LinAlgError('Singular matrix')


def solve(a, b, **kw):
    if kw.pop('transposed', False):
        a = a.T
    return np.dot(inv(a), arr2(b))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    a = arr2(a)
    raw = unwrap(a).copy()
    n = raw.shape[0]
    for i in range(n):
        for j in range(n):
            if (j > i) if lower else (j < i):
                raw[i, j] = ZERO
        if unit_diagonal:
            raw[i, i] = ONE
    m = wrap(raw, _arr_ld(a))
    if trans in (1, 'T'):
        m = m.T
    elif trans in (2, 'C'):
        m = H(m)
    return np.dot(inv(m), arr2(b))


def pinv(a, *args, **kw):
    a = arr2(a)
    for d in _ctx.current().decomps:
        if d[0] != 'svd':
            continue
        _, M, U, s, V = d
        p = phased(a, M)
        if p is None:
            p = phased(a, H(M))
            if p is None:
                continue
            U, V = V, U
        U, V = rows(U, p[0]), rows(V, conj(p[1]))
        r = len(s)
        out = mul(V[:, :r], diag_of([scalar.inv(x) for x in s]), H(U[:, :r]))
        out._ld = _arr_ld(a)
        return out
    m, n = a.shape
    # full-rank inputs (an assumption recorded by the caller)
    if m >= n:
        return np.dot(inv(np.dot(H(a), a)), H(a))
    return np.dot(H(a), inv(np.dot(a, H(a))))


def register_lstsq(A, B, X):
    """X solves A X = B, and is the solution found for these equations
    (whatever the order of the equations and of the columns)."""
    _ctx.current().decomps.append(('lstsq', A, B, X))


def _find_lstsq(a, b):
    if a.ndim != 2 or b.ndim > 2 or b.shape[0] != a.shape[0]:
        return None
    v = probe()

    def num(x):
        x = unwrap(x)
        return np.array([[v(lift(e)) for e in r] for r in x.reshape(
            x.shape[0], -1)])
    vec = b.ndim == 1
    if vec:
        b = b.reshape(-1, 1)
    for d in _ctx.current().decomps:
        if d[0] != 'lstsq':
            continue
        _, A, B, X = d
        if A.shape[1] != a.shape[1]:
            continue
        try:
            na, nb, nA, nB = num(a), num(b), num(A), num(B)
        except (EvalError, ZeroDivisionError, OverflowError):
            continue

        def match(P, Q):
            """Index of the row of Q equal to each row of P."""
            out = []
            for p in P:
                j = [k for k, q in enumerate(Q)
                     if np.allclose(p, q, 1e-9, 1e-9)]
                if not j:
                    return None
                out.append(j[0])
            return out
        rows_ = match(np.sort(na, axis=1), np.sort(nA, axis=1))
        if rows_ is None or len(set(rows_)) < min(len(rows_), len(nA)):
            continue
        cols_ = match(na.T, nA[rows_].T)
        if cols_ is None or len(set(cols_)) < len(cols_):
            continue
        rhs = match(nb.T, nB[rows_].T)
        if rhs is None:
            continue
        if not same(a, A[rows_][:, cols_]) or \
                not same(b, B[rows_][:, rhs]):
            continue
        r = X[cols_][:, rhs]
        r._ld = _arr_ld(X)
        return r[:, 0] if vec else r
    return None


def lstsq(a, b, rcond=None, **kw):
    a, b = arr2(a), arr2(b)
    x = _find_lstsq(a, b)
    if x is not None:
        return x, None, None, None
    if min(a.shape) > 2:
        sh = (a.shape[1],) + b.shape[1:]
        ld = 'c' if 'c' in (_arr_ld(a), _arr_ld(b)) else 'f'
        return opaque('lstsq', [a, b], lambda p, q: np.linalg.lstsq(
            p, q, rcond=None)[0], sh, ld), None, None, None
    x = np.dot(pinv(a), arr2(b))
    return x, None, None, None


def norm(x, ord=None, axis=None, keepdims=False):
    x = arr2(x)
    if axis is not None:
        raw = np.moveaxis(unwrap(x), axis, -1)
        if ord not in (None, 2):
            raise Unsupported('norm order')
        out = np.empty(raw.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            t = ZERO
            for e in raw[i]:
                t = t + lift(e) * lift(e).conjugate()
            out[i] = scalar.sqrt(t)
        return wrap(out, 'f')
    if ord not in (None, 'fro') and not (ord == 2 and x.ndim == 1):
        raise Unsupported('norm order')
    t = ZERO
    for e in unwrap(x).flat:
        t = t + lift(e) * lift(e).conjugate()
    return scalar.sqrt(t)


def matrix_power(a, n):
    a = arr2(a)
    r = diag_of([ONE] * a.shape[0])
    for _ in range(abs(int(n))):
        r = np.dot(r, a)
    return r if n >= 0 else inv(r)


def multi_dot(ms):
    return mul(*ms)


def sqrtm(a, **kw):
    a = arr2(a)
    n = a.shape[0]
    return opaque('sqrtm', [a], lambda x: scipy.linalg.sqrtm(x), (n, n),
                  _arr_ld(a))


def solve_continuous_lyapunov(a, q):
    return _lyap(arr2(a), arr2(q), False)


def solve_discrete_lyapunov(a, q, method=None):
    return _lyap(arr2(a), arr2(q), True)


def _lyap(a, q, discrete):
    """Exact solution of the vectorised equation for n <= 2; registered
    solutions are recognised first."""
    for d in _ctx.current().decomps:
        if d[0] == 'dlyap' and discrete and same(a, d[1]) and same(q, d[2]):
            return d[3].copy()
    n = a.shape[0]
    ld = promote(_arr_ld(a), _arr_ld(q), 'f')
    if n > 2:
        f = scipy.linalg.solve_discrete_lyapunov if discrete else \
            scipy.linalg.solve_continuous_lyapunov
        return opaque('lyap', [a, q], lambda x, y: f(x, y), (n, n), ld)
    A, Q = unwrap(a), unwrap(q)
    m = n * n
    K = np.empty((m, m), dtype=object)
    K[...] = ZERO
    r = np.empty((m, 1), dtype=object)
    for i in range(n):
        for j in range(n):
            row = i * n + j
            r[row, 0] = lift(Q[i, j])
            if discrete:      # A X A^H - X = -Q
                r[row, 0] = -r[row, 0]
                for k in range(n):
                    for l in range(n):
                        K[row, k * n + l] = K[row, k * n + l] + lift(
                            A[i, k]) * lift(A[j, l]).conjugate()
                K[row, row] = K[row, row] - ONE
            else:             # A X + X A^H = Q
                for k in range(n):
                    K[row, k * n + j] = K[row, k * n + j] + lift(A[i, k])
                    K[row, i * n + k] = K[row, i * n + k] + lift(
                        A[j, k]).conjugate()
    x = np.dot(inv(wrap(K, ld)), wrap(r, ld))
    return wrap(unwrap(x).reshape(n, n), ld)


def register_dlyap(a, q, x):
    _ctx.current().decomps.append(('dlyap', a, q, x))


def _guard(f):
    """Concrete arguments go to the real kernel's semantics too: a SymArray
    of constants is handled by the same stub (exactly)."""
    return f


class NS(types.ModuleType):
    def __init__(self, name, base, d):
        types.ModuleType.__init__(self, name)
        self.__dict__['_b'] = base
        self.__dict__['__path__'] = []
        self.__dict__.update(d)

    def __getattr__(self, name):
        b = self.__dict__['_b']
        v = getattr(b, name)
        if isinstance(v, type) or not callable(v):
            return v
        from .arr import contains_sym

        def f(*a, **k):
            if any(contains_sym(x) for x in a):
                raise Unsupported('%s.%s' % (self.__name__, name))
            return v(*a, **k)
        return f


def _wrapc(name, f, real):
    from .arr import contains_sym

    def g(*a, **k):
        if not any(contains_sym(x) for x in a) and real is not None:
            return real(*a, **k)
        return f(*a, **k)
    g.__name__ = name
    return g


def block_diag(*arrs):
    arrs = [np.atleast_2d(npx().asarray(a)) for a in arrs]
    out = npx().zeros((sum(a.shape[0] for a in arrs),
                       sum(a.shape[1] for a in arrs)),
                      dtype=np.result_type(*[a.dtype for a in arrs]))
    i = j = 0
    for a in arrs:
        out[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return out


def hankel(c, r=None):
    c = npx().asarray(c).ravel()
    r = npx().zeros_like(c) if r is None else npx().asarray(r).ravel()
    vals = np.concatenate((c, r[1:]))
    return vals[np.add.outer(np.arange(len(c)), np.arange(len(r)))]


def toeplitz(c, r=None):
    c = npx().asarray(c).ravel()
    r = np.conjugate(c) if r is None else npx().asarray(r).ravel()
    vals = np.concatenate((c[::-1], r[1:]))
    return vals[np.add.outer(np.arange(len(c))[::-1], np.arange(len(r)))]


def diagsvd(s, M, N):
    out = npx().zeros((M, N), dtype=npx().asarray(s).dtype)
    for i in range(min(M, N)):
        out[i, i] = s[i]
    return out


def npx():
    from . import npx as m
    return m


def _matrix_rank(*a, **k):
    raise Unsupported('matrix_rank')


def _mk(base, d):
    return {k: _wrapc(k, f, getattr(base, k, None)) for k, f in d.items()}


NP_LINALG = NS('numpy.linalg', np.linalg, _mk(np.linalg, dict(
    svd=svd, eigh=eigh, eigvalsh=eigvalsh, eig=eig_np, eigvals=eigvals,
    cholesky=cholesky, inv=inv, solve=solve, pinv=pinv, lstsq=lstsq, det=det,
    norm=norm, matrix_power=matrix_power, multi_dot=multi_dot)))

SP_LINALG = NS('scipy.linalg', scipy.linalg, _mk(scipy.linalg, dict(
    svd=svd, eigh=eigh, eigvalsh=eigvalsh, eig=eig_sp, eigvals=eigvals,
    cholesky=cholesky_sp, inv=inv, solve=solve, pinv=pinv, lstsq=lstsq,
    det=det, norm=norm, sqrtm=sqrtm, solve_triangular=solve_triangular,
    solve_continuous_lyapunov=solve_continuous_lyapunov,
    solve_discrete_lyapunov=solve_discrete_lyapunov,
    block_diag=block_diag, hankel=hankel, toeplitz=toeplitz,
    diagsvd=diagsvd)))
SP_LINALG.__dict__['solve_lyapunov'] = _wrapc(
    'solve_lyapunov', solve_continuous_lyapunov,
    scipy.linalg.solve_continuous_lyapunov)


# ------------------------------------------------------------- scipy.signal
class StateSpace(object):
    def __init__(self, *system, **kw):
        A, B, C, D = [np.atleast_2d(arr2(x)) for x in system]
        self.A, self.B, self.C, self.D = A, B, C, D
        self.dt = kw.get('dt')
        self.inputs = B.shape[1]
        self.outputs = C.shape[0]
        n = A.shape[0]
        if A.shape != (n, n) or B.shape[0] != n or C.shape[1] != n:
            raise ValueError('system matrices have incompatible shapes')


def dlsim(system, u, t=None, x0=None):
    from . import npx
    if not isinstance(system, StateSpace):
        system = StateSpace(*system[:-1], dt=system[-1])
    u = np.atleast_1d(arr2(u))
    if u.ndim == 1:
        u = np.atleast_2d(u).T
    if t is not None:
        raise Unsupported('dlsim with explicit times')
    if u.shape[1] != system.inputs:
        raise ValueError('wrong number of inputs')
    N = len(u)
    xout = npx.zeros((N, system.A.shape[0]))
    yout = npx.zeros((N, system.C.shape[0]))
    if N == 0:
        return np.zeros(0), yout, xout
    if x0 is not None:
        xout[0, :] = arr2(x0)
    for i in range(N - 1):
        xout[i + 1, :] = np.dot(system.A, xout[i, :]) + np.dot(
            system.B, u[i, :])
        yout[i, :] = np.dot(system.C, xout[i, :]) + np.dot(
            system.D, u[i, :])
    yout[N - 1, :] = np.dot(system.C, xout[N - 1, :]) + np.dot(
        system.D, u[N - 1, :])
    return np.arange(N) * (system.dt or 1), yout, xout


def dimpulse(system, x0=None, t=None, n=None):
    from . import npx
    if not isinstance(system, StateSpace):
        system = StateSpace(*system[:-1], dt=system[-1])
    n = 100 if n is None else int(n)
    if t is not None:
        raise Unsupported('dimpulse with explicit times')
    yout = []
    tt = np.linspace(0, n * (system.dt or 1), n, endpoint=False)
    for i in range(system.inputs):
        u = npx.zeros((n, system.inputs))
        u[0, i] = 1
        yout.append(dlsim(system, u, x0=x0)[1])
    return tt, tuple(yout)


import scipy.signal as _sig

SP_SIGNAL = NS('scipy.signal', _sig, dict(
    StateSpace=StateSpace, dlsim=dlsim, dimpulse=dimpulse, dlti=StateSpace))
