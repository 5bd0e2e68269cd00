"""Abstract vectors and handles used by the checks of handle-based code.

A vector is a formal linear combination of named basis symbols, so the claims
hold for every vector space; the inner product is an arbitrary Hermitian table
of (symbolic) numbers over the symbols.  Handles read and write a store shared
by all simulated ranks, like a file system.  The store records every put, the
registry every vector that is alive on each rank."""
import gc
import weakref

import numpy as np


class Registry(object):
    """Which vectors are alive, and on which rank."""

    def __init__(self, P=1):
        self.live = [weakref.WeakSet() for _ in range(P)]
        self.peak = [0] * P
        self.gets = [0] * P
        self.limit_at = [None] * P

    def add(self, v, rank):
        v.owner = rank
        self.live[rank].add(v)
        self.peak[rank] = max(self.peak[rank], len(self.live[rank]))


class Vec(object):
    """Formal linear combination {symbol: coefficient}."""
    __slots__ = ('c', 'owner', 'reg', '__weakref__')
    __array_priority__ = 2000.
    __array_ufunc__ = None

    def __init__(self, c, reg=None, owner=None):
        self.c = c
        self.reg = reg
        self.owner = None
        if reg is not None and owner is not None:
            reg.add(self, owner)

    def _new(self, c):
        return Vec(c, self.reg, self.owner)

    def __add__(self, o):
        if not isinstance(o, Vec):
            raise TypeError('can only add vectors')
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c[k] + v if k in c else v
        return self._new(c)

    def __sub__(self, o):
        return self + o * -1

    def __mul__(self, s):
        if isinstance(s, Vec):
            raise TypeError('cannot multiply vectors')
        return self._new({k: v * s for k, v in self.c.items()})

    __rmul__ = __mul__

    def __truediv__(self, s):
        return self._new({k: v / s for k, v in self.c.items()})

    def __neg__(self):
        return self * -1

    def __deepcopy__(self, memo):
        return Vec(dict(self.c), self.reg, None)

    def coeffs(self, keys):
        return [self.c.get(k, 0) for k in keys]


def claim_owner(obj, rank):
    """Vectors inside a received message now live on ``rank``."""
    if isinstance(obj, Vec):
        if obj.owner is None and obj.reg is not None:
            obj.reg.add(obj, rank)
    elif isinstance(obj, (list, tuple)):
        for x in obj:
            claim_owner(x, rank)
    elif isinstance(obj, dict):
        for x in obj.values():
            claim_owner(x, rank)


class Store(object):
    """Values of all handles (shared by the ranks) and the log of puts."""

    def __init__(self, P=1):
        self.val = {}
        self.puts = []          # (rank, key)
        self.reg = Registry(P)
        self.fail = None

    def handle(self, key, rank=0):
        return Handle(self, key, rank)

    def handles(self, keys, rank=0):
        return [Handle(self, k, rank) for k in keys]

    def snapshot(self):
        return {k: dict(v) for k, v in self.val.items()}


class Handle(object):
    def __init__(self, store, key, rank=0):
        self.store = store
        self.key = key
        self.rank = rank

    def get(self):
        self.store.reg.gets[self.rank] += 1
        return Vec(dict(self.store.val[self.key]), self.store.reg, self.rank)

    def put(self, vec):
        self.store.puts.append((self.rank, self.key))
        self.store.val[self.key] = dict(vec.c)

    def __eq__(self, o):
        return type(self) is type(o) and self.key == o.key

    __hash__ = None

    def __deepcopy__(self, memo):
        return Handle(self.store, self.key, self.rank)


class IP(object):
    """Inner product given by a table over pairs of symbols: (i, j) ->
    number, conjugate symmetric, conjugate-linear in the first vector.
    ``raw`` (optional) maps a pair of single-symbol vectors to the exact
    object to return (to control its type)."""

    def __init__(self, table, raw=None):
        self.table = table
        self.raw = raw
        self.calls = 0

    def __call__(self, a, b):
        self.calls += 1
        if self.raw is not None and len(a.c) == 1 and len(b.c) == 1:
            (k, x), = a.c.items()
            (l, y), = b.c.items()
            if x is ONE_ and y is ONE_:
                return self.raw[k, l]
        t = None
        for k, x in a.c.items():
            for l, y in b.c.items():
                p = np.conj(x) * self.table[k, l] * y
                t = p if t is None else t + p
        return 0. if t is None else t

    def __eq__(self, o):
        return self is o

    __hash__ = None


class _One(int):
    pass


ONE_ = _One(1)


def herm_table(env, keys, ld='c', name='g', lds=None, cross=None):
    """Hermitian table over ``keys``; ``lds(i, j)`` may give the type of an
    entry ('i', 'f' or 'c')."""
    tab, raw = {}, {}
    for a, k in enumerate(keys):
        for b, l in enumerate(keys):
            if b < a:
                continue
            t = lds(a, b) if lds else ld
            n = '%s_%s_%s' % (name, k, l)
            if a == b and t == 'c':
                x = env.real(n)
                xr = env.typed(x, 'c' if ld == 'c' else 'f')
                tab[k, l] = x
                raw[k, l] = xr
                continue
            if t == 'c':
                x = env.cplx(n)
            elif t == 'f':
                x = env.real(n)
            else:
                x = env.ireal(n, -9, 9)
            tab[k, l] = x
            raw[k, l] = env.typed(x, t)
            tab[l, k] = np.conj(x) if t == 'c' else x
            raw[l, k] = env.typed(tab[l, k], t)
    return tab, raw


def setup(env, P, keys):
    st = Store(P)
    for k in keys:
        st.val[k] = {k: ONE_}
    return st


def run_ranks(env, P, fn, hosts=None, store=None):
    """env.ranks with received vectors credited to the receiving rank."""
    return env.ranks(P, fn, hosts=hosts,
                     on_recv=claim_owner)


def hosts_of(P, nodes):
    """P ranks spread over ``nodes`` hosts (round robin)."""
    return ['host%d' % (r % nodes) for r in range(P)]


def free_gram(env, n, ld, V, E, name='g'):
    """A Hermitian array with eigendecomposition V diag(E) V*.  In the
    encoding the entries are free (a superset of the real cases) and the
    second result is the array rebuilt from the decomposition."""
    R = np.dot(V, np.dot(env.diag(E), np.conjugate(V).T))
    if not env.sym:
        return R, R
    R._ld = ld
    t, _ = herm_table(env, range(n), ld, name)
    G = env.array([[t[i, j] for j in range(n)] for i in range(n)], ld)
    for i in range(n):
        for j in range(i, n):
            env.assume(G[i, j] != 0)
    env.register_eigh(G, V, E)
    return G, R


def table(rows, cols, C):
    """Inner products of the row with the column symbols, both ways."""
    t = {}
    for i, k in enumerate(rows):
        for j, l in enumerate(cols):
            t[k, l] = C[i, j]
            if (l, k) not in t:
                t[l, k] = np.conj(C[i, j])
    return t
