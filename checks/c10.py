"""C10 a handle returns (stored vector - base vector) * scale."""
import numpy as np
from .common import REALS, NUMPY, FILES

BOUNDS = ('every history of up to 3-4 gets and puts (thorough: 4-5) through up to '
          '5 handles of each kind (in memory, text file, pickle file, user '
          'subclass), with shared, equal, nested and no base vectors, '
          'arbitrary real and complex vectors of two elements and arbitrary '
          'real, complex or missing scale factors (zero included); two '
          'processes of their own')
OUTSIDE = ('longer histories, more handles; changing attributes of handles '
           'directly; files changed by something other than handles')
ASSUMPTIONS = [REALS, NUMPY, FILES,
               'binary files are modelled as byte strings; pickle itself runs']

# handles: (place, base index or None, scale: None, 'f', 'c' or a number)
TOPO = {
    'shared': [(0, None, None), (1, 0, 'f'), (2, 0, None)],
    'equal': [(0, None, None), (0, None, None), (1, 0, None), (2, 1, 'f')],
    'nested': [(0, None, 'f'), (1, 0, 'f'), (2, 1, None)],
    'self': [(0, None, None), (0, 0, None), (1, 1, None)],
    'two': [(0, None, None), (1, None, 'f'), (2, 0, None), (2, 1, 'c')],
    'same place': [(0, None, None), (1, 0, 'f'), (1, None, None),
                   (0, 2, None)],
    'zero': [(0, None, 0.), (1, 0, 0), (2, None, 1)],
}


def history(env, kind, topo, L, ld):
    T = TOPO[topo]
    m = env.m
    nplace = 1 + max(t[0] for t in T)
    scales = []
    for i, t in enumerate(T):
        s = t[2]
        scales.append(env.real('s%d' % i) if s == 'f' else
                      env.cplx('s%d' % i) if s == 'c' else s)

    def vec(n):
        rows = [env.scal('v%d_%d' % (n, k), ld) for k in range(2)]
        if kind == 'text':
            return env.array([[r] for r in rows], ld)
        return env.array(rows, ld)
    nvec = [0]

    def fresh():
        nvec[0] += 1
        return vec(nvec[0])
    store = {}

    class Sub(m.vectors.VecHandle):
        def __init__(self, key, **k):
            m.vectors.VecHandle.__init__(self, **k)
            self.key = key

        def _get(self):
            return store[self.key].copy()

        def _put(self, v):
            store[self.key] = v.copy()

        def __eq__(self, o):
            return type(o) is type(self) and o.key == self.key
    hs = []
    for i, (p, b, s) in enumerate(T):
        k = dict(base_vec_handle=None if b is None else hs[b],
                 scale=scales[i])
        if kind == 'memory':
            h = m.vectors.VecHandleInMemory(None, **k)
        elif kind == 'text':
            h = m.vectors.VecHandleArrayText(
                env.tmp('v%d.txt' % p), is_complex=ld == 'c', **k)
        elif kind == 'pickle':
            h = m.vectors.VecHandlePickle(env.tmp('v%d.pkl' % p), **k)
        else:
            h = Sub(p, **k)
        hs.append(h)
    # in memory, every handle is a place of its own
    place = [i if kind == 'memory' else t[0] for i, t in enumerate(T)]
    held = {}

    def expect(i):
        v = held[place[i]]
        if T[i][1] is not None:
            v = v - expect(T[i][1])
        if T[i][2] is not None:
            v = v * scales[i]
        return v
    v0 = fresh() if kind == 'memory' and topo == 'equal' else None
    for i in range(len(T)):
        if place[i] not in held:
            v = fresh() if v0 is None or i > 1 else v0
            hs[i].put(v.copy())
            held[place[i]] = v
    got = []
    for n in range(L):
        op = env.choice('op%d' % n, 2 * len(T))
        i = op % len(T)
        if op < len(T):
            r = hs[i].get()
            env.eq('get returns (stored - base) * scale', r, expect(i))
            got.append((r, np.array(r)))
        else:
            v = fresh()
            w = v.copy()
            hs[i].put(w)
            env.eq('a put does not change the vector', w, v)
            held[place[i]] = v
    for i in range(len(T)):
        env.eq('at the end every handle returns the right vector',
               hs[i].get(), expect(i))
        if kind == 'memory':
            env.eq('the stored vector is the one put', hs[i].vec,
                   held[place[i]])
    if kind != 'memory':
        for r, c in got:
            env.eq('a vector got earlier does not change', r, c)


def objects(env, kind, L):
    """Vectors that are objects with their own algebra: only -, * are used."""
    m = env.m

    class V(m.vectors.Vector):
        def __init__(self, x):
            self.x = x

        def __add__(self, o):
            return V(self.x + o.x)

        def __mul__(self, s):
            return V(self.x * s)
    s = env.real('s')
    a, b, c = env.real('a'), env.real('b'), env.real('c')
    h0 = m.vectors.VecHandleInMemory(V(a))
    h1 = m.vectors.VecHandleInMemory(V(b), base_vec_handle=h0, scale=s)
    h2 = m.vectors.VecHandleInMemory(V(c), base_vec_handle=h1)
    for n in range(L):
        o = env.choice('op%d' % n, 4)
        if o == 0:
            env.eq('value', h0.get().x, a)
        elif o == 1:
            env.eq('value', h1.get().x, (b - a) * s)
        elif o == 2:
            env.eq('value', h2.get().x, c - (b - a) * s)
        else:
            a = env.real('a%d' % n)
            h0.put(V(a))
    env.eq('reverse products', (2. * V(a)).x, a * 2)
    env.eq('differences', (V(a) - V(b)).x, a - b)
    for h, x in ((h0, a), (h1, b), (h2, c)):
        env.eq('stored vector unchanged', h.vec.x, x)


def abstract(env):
    m = env.m
    for f in ('get', 'put'):
        h = m.vectors.VecHandle()
        try:
            h.get() if f == 'get' else h.put(1.)
            ok = False
        except NotImplementedError:
            ok = True
        env.true('the base class does not get or put', ok)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for kind in ('memory', 'sub', 'text', 'pickle'):
        for topo in TOPO:
            if kind in ('text', 'pickle') and q and topo in ('two', 'zero'):
                continue
            n = len(TOPO[topo])
            for ld in ('f', 'c'):
                L = (3 if n > 3 or kind in ('text', 'pickle') else 4)
                if q:
                    L = 4 if topo == 'shared' and ld == 'f' and \
                        kind == 'memory' else 3
                    if kind == 'pickle' and ld == 'c':
                        L = 2
                elif n < 4:
                    L += 1
                if ld == 'f' and topo == 'two':
                    continue
                if q and ld == 'c' and topo in ('self', 'same place',
                                                'nested', 'zero'):
                    continue
                out.append((history, dict(kind=kind, topo=topo, L=L, ld=ld)))
    out.append((objects, dict(kind='memory', L=4 if q else 6)))
    out.append((abstract, {}))
    return out
