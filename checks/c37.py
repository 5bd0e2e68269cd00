"""C37 equality and small utilities."""
import os

import numpy as np
from .common import REALS, NUMPY

BOUNDS = ('arrays of up to 3 dimensions and 8 elements with any real, complex '
          'or integer elements, scalars and lists; any file names and '
          'extensions of 1..5 characters; vectors of several types; handles '
          'of all types with any base vector and scale; lists of up to 4')
OUTSIDE = ('larger arrays and lists; paths that are written differently but '
           'mean the same file; empty file extensions')
ASSUMPTIONS = [REALS, NUMPY,
               'file names are sequences of characters; the list of the names '
               'in the directory is given by os.listdir']

SHAPES = ((), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3),
          (0,), (2, 0), (2, 1, 2), (1, 1, 1))


def fill(env, name, shape, ld):
    n = int(np.prod(shape)) if shape else 1
    x = [env.ireal('%s%d' % (name, i), -2, 2) if ld == 'i' else
         env.scal('%s%d' % (name, i), ld) for i in range(n)]
    if not shape:
        return env.array([x[0]], ld).reshape(()), x
    if n == 0:
        return np.zeros(shape), x
    return env.array(x, ld).reshape(shape), x


def equal(env, x, y):
    """All elements are equal (decided by the solver)."""
    for a, b in zip(x, y):
        if not env.decide(a == b):
            return False
    return True


class Special(np.ndarray):
    pass


class Vec(object):
    """A vector object with its own equality."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(self) is type(o) and bool(self.x == o.x)

    __hash__ = None


def values(env, sa, sb, la, lb):
    """Two arrays, and whether they are equal."""
    A, x = fill(env, 'a', tuple(sa), la)
    B, y = fill(env, 'b', tuple(sb), lb)
    m = env.m
    want = tuple(sa) == tuple(sb) and equal(env, x, y)
    for label, r in (
            ('smart_eq', m.util.smart_eq(A, B)),
            ('smart_eq, exchanged', m.util.smart_eq(B, A)),
            ('handles', m.vectors.VecHandleInMemory(A) ==
             m.vectors.VecHandleInMemory(B)),
            ('handles, not equal',
             not m.vectors.VecHandleInMemory(A) !=
             m.vectors.VecHandleInMemory(B))):
        env.true('%s: true exactly if shapes and elements are equal' % label,
                 bool(r) == want, detail='%s, expected %s' % (r, want))
    env.true('an array equals itself', bool(m.util.smart_eq(A, A)))


def kinds(env, a, b):
    """Values of different types, and vectors that are not arrays."""
    x, y = env.ireal('x', -2, 2), env.ireal('y', -2, 2)

    def mk(k, v):
        return {'number': lambda: v, 'list': lambda: [v, 1],
                'tuple': lambda: (v, 1), 'none': lambda: None,
                'object': lambda: Vec(v), 'text': lambda: 'text',
                'array': lambda: env.array([v, 1], 'i'),
                'long': lambda: [v, 1, 1],
                'nested': lambda: [[v], [1]]}[k]()
    m = env.m
    u, v = mk(a, x), mk(b, y)
    same = a == b and (a in ('none', 'text') or env.decide(x == y))
    if type(u) is not type(v):
        same = False
    for label, r in (
            ('smart_eq', m.util.smart_eq(u, v)),
            ('smart_eq, exchanged', m.util.smart_eq(v, u)),
            ('handles', m.vectors.VecHandleInMemory(u) ==
             m.vectors.VecHandleInMemory(v))):
        env.true('%s: true exactly for equal types and values' % label,
                 bool(r) == same, detail='%s %s' % (a, b))


def handles(env, ta, tb, n=5):
    """Handles of vectors in files; the paths are chosen by the solver."""
    m = env.m.vectors

    class Text2(m.VecHandleArrayText):
        pass
    class Pickle2(m.VecHandlePickle):
        pass
    paths = ['a', 'dir/a', 'A', '', 'ab', 'b', 'a.txt'][:n]
    p, q = (paths[env.choice(x, len(paths))] for x in 'pq')

    def mk(t, path, name):
        base = (None, m.VecHandleInMemory(env.array([1., 2.], 'f')))[
            env.choice('base' + name, 2)]
        scale = (None, env.real('scale' + name))[env.choice('s' + name, 2)]
        kw = dict(base_vec_handle=base, scale=scale)
        if t == 'memory':
            return m.VecHandleInMemory(path, **kw)
        if t == 'complex':
            return m.VecHandleArrayText(path, is_complex=True, **kw)
        return {'text': m.VecHandleArrayText, 'pickle': m.VecHandlePickle,
                'text2': Text2, 'pickle2': Pickle2}[t](path, **kw)
    x, y = mk(ta, p, 'x'), mk(tb, q, 'y')
    cls = {'complex': 'text'}
    want = cls.get(ta, ta) == cls.get(tb, tb) and p == q
    env.true('equal exactly for the same type and location',
             bool(x == y) == want and bool(y == x) == want and
             bool(x != y) != want, detail='%s %r %s %r' % (ta, p, tb, q))
    env.true('a handle equals itself', bool(x == x))
    for o in (None, p, 3, object()):
        env.true('a handle does not equal something else', not x == o)


def spaces(env):
    m = env.m.vectorspace

    class Sub(m.VectorSpaceHandles):
        pass

    class IP(object):
        """An inner product with a parameter."""
        def __init__(self, w):
            self.w = w

        def __call__(self, a, b):
            return self.w * np.vdot(a, b)

        def __eq__(self, o):
            return type(self) is type(o) and bool(self.w == o.w)

        __hash__ = None
    w = [env.real('w0'), env.real('w1')]
    f = lambda a, b: 0
    ips = [np.vdot, f, IP(w[0]), IP(w[1]), None]
    i, j = env.choice('i', 5), env.choice('j', 5)
    vi, vj = env.choice('vi', 2), env.choice('vj', 2)
    ci, cj = env.choice('ci', 2), env.choice('cj', 2)
    li, lj = env.int('li', 3, 20), env.int('lj', 3, 20)
    x = (m.VectorSpaceHandles, Sub)[ci](ips[i], max_vecs_per_node=li,
                                        verbosity=vi, print_interval=7)
    y = (m.VectorSpaceHandles, Sub)[cj](ips[j], max_vecs_per_node=lj,
                                        verbosity=vj)
    same = i == j or (i in (2, 3) and j in (2, 3) and
                      env.decide(w[0] == w[1]))
    want = same and vi == vj and ci == cj
    env.true('equal exactly if inner product and verbosity agree',
             bool(x == y) == want and bool(y == x) == want and
             bool(x != y) != want, detail=str((i, j, vi, vj, ci, cj)))
    for o in (None, np.vdot, m.VectorSpaceArrays()):
        env.true('a space does not equal something else',
                 not x == o and x != o)


def weights(env, ka, kb, la='f', lb='f'):
    """Vector spaces of arrays, by their weights."""
    def mk(k, n, ld):
        x = [env.pos('%s%d' % (n, i), lo=1, hi=4) for i in range(4)]
        return {'none': (None, []), 'number': (x[0], x[:1]),
                '1d': (env.array(x[:2], 'f'), x[:2]),
                'long': (env.array(x[:3], 'f'), x[:3]),
                '2d': (env.array([[x[0] + 4, x[1] / 4],
                                  [x[1] / 4, x[2] + 4]], 'f'), x[:3])}[k]
    m = env.m.vectorspace
    (u, x), (v, y) = mk(ka, 'a', la), mk(kb, 'b', lb)
    a, b = m.VectorSpaceArrays(weights=u), m.VectorSpaceArrays(weights=v)
    want = ka == kb and equal(env, x, y)
    env.true('equal exactly for equal weights', bool(a == b) == want and
             bool(b == a) == want and bool(a != b) != want)
    env.true('a space does not equal something else', not a == u and
             not a == 3)


def promote(env, shape, ld, form):
    A, x = fill(env, 'a', tuple(shape), ld)
    arg = A.tolist() if form == 'list' and shape else (
        x[0] if form == 'list' else A)
    if 0 in shape:
        arg = A
    for f, nd in ((env.m.util.atleast_2d_row, lambda s: (1,) + s),
                  (env.m.util.atleast_2d_col, lambda s: s + (1,))):
        r = f(arg)
        s = tuple(shape)
        want = s if len(s) > 1 else (nd(s) if len(s) == 1 else (1, 1))
        env.true('shape of the promoted array', np.shape(r) == want and
                 isinstance(r, np.ndarray), detail='%s -> %s' % (
                     s, np.shape(r)))
        if np.shape(r) == want and x and 0 not in shape:
            env.eq('same elements in the same order', list(r.ravel()), x)


def lists(env, n, lens):
    u = env.m.util
    xs = [[env.real('x%d_%d' % (i, j)) for j in range(k)]
          for i, k in enumerate(lens)]
    flat = [v for x in xs for v in x]
    for form in (list, tuple):
        r = u.flatten_list(form(form(x) for x in xs))
        env.true('flat list of all elements', isinstance(r, list) and
                 len(r) == len(flat))
        if len(r) == len(flat):
            env.eq('elements in order', r, flat)
    a, b = ([env.scal('%s%d' % (c, i), 'fc'[i % 2]) for i in range(n)]
            for c in 'ab')
    a0, b0 = list(a), list(b)
    r = u.sum_lists(a, b)
    env.true('a new list', isinstance(r, list) and r is not a and r is not b
             and len(r) == n)
    if len(r) == n:
        env.eq('sums of the elements', r, [p + q for p, q in zip(a0, b0)])
    env.true('lists are not modified', a == a0 and b == b0)
    for k in range(4):
        if k != n:
            try:
                u.sum_lists(a, [1.] * k)
                ok = False
            except Exception:
                ok = True
            env.true('lists of different lengths raise an error', ok)


def sums(env, shape, la, lb, form):
    A, x = fill(env, 'a', tuple(shape), la)
    B, y = fill(env, 'b', tuple(shape), lb)
    ref = np.array(A), np.array(B)
    f = (lambda z: z.tolist()) if form == 'list' else (lambda z: z)
    r = env.m.util.sum_arrays(f(A), f(B))
    env.true('shape of the sum', np.shape(r) == tuple(shape))
    if np.shape(r) == tuple(shape) and 0 not in shape:
        env.eq('sums of the elements', list(np.ravel(r)),
               [p + q for p, q in zip(x, y)])
        env.eq('arrays are not modified', [A, B], list(ref))


def iterable(env):
    x = env.real('x')
    u = env.m.util
    for v in ([x], (x, x), [], {}, 'text', env.array([x, x], 'f'),
              {1: x}, iter([x]), set([1])):
        env.true('iterables are returned unchanged', u.make_iterable(v) is v)
    for v in (x, 3, 2.5, None, object(), Vec(x)):
        r = u.make_iterable(v)
        env.true('other values: a list of one element',
                 isinstance(r, list) and len(r) == 1 and r[0] is v)


CHARS = 'ax._1'


class Str(str):
    """A file name of known length with symbolic characters."""
    def __new__(cls, chars):
        s = str.__new__(cls, '?' * len(chars))
        s.c = list(chars)
        return s

    def __getitem__(self, i):
        return Str(self.c[i] if isinstance(i, slice) else [self.c[i]])

    def __iter__(self):
        return iter(self[i] for i in range(len(self.c)))

    def __eq__(self, o):
        c = code(o)
        if c is None or len(c) != len(self.c):
            return False
        return all(bool(a == b) for a, b in zip(self.c, c))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def endswith(self, x, *a):
        if a:
            raise NotImplementedError
        if isinstance(x, tuple):
            return any(self.endswith(y) for y in x)
        n = len(x)
        return n == 0 or (n <= len(self.c) and self[-n:] == x)

    def startswith(self, x, *a):
        if a:
            raise NotImplementedError
        return len(x) <= len(self.c) and self[:len(x)] == x

    def rfind(self, x, *a):
        c = code(x)
        if a or c is None or len(c) != 1:
            raise NotImplementedError
        for i in reversed(range(len(self.c))):
            if bool(self.c[i] == c[0]):
                return i
        return -1

    def find(self, x, *a):
        c = code(x)
        if a or c is None:
            raise NotImplementedError
        for i in range(len(self.c) - len(c) + 1):
            if self[i:i + len(c)] == x:
                return i
        return -1

    def __contains__(self, x):
        return self.find(x) >= 0

    def _no(self, *a, **k):
        raise NotImplementedError
    split = rsplit = partition = rpartition = strip = lower = upper = _no
    replace = count = index = rindex = encode = lstrip = rstrip = _no
    __add__ = __radd__ = __mod__ = __lt__ = __gt__ = __le__ = __ge__ = _no


def code(s):
    if isinstance(s, Str):
        return s.c
    if isinstance(s, str):
        return [CHARS.index(x) if x in CHARS else -1 for x in s]
    return None


class Os(object):
    def __init__(self, names):
        self.listdir = lambda d='.': list(names)

    def __getattr__(self, name):
        return getattr(os, name)


def files(env, lens, ext):
    """``ext``: number of characters of the extension, or None."""
    def chars(n, k):
        return [env.int('%s%d' % (n, i), 0, len(CHARS) - 1) for i in range(k)]
    names = [chars('f%d_' % i, k) for i, k in enumerate(lens)]
    for i, x in enumerate(names):
        for y in names[:i]:
            if len(x) == len(y):
                env.assume(not equal(env, x, y))
        if len(x) < 3:
            env.assume(not equal(env, x, [2] * len(x)))
    e = chars('e', ext) if ext else []
    want = [len(x) >= len(e) and equal(env, x[len(x) - len(e):], e)
            for x in names]
    u = env.m.util
    if env.sym:
        fs = [Str(x) for x in names]
        old = u.os
        u.os = Os(fs)
        try:
            r = u.get_file_list('/sym/d', *([Str(e)] if ext else []))
        finally:
            u.os = old
        got = [sum(x is f for x in r) for f in fs]
    else:
        d = env.tmp('files')
        os.makedirs(d, exist_ok=True)
        fs = [''.join(CHARS[int(c)] for c in x) for x in names]
        for f in fs:
            open(os.path.join(d, f), 'w').close()
        r = u.get_file_list(d, *([''.join(CHARS[int(c)] for c in e)]
                                 if ext else []))
        for f in fs:
            os.unlink(os.path.join(d, f))
        got = [list(r).count(f) for f in fs]
    env.true('exactly the files with the extension, once',
             got == [int(bool(x)) for x in want] and len(r) == sum(got),
             detail='%s, expected %s' % (got, want))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for i, sa in enumerate(SHAPES):
        for j, sb in enumerate(SHAPES):
            if q and sa != sb and (i + j) % 3:
                continue
            for la, lb in (('ff', 'cc', 'ii', 'fc', 'if', 'ci')
                           if sa == sb else ('ff',)):
                if sa == sb and la == lb and (0 in sa) and la != 'f':
                    continue
                if 0 in sa + sb and la + lb != 'ff':
                    continue
                out.append((values, dict(sa=list(sa), sb=list(sb), la=la,
                                         lb=lb)))
    for sa, sb in (((2, 2), (4,)), ((4,), (2, 2)), ((1, 2), (2, 2)),
                   ((2,), (2, 2)), ((1,), (3,)), ((), (1,)), ((2, 1), (2,)),
                   ((2, 1), (1, 2)), ((0,), (1,)), ((1, 1), (2, 2))):
        out.append((values, dict(sa=list(sa), sb=list(sb), la='f', lb='f')))
    ks = ('number', 'list', 'tuple', 'none', 'object', 'text', 'array',
          'long')
    for a in ks:
        for b in ks:
            if {a, b} == {'list', 'long'} or a <= b:
                out.append((kinds, dict(a=a, b=b)))
    ts = ('text', 'pickle', 'memory', 'complex', 'text2', 'pickle2')
    for i, a in enumerate(ts):
        for b in ts[:i + 1]:
            out.append((handles, dict(ta=a, tb=b, n=4 if q else 7)))
    out.append((spaces, {}))
    ws = ('none', '1d', 'long', '2d')
    for a in ws:
        for b in ws:
            out.append((weights, dict(ka=a, kb=b)))
    for s in SHAPES + ((3, 1, 1), (1, 3, 2)):
        for ld in 'fci':
            for form in ('array', 'list'):
                if 0 in s and ld != 'f':
                    continue
                out.append((promote, dict(shape=list(s), ld=ld, form=form)))
                if s and 0 not in s:
                    out.append((sums, dict(shape=list(s), la=ld, lb='f',
                                           form=form)))
                    out.append((sums, dict(shape=list(s), la='f', lb=ld,
                                           form=form)))
    for n in range(5):
        for lens in ([], [0], [1], [2, 1], [1, 0, 3], [2, 2, 2], [4]):
            out.append((lists, dict(n=n, lens=lens)))
    out.append((iterable, {}))
    for lens in ([], [1], [3], [5], [2, 3], [4, 4], [1, 2, 3], [3, 3, 3]):
        for ext in (None, 1, 2, 3, 4):
            if q and len(lens) > 1 and ext == 4:
                continue
            out.append((files, dict(lens=lens, ext=ext)))
    return out
