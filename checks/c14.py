"""C14 the sanity check of vector handles."""
import numpy as np
from .common import REALS, NUMPY

BOUNDS = ('every magnitude (arbitrary non-negative inner product of the '
          'vector with itself) with an arbitrary relative rounding error up '
          'to 2^-48 in every evaluation of the inner product; every error '
          'above 1e-9 (relative to the larger of 1 and the inner product) in '
          'a scaled, added or scaled and added vector (real or '
          'imaginary), and every such '
          'modification of an operand; numpy vectors of up to 3 elements')
OUTSIDE = ('errors between rounding and 1e-9; vectors that are wrong only for '
           'other scale factors than the tested ones')
ASSUMPTIONS = [REALS, NUMPY]


class V(object):
    """c times the test vector, with planted faults."""

    def __init__(self, w, c, err=0):
        self.w, self.c, self.err = w, c, err

    def __mul__(self, s):
        c = self.c
        if self.w.fault == 'mul modifies':
            self.c = self.c * (1 + self.w.e)
        return V(self.w, c * s, self.w.e if self.w.fault == 'mul' else 0)

    __rmul__ = __mul__

    def __add__(self, o):
        same = self.c == o.c
        f = self.w.fault
        e = 0
        if f == 'add' and self is o or f == 'addmul' and self is not o:
            e = self.w.e
        c = self.c + o.c
        if f == 'add modifies left':
            self.c = self.c * (1 + self.w.e)
        if f == 'add modifies right':
            o.c = o.c * (1 + self.w.e)
        if f == 'addmul modifies' and self is not o:
            o.c = o.c * (1 + self.w.e)
        return V(self.w, c, e)

    def __sub__(self, o):
        return self + o * -1.

    def __deepcopy__(self, memo):
        return V(self.w, self.c, self.err)


class World(object):
    pass


def world(env, fault=None):
    w = World()
    w.fault = fault
    w.g = env.real('g', lo=0)
    w.e = env.real('e')
    w.n = 0
    return w


def check(env, w, m, ip=None, verbosity=0, noise=True):
    def inner(a, b):
        r = np.conj(a.c) * b.c * w.g + a.err
        if noise:
            w.n += 1
            d = env.real('d%d' % w.n, lo=-1, hi=1)
            r = r * (1 + d / 2 ** 48)
        return r
    v = V(w, 1)

    class H(object):
        def get(self):
            return v

        def put(self, x):
            w.put = True
    w.put = False
    vs = m.vectorspace.VectorSpaceHandles(
        inner_product=inner if ip is None else ip[0], max_vecs_per_node=10,
        verbosity=verbosity)
    try:
        vs.sanity_check(H())
        return 'accepted', v
    except (ValueError, RuntimeError) as e:
        return 'error', v


def accepts(env, verbosity=0):
    w = world(env)
    r, v = check(env, w, env.m, verbosity=verbosity)
    env.true('a correct vector of any magnitude is accepted', r == 'accepted')
    env.true('nothing is put', not w.put)
    env.eq('the vector is not modified', v.c, 1)


def rejects(env, fault, imag=False):
    w = world(env, fault)
    big = w.g if env.decide(w.g > 1) else 1
    if fault in ('mul', 'add', 'addmul'):
        eff = w.e
    else:
        eff = w.g * ((1 + w.e) * (1 + w.e) - 1)
    env.assume(abs(eff) > big * 1e-9)
    if imag:
        w.e = env.I * w.e
    r, v = check(env, w, env.m, noise=False)
    env.true('an inconsistent vector (%s) is rejected' % fault, r == 'error')


def arrays(env, n, ld, shape=None):
    """numpy vectors with the usual inner product are accepted."""
    m = env.m
    x = env.array([env.ireal('x%d' % i, -9, 9) if ld == 'i' else
                   env.real('x%d' % i, -99, 99) if ld == 'f' else
                   env.cplx('x%d' % i, -99, 99) for i in range(n)], ld)
    if shape:
        x = x.reshape(shape)
    vs = m.vectorspace.VectorSpaceHandles(
        inner_product=m.vectors.inner_product_array_uniform,
        max_vecs_per_node=10, verbosity=0)
    x0 = np.array(x)
    h = m.vectors.VecHandleInMemory(x)
    vs.sanity_check(h)
    env.eq('the vector is not modified', h.vec, x0)
    # the wrappers of the decomposition classes
    for mk in (lambda f: m.pod.PODHandles(f, max_vecs_per_node=10,
                                          verbosity=0),
               lambda f: m.bpod.BPODHandles(f, max_vecs_per_node=10,
                                            verbosity=0),
               lambda f: m.dmd.DMDHandles(f, max_vecs_per_node=10,
                                          verbosity=0),
               lambda f: m.dmd.TLSqrDMDHandles(f, max_vecs_per_node=10,
                                               verbosity=0)):
        mk(m.vectors.inner_product_array_uniform).sanity_check(h)
        o = mk(lambda a, b: m.vectors.inner_product_array_uniform(a, b) +
               1.)
        try:
            o.sanity_check(h)
            r = 'accepted'
        except ValueError:
            r = 'error'
        env.true('an inconsistent inner product is rejected by the '
                 'decomposition objects too', r == 'error')


def none(env):
    w = world(env)
    r, _ = check(env, w, env.m, ip=(None,))
    env.true('a missing inner product raises an error', r == 'error')


def inplace(env, op, ld):
    """numpy vectors whose operators work in place."""
    m = env.m
    x = env.rvec('x', 2)

    class A(object):
        def __init__(self, x):
            self.x = x

        def __mul__(self, s):
            if op == 'mul':
                self.x *= s
                return self
            return A(self.x * s)

        __rmul__ = __mul__

        def __add__(self, o):
            if op == 'add':
                self.x += o.x
                return self
            return A(self.x + o.x)

        def __deepcopy__(self, memo):
            return A(self.x.copy())
    env.assume(abs(x[0]) > 1)
    vs = m.vectorspace.VectorSpaceHandles(
        inner_product=lambda a, b: np.vdot(a.x, b.x), max_vecs_per_node=10,
        verbosity=0)
    try:
        vs.sanity_check(m.vectors.VecHandleInMemory(A(x)))
        r = 'accepted'
    except ValueError:
        r = 'error'
    env.true('operators that work in place are rejected', r == 'error')


FAULTS = ('mul', 'add', 'addmul', 'mul modifies', 'add modifies left',
          'add modifies right', 'addmul modifies')


def scenarios(tier):
    out = [(accepts, {}), (accepts, dict(verbosity=1)), (none, {})]
    for f in FAULTS:
        out.append((rejects, dict(fault=f)))
        if f in ('mul', 'add', 'addmul'):
            out.append((rejects, dict(fault=f, imag=True)))
    for n in (1, 2, 3):
        for ld in 'fci':
            if ld == 'c' and n > 2:
                continue
            out.append((arrays, dict(n=n, ld=ld)))
    out.append((arrays, dict(n=2, ld='f', shape=[2, 1])))
    for op in ('mul', 'add'):
        out.append((inplace, dict(op=op, ld='f')))
    return out
