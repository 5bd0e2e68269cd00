"""Stand-ins for numpy / scipy seen by the symbolically executed modules.

Everything that is not listed here falls through to the installed library,
operating on object arrays (so numpy's own Python/C index logic is what runs).
The numerical kernels (svd, eigh, eig, cholesky, ...) are replaced by
contract stubs: see linalg.py."""
import io
import re
import types
import warnings

import numpy as np
import scipy
import scipy.linalg
import scipy.signal

from . import scalar
from .arr import (SymArray, as_sym, contains_sym, ld_of_type, obj, unwrap,
                  wrap, promote, _arr_ld, _collect_ld, cast_elem, ite,
                  SBool_scalar, sym_map, _reduce_axis, elem_ld, fix_index)
from .scalar import S, SBool, SInt, SRat, Unsupported, lift, ZERO, ONE

HANDLERS = {}


def handles(*fs):
    def deco(g):
        for f in fs:
            HANDLERS[f] = g
        return g
    return deco


# ---------------------------------------------------------------- creation
def _ishape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    if isinstance(shape, np.ndarray):
        return tuple(int(s) for s in shape)
    return (int(shape),)


def _full(shape, v, dtype=float, order='C'):
    a = np.empty(_ishape(shape), dtype=object,
                 order='F' if order == 'F' else 'C')
    a[...] = v
    return wrap(a, ld_of_type(dtype))


def zeros(shape, dtype=float, order='C', **k):
    return _full(shape, 0, dtype, order)


def ones(shape, dtype=float, order='C', **k):
    return _full(shape, 1, dtype, order)


_uninit = [0]


def empty(shape, dtype=float, order='C', **k):
    """Uninitialised memory: every element is an unconstrained value."""
    a = np.empty(_ishape(shape), dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = scalar.real('uninit%d' % len(scalar.ATOMS))
    return wrap(a, ld_of_type(dtype))


def full(shape, fill_value, dtype=None, order='C', **k):
    ld = ld_of_type(dtype) if dtype is not None else elem_ld(fill_value)
    a = np.empty(_ishape(shape), dtype=object)
    a[...] = cast_elem(fill_value, ld) if not isinstance(
        fill_value, np.ndarray) else unwrap(fill_value)
    return wrap(a, ld)


def _like(f):
    def g(a, dtype=None, *ar, **k):
        if isinstance(a, SymArray) or contains_sym(a):
            a = as_sym(a) if not isinstance(a, SymArray) else a
            r = f(a.shape, float)
            r._ld = a._ld if dtype is None else ld_of_type(dtype)
            return r
        r = f(np.shape(a), float)
        r._ld = ld_of_type(dtype if dtype is not None
                           else np.asarray(a).dtype)
        return r
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


@handles(np.full_like)
def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return full(np.shape(a), v, a.dtype if dtype is None else dtype)


@handles(np.block)
def block(arrays):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    n = depth(arrays)

    def join(x, d):
        if not isinstance(x, list):
            x = asarray(x)
            k = max(n, np.ndim(x))
            return x.reshape((1,) * (k - np.ndim(x)) + np.shape(x))
        parts = [join(y, d + 1) for y in x]
        k = max(p.ndim for p in parts)
        parts = [p.reshape((1,) * (k - p.ndim) + p.shape) for p in parts]
        return np.concatenate(parts, axis=k - (n - d))
    return join(arrays, 0)


@handles(np.hypot)
def hypot(a, b):
    return np.sqrt(a * a + b * b)


@handles(np.ptp)
def ptp(a, axis=None, **k):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


@handles(np.correlate)
def correlate(*a, **k):
    raise Unsupported('numpy.correlate')


class _Concat(object):
    """numpy.r_ and numpy.c_ for arrays and numbers."""

    def __init__(self, real, col):
        self.real = real
        self.col = col

    def __getitem__(self, key):
        k = key if isinstance(key, tuple) else (key,)
        if not any(contains_sym(x) for x in k):
            return self.real[key]
        out = []
        for x in k:
            if isinstance(x, slice):
                x = self.real[x] if not self.col else self.real[x].ravel()
            elif isinstance(x, str):
                raise Unsupported('directives in r_ or c_')
            x = np.atleast_1d(asarray(x)) if not isinstance(
                x, (S, SBool, SInt, SRat)) else as_sym([x])
            if self.col and x.ndim == 1:
                x = x.reshape(-1, 1)
            out.append(x)
        return np.concatenate(out, axis=-1 if self.col else 0)


def fromiter(it, dtype, count=-1, **k):
    xs = list(it)
    if count >= 0:
        xs = xs[:count]
    return as_sym(xs, dtype=dtype) if contains_sym(xs) else \
        np.fromiter(xs, dtype, len(xs))


def vectorize(f, otypes=None, **k):
    def g(*a):
        if not any(contains_sym(x) for x in a):
            return np.vectorize(f, otypes=otypes, **k)(*a)
        r = np.frompyfunc(f, len(a), 1)(*[
            obj(unwrap(asarray(x))) for x in a])
        return wrap(r, None) if isinstance(r, np.ndarray) else r
    return g


HANDLERS[np.zeros_like] = zeros_like
HANDLERS[np.ones_like] = ones_like
HANDLERS[np.empty_like] = empty_like


def eye(N, M=None, k=0, dtype=float, **kw):
    M = N if M is None else M
    a = zeros((N, M), dtype)
    for i in range(int(N)):
        if 0 <= i + k < int(M):
            a[i, i + k] = 1
    return a


def identity(n, dtype=None, **k):
    return eye(n, dtype=float if dtype is None else dtype)


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if not contains_sym(x):
        return np.array(x, dtype=dtype, copy=copy, order=order, subok=subok,
                        ndmin=ndmin)
    if isinstance(x, np.ndarray) and dtype is None:
        raw = np.array(unwrap(x), copy=copy, order=order or 'K', ndmin=ndmin)
        r = wrap(raw, _arr_ld(x) if isinstance(x, SymArray) else None)
        r._single = getattr(x, '_single', False)
        return r
    return as_sym(x, dtype=dtype, ndmin=ndmin)


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    if not contains_sym(x):
        return np.asarray(x, dtype=dtype, order=order)
    return as_sym(x, dtype=dtype)


def ascontiguousarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    if isinstance(a, SymArray):
        r = wrap(np.ascontiguousarray(unwrap(a)), a._ld)
        r._single = a._single
        return r
    return np.ascontiguousarray(a)


def asfortranarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    if isinstance(a, SymArray):
        return wrap(np.asfortranarray(unwrap(a)), a._ld)
    return np.asfortranarray(a)


HANDLERS[np.copy] = lambda a, order='K', subok=False: array(a, order=order)


def linspace(a, b, num=50, endpoint=True, **k):
    if contains_sym([a, b]):
        n = int(num)
        step = (lift(b) - lift(a)) / (n - 1 if endpoint else n)
        return as_sym([lift(a) + step * i for i in range(n)])
    return np.linspace(a, b, num, endpoint, **k)


def arange(*a, **k):
    if contains_sym(list(a)):
        return np.arange(*[int(x) for x in a], **k)
    return np.arange(*a, **k)


def ones_for(x):
    return x


# --------------------------------------------------------------- predicates
@handles(np.iscomplexobj)
def iscomplexobj(x):
    if isinstance(x, S):
        return elem_ld(x) == 'c'
    if contains_sym(x):
        return _arr_ld(x if isinstance(x, SymArray) else as_sym(x)) == 'c'
    return np.iscomplexobj(x)


@handles(np.isrealobj)
def isrealobj(x):
    return not iscomplexobj(x)


@handles(np.iscomplex)
def iscomplex(x):
    a = asarray(x)
    return sym_map(lambda e: ~(lift(e).imag == 0) if isinstance(
        (lift(e).imag == 0), SBool) else not (lift(e).imag == 0), a, 'b')


@handles(np.real)
def real(x):
    if isinstance(x, (S, SymArray)):
        return x.real
    if contains_sym(x):
        return as_sym(x).real
    return np.real(x)


@handles(np.imag)
def imag(x):
    if isinstance(x, (S, SymArray)):
        return x.imag
    if contains_sym(x):
        return as_sym(x).imag
    return np.imag(x)


@handles(np.all)
def all_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.all(a, axis=axis)
    return np.logical_and.reduce(a, axis=axis)


@handles(np.any)
def any_(a, axis=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.any(a, axis=axis)
    return np.logical_or.reduce(a, axis=axis)


@handles(np.array_equal)
def array_equal(a, b, equal_nan=False):
    if a is None or b is None:
        return a is b
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = np.all(a == b) if isinstance(a == b, np.ndarray) else (a == b)
    return r if isinstance(r, SBool) else bool(r)


def _isclose_elem(x, y, rtol, atol):
    d = abs(lift(x) - lift(y))
    return d <= lift(atol) + lift(rtol) * abs(lift(y))


@handles(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = obj(unwrap(asarray(a))), obj(unwrap(asarray(b)))
    return wrap(np.frompyfunc(
        lambda x, y: _isclose_elem(x, y, rtol, atol), 2, 1)(a, b), 'b')


@handles(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    r = all_(r) if isinstance(r, np.ndarray) else r
    return bool(r)


@handles(np.where)
def where(c, *xy):
    if not xy:
        return np.nonzero(asarray(c))
    x, y = xy
    cb = asarray(c)
    lds = []
    _collect_ld(x, lds)
    _collect_ld(y, lds)
    r = np.frompyfunc(ite_any, 3, 1)(
        obj(unwrap(cb)), obj(unwrap(asarray(x))), obj(unwrap(asarray(y))))
    return wrap(r, promote(*[l for l in lds if l]))


def ite_any(c, a, b):
    if not isinstance(c, (bool, np.bool_, SBool)):
        c = c != 0
    if isinstance(c, SBool) and (isinstance(a, SBool) or
                                 isinstance(b, SBool)):
        return a if bool(c) else b
    return ite(c, a, b)


@handles(np.nonzero, np.flatnonzero)
def nonzero(a):
    a = asarray(a)
    m = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        m[i] = bool(unwrap(a)[i] != 0)
    return np.nonzero(m)


HANDLERS[np.flatnonzero] = lambda a: nonzero(np.ravel(a))[0]


@handles(np.count_nonzero)
def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.count_nonzero(a, axis=axis)
    return np.sum(a != 0, axis=axis)


@handles(np.argsort)
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.argsort(a, axis=axis, kind=kind)
    if a.ndim != 1:
        raise Unsupported('argsort of a 2-d symbolic array')
    raw = unwrap(a)
    idx = []
    for i in range(raw.shape[0]):       # stable insertion sort
        j = len(idx)
        while j > 0 and bool(_lt(raw[i], raw[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def _lt(x, y):
    if isinstance(x, S) or isinstance(y, S):
        x, y = lift(x), lift(y)
        if not x.is_real() or not y.is_real():
            xr, yr = x.real, y.real
            if bool(xr == yr):
                return bool(x.imag < y.imag)
            return bool(xr < yr)
    return x < y


@handles(np.sort)
def sort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('sort of a 2-d symbolic array')
    return a[argsort(a)]


def _arg(best_first):
    def f(a, axis=None, out=None, **k):
        a = asarray(a)
        if not isinstance(a, SymArray):
            return (np.argmin if best_first == 'min' else np.argmax)(a, axis)
        raw = unwrap(a)
        if axis is not None and a.ndim > 1:
            b = np.moveaxis(raw, axis, 0)
            out = np.empty(b.shape[1:], dtype=int)
            for i in np.ndindex(*out.shape):
                out[i] = f(wrap(np.array(
                    [b[(k,) + i] for k in range(b.shape[0])],
                    dtype=object), a._ld))
            return out
        flat = raw.reshape(-1)
        if len(flat) == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        b = 0
        for i in range(1, len(flat)):
            c = (flat[i] < flat[b]) if best_first == 'min' else (
                flat[i] > flat[b])
            if bool(c):
                b = i
        return b
    return f


HANDLERS[np.argmin] = _arg('min')
HANDLERS[np.argmax] = _arg('max')


def _ext(which):
    def f(a, axis=None, out=None, keepdims=False, **k):
        a = asarray(a)
        if not isinstance(a, SymArray):
            return (np.amin if which == 'min' else np.amax)(a, axis=axis)

        def pick(x, y):
            if x is None:
                return y
            c = (y < x) if which == 'min' else (y > x)
            return y if bool(c) else x
        if a.size == 0:
            raise ValueError('zero-size array to reduction operation')
        r = _reduce_axis(unwrap(a), axis, pick, None)
        return wrap(r, a._ld)
    return f


for _f in {np.amin, np.min}:
    HANDLERS[_f] = _ext('min')
for _f in {np.amax, np.max}:
    HANDLERS[_f] = _ext('max')


@handles(np.round, np.around)
def round_(a, decimals=0, out=None):
    if decimals != 0:
        raise Unsupported('rounding to decimals')
    if isinstance(a, S):
        return a.rint()
    return np.rint(asarray(a))


@handles(np.trapz)
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    raw = obj(unwrap(y))
    y2 = np.moveaxis(raw, axis, -1)
    n = y2.shape[-1]
    if x is None:
        d = np.array([lift(dx)] * (n - 1), dtype=object)
    else:
        x = obj(unwrap(asarray(x)))
        if x.ndim != 1:
            raise Unsupported('trapz with n-d x')
        if x.shape[0] != n:
            raise ValueError('operands could not be broadcast together')
        d = np.array([lift(x[i + 1]) - lift(x[i]) for i in range(n - 1)],
                     dtype=object)
    out = np.empty(y2.shape[:-1], dtype=object)
    h = scalar.HALF
    for i in np.ndindex(*out.shape):
        t = ZERO
        for k in range(n - 1):
            t = t + d[k] * (lift(y2[i + (k + 1,)]) + lift(y2[i + (k,)])) * h
        out[i] = t
    if out.ndim == 0:
        return out[()]
    return wrap(out, promote('f', _arr_ld(y)))


@handles(np.vdot)
def vdot(a, b):
    a, b = np.ravel(asarray(a)), np.ravel(asarray(b))
    if len(a) != len(b):
        raise ValueError('cannot reshape array')
    t = ZERO
    for x, y in zip(obj(unwrap(a)), obj(unwrap(b))):
        t = t + lift(x).conjugate() * lift(y)
    return t


@handles(np.sum)
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return np.sum(a, axis=axis)
    if axis is None:
        r = 0
        for x in unwrap(a).flat:
            if isinstance(x, (SBool, bool, np.bool_)):
                x = int(bool(x))
            r = r + x
        return r
    return np.add.reduce(a, axis=axis, keepdims=keepdims)


@handles(np.mean)
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if axis is None:
        if keepdims:
            return sum_(a, axis=tuple(range(a.ndim)),
                        keepdims=True) / lift(a.size)
        return sum_(a) / lift(a.size)
    n = 1
    for i in axis if isinstance(axis, tuple) else (axis,):
        n *= a.shape[i]
    return sum_(a, axis=axis, keepdims=keepdims) / lift(n)


@handles(np.prod)
def prod(a, axis=None, **k):
    a = asarray(a)
    if axis is not None:
        raise Unsupported('prod axis')
    r = ONE
    for x in obj(unwrap(a)).flat:
        r = r * x
    return r


@handles(np.savetxt)
def _savetxt(*a, **k):
    return FS.savetxt(*a, **k)


@handles(np.einsum)
def einsum(sub, *ops, **k):
    ops = [obj(unwrap(asarray(o))) for o in ops]
    lds = [_arr_ld(o) for o in ops]
    k.pop('optimize', None)
    r = np.einsum(sub, *ops, optimize=False, **k)
    return wrap(r, None) if isinstance(r, np.ndarray) and r.ndim else (
        r[()] if isinstance(r, np.ndarray) else r)


@handles(np.may_share_memory, np.shares_memory)
def _share(a, b, *x):
    return np.may_share_memory(unwrap(a), unwrap(b))


@handles(np.result_type)
def _result_type(*a):
    lds = []
    for x in a:
        if isinstance(x, (type, np.dtype)):
            lds.append(ld_of_type(x))
        else:
            lds.append(_arr_ld(x))
    from .arr import _NPD
    return _NPD[promote(*lds)]


@handles(np.common_type)
def _common_type(*a):
    return complex if any(iscomplexobj(x) for x in a) else float


# ------------------------------------------------------------------ files
def _exact_format(fmt):
    """Does printing with this format keep every double?"""
    if not isinstance(fmt, str):
        raise Unsupported('savetxt format')
    g = re.match(r'^%[-+ ]?\d*\.(\d+)([eg])$', fmt)
    if g:
        return int(g.group(1)) >= (16 if g.group(2) == 'e' else 17)
    if fmt in ('%r', '%s'):
        return True
    if re.match(r'^%[-+ ]?\d*(\.\d+)?[efgd]$', fmt):
        return False
    raise Unsupported('savetxt format')


class MemFile(io.BytesIO):
    """A binary file of the virtual file system."""

    def __init__(self, fs, name, mode):
        self._fs, self._name = fs, name
        self._w = 'w' in mode or 'a' in mode
        io.BytesIO.__init__(self, b'' if 'w' in mode
                            else fs.binary.get(name, b''))
        if 'a' in mode:
            self.seek(0, 2)

    def close(self):
        if not self.closed and self._w:
            self._fs.binary[self._name] = self.getvalue()
        io.BytesIO.close(self)

    def __exit__(self, *a):
        self.close()


class FakeFS(object):
    """Files written by savetxt and read back by loadtxt.  savetxt stores the
    values exactly (the '%.18e' format round-trips doubles), flattened to rows
    of text columns as numpy documents."""

    def __init__(self):
        self.files = {}
        self.binary = {}

    def reset(self):
        self.files.clear()
        self.binary.clear()

    def open(self, name, mode='r', *a, **k):
        if 'b' not in mode:
            raise Unsupported('opening a text file')
        name = str(name)
        if 'r' in mode and name not in self.binary:
            raise FileNotFoundError(name)
        return MemFile(self, name, mode)

    def savetxt(self, fname, X, fmt='%.18e', delimiter=' ', newline='\n',
                header='', footer='', comments='# ', encoding=None):
        exact = _exact_format(fmt)
        X = asarray(X)
        if not isinstance(X, SymArray):
            X = as_sym(np.asarray(X).tolist() if np.asarray(X).size else X,
                       dtype=np.asarray(X).dtype)
            X = X.reshape(np.shape(X))
        ld = _arr_ld(X)
        if X.ndim == 0 or X.ndim > 2:
            raise ValueError('Expected 1D or 2D array, got %dD array instead'
                             % X.ndim)
        if ld == 'c':
            raise Unsupported('savetxt of complex data')
        raw = unwrap(X)
        if raw.ndim == 1:
            raw = raw[:, None]
        if not exact:
            # digits are lost: the numbers in the file are other numbers
            out = np.empty(raw.shape, dtype=object)
            for i in np.ndindex(*raw.shape):
                out[i] = scalar.real('rounded%d' % len(scalar.ATOMS))
            raw = out
        self.files[str(fname)] = (
            [[raw[i, j] for j in range(raw.shape[1])]
             for i in range(raw.shape[0])],
            delimiter)

    def loadtxt(self, fname, dtype=float, comments='#', delimiter=None,
                converters=None, skiprows=0, usecols=None, unpack=False,
                ndmin=0, **k):
        if str(fname) not in self.files:
            raise OSError('%s not found.' % fname)
        rows, d = self.files[str(fname)]
        ws = (None, ' ', '\t')
        if not ((d in ws and delimiter in ws) or d == delimiter):
            raise ValueError('could not convert string to float')
        if skiprows:
            rows = rows[skiprows:]
        if unpack or converters or usecols is not None:
            raise Unsupported('loadtxt option')
        if len(rows) == 0 or len(rows[0]) == 0:
            shape = (0, 1) if ndmin == 2 else (0,)
            return zeros(shape)
        a = as_sym([list(r) for r in rows])
        a._ld = 'f'
        if ld_of_type(dtype) == 'c':
            a._ld = 'c'
        if ndmin < 2:
            a = np.squeeze(a)
            if a.ndim < ndmin:
                a = np.atleast_1d(a)
        return a


FS = FakeFS()


# --------------------------------------------------------------- module proxy
def _prep(x):
    """Lists holding symbolic scalars become SymArrays before dispatch."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, (list, tuple)) and contains_sym(x):
        if all(isinstance(v, np.ndarray) for v in x):
            return x            # sequence-of-arrays arguments (hstack, ...)
        return as_sym(x)
    if isinstance(x, (S, SBool, SInt, SRat)):
        return x
    return x


class Random(object):
    """Symbolic stand-in for numpy.random: arbitrary values."""

    def __init__(self):
        self.n = 0
        self.hook = None

    def _val(self, kind):
        self.n += 1
        if kind == 'u':
            return scalar.real('rand%d' % self.n, lo=0, hi=1)
        return scalar.real('randn%d' % self.n)

    def _arr(self, size, kind):
        if self.hook is not None:
            r = self.hook(size, kind)
            if r is not None:
                return r
        if size is None or size == ():
            return self._val(kind)
        a = np.empty(_ishape(size), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self._val(kind)
        return wrap(a, 'f')

    def random(self, size=None):
        return self._arr(size, 'u')

    random_sample = random

    def rand(self, *s):
        return self._arr(s or None, 'u')

    def randn(self, *s):
        return self._arr(s or None, 'n')

    standard_normal = lambda self, size=None: self._arr(size, 'n')

    def normal(self, loc=0., scale=1., size=None):
        r = self._arr(size, 'n')
        return r

    def uniform(self, low=0., high=1., size=None):
        r = self._arr(size, 'u')
        return lift(low) + r * (lift(high) - lift(low))

    def seed(self, *a):
        pass

    def __getattr__(self, name):
        raise Unsupported('numpy.random.%s' % name)


RANDOM = Random()

_UFUNC_ON_SCALAR = {
    'abs': lambda x: abs(lift(x)), 'absolute': lambda x: abs(lift(x)),
    'sqrt': lambda x: lift(x).sqrt(), 'conj': lambda x: lift(x).conjugate(),
    'conjugate': lambda x: lift(x).conjugate(),
    'ceil': lambda x: x.ceil(), 'floor': lambda x: x.floor(),
    'rint': lambda x: x.rint(), 'round': lambda x: x.rint(),
    'isfinite': lambda x: True, 'isnan': lambda x: False,
    'isinf': lambda x: False,
    'trunc': lambda x: x.trunc(),
    'square': lambda x: x * x,
    'iscomplex': lambda x: not lift(x).is_real(),
    'isreal': lambda x: lift(x).is_real(),
}
_UFUNC2 = {
    'maximum': lambda a, b: _max2(a, b), 'minimum': lambda a, b: _min2(a, b),
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
    'true_divide': lambda a, b: a / b,
    'floor_divide': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'remainder': lambda a, b: a % b,
    'power': lambda a, b: a ** b,
    'less': lambda a, b: a < b, 'greater': lambda a, b: a > b,
    'less_equal': lambda a, b: a <= b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'dot': lambda a, b: a * b, 'logical_and': lambda a, b: a & b,
    'logical_or': lambda a, b: a | b,
}


def _max2(a, b):
    return a if bool(a >= b) else b


def _min2(a, b):
    return a if bool(a <= b) else b


def _sc(x):
    return isinstance(x, (S, SBool, SInt, SRat, int, float, complex,
                          np.generic))


class Proxy(types.ModuleType):
    def __init__(self, name, base, overrides):
        types.ModuleType.__init__(self, name)
        self.__dict__['_base'] = base
        self.__dict__['_over'] = overrides
        self.__dict__['__path__'] = []

    def __getattr__(self, name):
        over = self.__dict__['_over']
        if name in over:
            return over[name]
        v = getattr(self.__dict__['_base'], name)
        if isinstance(v, np.ufunc) or (
                callable(v) and not isinstance(v, type)):
            w = _wrapcall(name, v)
            self.__dict__[name] = w
            return w
        return v


class _WrapUfunc(object):
    def __init__(self, name, f):
        self._f = f
        self._n = name
        self.__name__ = name

    def __call__(self, *a, **k):
        return _call(self._n, self._f, a, k)

    def __getattr__(self, x):
        m = getattr(self._f, x)
        if callable(m):
            return lambda *a, **k: m(*[_prep(v) for v in a], **k)
        return m


def _wrapcall(name, f):
    if isinstance(f, np.ufunc):
        return _WrapUfunc(name, f)

    def g(*a, **k):
        return _call(name, f, a, k)
    g.__name__ = name
    return g


def _call(name, f, a, k):
    if a and all(_sc(x) for x in a) and any(
            isinstance(x, (S, SBool, SInt, SRat)) for x in a):
        if len(a) == 1 and name in _UFUNC_ON_SCALAR:
            return _UFUNC_ON_SCALAR[name](a[0])
        if len(a) == 2 and name in _UFUNC2:
            return _UFUNC2[name](*a)
    h = HANDLERS.get(f)
    if h is not None and (any(contains_sym(x) for x in a) or
                          any(contains_sym(x) for x in k.values())):
        return h(*[_prep(x) for x in a], **{n: _prep(v)
                                            for n, v in k.items()})
    a2 = [_prep(x) for x in a]
    k2 = {n: _prep(v) for n, v in k.items()}
    # plain object arrays produced elsewhere are tagged so that dispatch works
    a2 = [wrap(x, None) if isinstance(x, np.ndarray) and
          not isinstance(x, SymArray) and x.dtype == object else x
          for x in a2]
    if any(isinstance(x, (S, SBool)) for x in a2):
        a2 = [as_sym(x) if isinstance(x, (S, SBool)) else x for x in a2]
    return f(*a2, **k2)


def make_numpy(linalg_ns, extra=None):
    over = dict(
        zeros=zeros, ones=ones, empty=empty, full=full, eye=eye,
        identity=identity, array=array, asarray=asarray, asanyarray=asarray,
        ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray,
        zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
        linspace=linspace, arange=arange, random=RANDOM,
        r_=_Concat(np.r_, False), c_=_Concat(np.c_, True),
        fromiter=fromiter, vectorize=vectorize, block=block,
        linalg=linalg_ns, savetxt=FS.savetxt, loadtxt=FS.loadtxt,
        matrix=array, mat=array,
    )
    if extra:
        over.update(extra)
    return Proxy('numpy', np, over)
