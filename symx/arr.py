"""Symbolic numpy arrays: an object-dtype ndarray subclass carrying the dtype
numpy would have given the array, so that casting effects of the real library
(imaginary parts dropped, integers truncated, in-place casting errors) are
reproduced."""
import warnings

import numpy as np

from . import scalar
from .scalar import S, SBool, SInt, SRat, Unsupported, lift, ONE, ZERO

_ORDER = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
_NPD = {'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float),
        'c': np.dtype(complex)}


class SFloat(S):
    """A scalar whose run-time type is a real floating type."""
    __slots__ = ()


class SComplex(S):
    __slots__ = ()


class SInteger(S):
    __slots__ = ()


def typed(s, kind):
    c = {'f': SFloat, 'c': SComplex, 'i': SInteger}[kind]
    return c(s.t, s.d)


def ld_of_type(t):
    """Logical dtype letter of a dtype-like argument (None: unconstrained)."""
    if t is None:
        return 'f'
    if t in (SFloat, float):
        return 'f'
    if t in (SComplex, complex):
        return 'c'
    if t in (SInteger, int):
        return 'i'
    if t in (S,):
        return None
    if t is bool:
        return 'b'
    if t is object:
        return None
    k = np.dtype(t).kind
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k)


def elem_ld(x):
    if isinstance(x, S):
        c = type(x)
        if c is SFloat:
            return 'f'
        if c is SComplex:
            return 'c'
        if c is SInteger:
            return 'i'
        return 'f' if x.is_real() else 'c'
    if isinstance(x, (bool, np.bool_, SBool)):
        return 'b'
    if isinstance(x, (int, np.integer, SInt)):
        return 'i'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    return 'f'


def promote(*lds):
    r = 'b'
    for l in lds:
        if l is None:
            continue
        if _ORDER[l] > _ORDER[r]:
            r = l
    return r


def cast_elem(x, ld):
    """Value stored when ``x`` is assigned into an array of dtype ``ld``."""
    if ld is None or ld == 'c':
        return x
    if ld == 'f':
        if isinstance(x, S):
            return x if x.is_real() else x.real
        if isinstance(x, (complex, np.complexfloating)):
            return x.real
        return x
    if ld == 'i':
        if isinstance(x, S):
            if type(x) is SInteger:
                return x
            if x.is_const():
                return int(x.const()[0])
            if len(x.t) == 1 and x.d == 1:
                (m, c), = x.t.items()
                if c[1] == 0 and all(
                        scalar.ATOMS[i].integer and e > 0 for i, e in m):
                    return x
            return x.real.trunc()
        if isinstance(x, (float, np.floating)):
            return int(x)
        if isinstance(x, (complex, np.complexfloating)):
            return int(x.real)
        return x
    if ld == 'b':
        if isinstance(x, (bool, np.bool_, SBool)):
            return x
        return x != 0
    return x


def _arr_ld(a):
    if isinstance(a, SymArray):
        return a._ld if a._ld is not None else _infer(a)
    if isinstance(a, np.ndarray) or isinstance(a, np.generic):
        return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b',
                'O': None}.get(a.dtype.kind)
    if isinstance(a, (S, SBool, SInt, bool, int, float, complex)):
        return elem_ld(a)
    return None


def _infer(a):
    return promote(*[elem_ld(x) for x in a.view(np.ndarray).flat])


class SymArray(np.ndarray):
    __array_priority__ = 2000.
    _ld = None
    _single = False      # float32 / complex64 storage

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, '_ld', None)
        self._single = getattr(obj, '_single', False)

    # ------------------------------------------------------------ dtype view
    @property
    def dtype(self):
        ld = self._ld if self._ld is not None else _infer(self)
        return _NPD[ld]

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.itemsize * self.size

    @property
    def real(self):
        if self._ld in ('f', 'i', 'b'):
            return self
        return sym_map(lambda x: x.real, self, 'f')

    @property
    def imag(self):
        return sym_map(
            lambda x: x.imag if isinstance(x, (S, int, float, complex))
            else 0, self, 'f')

    # ------------------------------------------------------------- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        lds = [_arr_ld(x) for x in inputs]
        raw = [unwrap(x) for x in inputs]
        name = ufunc.__name__
        kw.pop('casting', None)
        kw.pop('dtype', None)
        if 'where' in kw and kw['where'] is not True:
            raise Unsupported('ufunc where=')
        if name in ('greater', 'greater_equal', 'less', 'less_equal',
                    'equal', 'not_equal'):
            if method != '__call__':
                raise Unsupported('ufunc method on comparison')
            r = ufunc(*[obj(x) for x in raw], dtype=object)
            if isinstance(r, bool):
                return np.bool_(r)
            ld = 'b'
        elif name in ('logical_and', 'logical_or', 'bitwise_and',
                      'bitwise_or', 'logical_not', 'invert',
                      'logical_xor', 'bitwise_xor'):
            r, ld = _logical(name, method, raw, kw, lds)
        elif name in ('maximum', 'minimum', 'fmax', 'fmin') and \
                method == '__call__':
            big = name in ('maximum', 'fmax')
            r = np.frompyfunc(
                lambda a, b: ite(a >= b if big else a <= b, a, b), 2, 1)(
                    obj(raw[0]), obj(raw[1]))
            ld = promote(*lds)
        elif name in ('absolute', 'fabs'):
            r = np.frompyfunc(abs, 1, 1)(obj(raw[0]))
            ld = promote(*lds)
            ld = 'f' if ld == 'c' else ld
        elif name == 'sqrt':
            r = np.frompyfunc(lambda x: lift(x).sqrt(), 1, 1)(obj(raw[0]))
            ld = promote('f', *lds)
        elif name in ('isfinite', 'isnan', 'isinf'):
            return np.full(np.shape(raw[0]), name == 'isfinite')
        elif name in ('rint', 'ceil', 'floor', 'trunc'):
            r = np.frompyfunc(
                lambda x: getattr(lift(x) if not isinstance(x, (SInt, SRat))
                                  else x, name)(), 1, 1)(obj(raw[0]))
            ld = lds[0]
        elif name == 'sign':
            def sg(x):
                x = lift(x)
                return SBool_scalar(x > 0) - SBool_scalar(x < 0)
            r = np.frompyfunc(sg, 1, 1)(obj(raw[0]))
            ld = lds[0]
        elif name == 'power':
            r = np.frompyfunc(_pow, 2, 1)(obj(raw[0]), obj(raw[1]))
            ld = promote(*lds)
        elif name in ('divide', 'true_divide'):
            r = np.frompyfunc(_div, 2, 1)(obj(raw[0]), obj(raw[1]))
            ld = promote('f', *lds)
        elif name == 'reciprocal':
            r = np.frompyfunc(lambda x: _div(1, x), 1, 1)(obj(raw[0]))
            ld = promote('f', *lds)
        elif name == 'square':
            r = np.frompyfunc(lambda x: x * x, 1, 1)(obj(raw[0]))
            ld = lds[0]
        elif name in ('conjugate', 'conj'):
            r = np.frompyfunc(_conj, 1, 1)(obj(raw[0]))
            ld = lds[0]
        elif name in ('add', 'subtract', 'multiply', 'negative', 'positive',
                      'matmul', 'floor_divide', 'remainder'):
            if name == 'add' and method == 'reduce':
                raw = [obj(_force_bool(x, l)) for x, l in zip(raw, lds)]
                r = np.add.reduce(*raw, **kw)
                ld = promote('i', *lds)
            else:
                raw = [obj(x) if i < 2 else x for i, x in enumerate(raw)] \
                    if method in ('__call__', 'outer') else \
                    [obj(raw[0])] + raw[1:]
                if name == 'subtract' and method == '__call__' and \
                        lds[0] == 'b' and lds[1] == 'b':
                    raise TypeError('numpy boolean subtract is not supported')
                r = getattr(ufunc, method)(*raw, **kw)
                ld = promote(*lds)
        else:
            raise Unsupported('ufunc %s' % name)
        if out is not None:
            o = out[0]
            if not isinstance(o, SymArray):
                raise Unsupported('symbolic result into a concrete array')
            tgt = o._ld
            if tgt is not None and ld is not None and \
                    _ORDER[ld] > _ORDER[tgt] and not (
                        tgt == 'f' and ld in ('i', 'b')):
                raise TypeError(
                    "Cannot cast ufunc '%s' output from %s to %s with casting "
                    "rule 'same_kind'" % (name, _NPD[ld], _NPD[tgt]))
            o[...] = wrap(r, ld)
            return o
        return wrap(r, ld)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        h = npx.HANDLERS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        lds = []
        a2 = _deep_unwrap(args, lds)
        k2 = {k: _deep_unwrap(v, lds) for k, v in kwargs.items()}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = func(*a2, **k2)
        ld = promote(*lds) if lds else None
        return _deep_wrap(r, ld)

    # --------------------------------------------------------------- setting
    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        ld = self._ld
        if ld in ('f', 'i', 'b'):
            if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
                val = np.frompyfunc(lambda x: cast_elem(x, ld), 1, 1)(
                    obj(unwrap(as_sym(val))))
            else:
                if ld == 'f' and isinstance(val, (complex, SComplex)) and \
                        not isinstance(val, np.complexfloating) and \
                        isinstance(val, complex):
                    raise TypeError("can't convert complex to float")
                val = cast_elem(val, ld)
        elif isinstance(val, (list, tuple)):
            val = obj(unwrap(as_sym(val)))
        np.ndarray.__setitem__(self.view(np.ndarray), idx, unwrap(val))

    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def fill(self, v):
        self[...] = v

    # --------------------------------------------------------------- methods
    def view(self, *a, **k):
        if a and a[0] in (float, complex, np.float64, np.complex128) or (
                a and isinstance(a[0], (np.dtype, str)) and
                a[0] is not None):
            tgt = ld_of_type(a[0])
            return view_as(self, tgt)
        return np.ndarray.view(self, *a, **k)

    def astype(self, dtype, *a, **k):
        ld = ld_of_type(dtype)
        r = np.frompyfunc(lambda x: cast_elem(x, ld), 1, 1)(
            obj(self.view(np.ndarray)))
        return wrap(r, ld)

    def dot(self, o, out=None):
        return np.dot(self, o)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, **k):
        return np.sum(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.all(self, axis=axis)

    def any(self, axis=None, **k):
        return np.any(self, axis=axis)

    def min(self, axis=None, **k):
        return np.amin(self, axis=axis)

    def max(self, axis=None, **k):
        return np.amax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return np.argmin(self, axis=axis)

    def argmax(self, axis=None, **k):
        return np.argmax(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return np.argsort(self, axis=axis)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return np.mean(self, axis=axis, **k)

    def ptp(self, axis=None, **k):
        return np.max(self, axis=axis) - np.min(self, axis=axis)

    def var(self, *a, **k):
        raise Unsupported('var')

    def std(self, *a, **k):
        raise Unsupported('std')

    def cumsum(self, axis=None, **k):
        return np.cumsum(self, axis=axis)

    def nonzero(self):
        return np.nonzero(self)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def diagonal(self, *a, **k):
        return wrap(np.ndarray.diagonal(self.view(np.ndarray), *a, **k),
                    self._ld)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __eq__(self, o):
        if o is None:
            return np.zeros(self.shape, dtype=bool)
        return np.equal(self, o)

    def __ne__(self, o):
        if o is None:
            return np.ones(self.shape, dtype=bool)
        return np.not_equal(self, o)

    __hash__ = None

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (_rebuild, (self.shape, list(self.view(np.ndarray).flat),
                           self._ld))

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __repr__(self):
        return 'SymArray(%s, shape=%s, ld=%s)' % (
            self.view(np.ndarray).tolist(), self.shape, self._ld)

    __str__ = __repr__

    def __format__(self, spec):
        return '<symarray>'


def _rebuild(shape, flat, ld):
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = x
    return wrap(a.reshape(shape), ld)


def view_as(a, tgt):
    ld = a._ld if a._ld is not None else _infer(a)
    if a.ndim == 0:
        raise ValueError('Changing the dtype of a 0d array is only supported '
                         'if the itemsize is unchanged')
    raw = a.view(np.ndarray)
    if a._single:
        # float32 bits read as float64: unrelated numbers, half as many
        n = a.shape[-1] * (2 if ld == 'c' else 1)
        if n % 2:
            raise ValueError('When changing to a larger dtype, its size must '
                             'be a divisor of the total size in bytes of the '
                             'last axis of the array.')
        out = np.empty(a.shape[:-1] + (n // 2,), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = scalar.real('bits%d' % len(scalar.ATOMS))
        return wrap(out, 'f')
    contig_last = (a.strides[-1] == np.dtype(object).itemsize or
                   a.shape[-1] == 1)
    if ld == tgt:
        return a
    if ld == 'c' and tgt == 'f':
        if not contig_last:
            raise ValueError('To change to a dtype of a different size, the '
                             'last axis must be contiguous')
        out = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=object)
        for i in np.ndindex(*a.shape):
            x = raw[i]
            x = lift(x)
            out[i[:-1] + (2 * i[-1],)] = x.real
            out[i[:-1] + (2 * i[-1] + 1,)] = x.imag
        return wrap(out, 'f')
    if ld == 'f' and tgt == 'c':
        if not contig_last:
            raise ValueError('To change to a dtype of a different size, the '
                             'last axis must be contiguous')
        if a.shape[-1] % 2:
            raise ValueError('When changing to a larger dtype, its size must '
                             'be a divisor of the total size in bytes of the '
                             'last axis of the array.')
        out = np.empty(a.shape[:-1] + (a.shape[-1] // 2,), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = lift(raw[i[:-1] + (2 * i[-1],)]) + scalar.I * lift(
                raw[i[:-1] + (2 * i[-1] + 1,)])
        return wrap(out, 'c')
    if ld in ('i', 'b') and tgt in ('f', 'c'):
        # reinterpretation of integer bits as floats: an unrelated value
        if ld == 'b':
            raise ValueError('cannot reinterpret booleans')
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = scalar.real('bits%d' % len(scalar.ATOMS))
        return wrap(out, 'f')
    raise Unsupported('view %s as %s' % (ld, tgt))


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, SymArray):
        raw = idx.view(np.ndarray)
        if idx._ld == 'b' or all(isinstance(x, (bool, np.bool_, SBool))
                                 for x in raw.flat):
            return np.array([bool(x) for x in raw.flat],
                            dtype=bool).reshape(raw.shape)
        return np.array([int(x) for x in raw.flat],
                        dtype=int).reshape(raw.shape)
    if isinstance(idx, (S, SInt)):
        return int(idx)
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, slice):
        f = lambda v: int(v) if isinstance(v, (S, SInt)) else v
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, list) and any(isinstance(x, (S, SInt, SBool))
                                     for x in idx):
        return [fix_index(x) for x in idx]
    return idx


def SBool_scalar(b):
    if isinstance(b, SBool):
        return b.as_scalar()
    return ONE if b else ZERO


def ite(c, a, b):
    if isinstance(c, SBool):
        i = c.as_scalar()
        if i.is_const():
            return a if i.const()[0] else b
        a, b = lift(a), lift(b)
        return b + i * (a - b)
    return a if c else b


def _pow(a, b):
    if isinstance(a, (S, SInt, SRat, SBool)):
        if isinstance(b, (np.floating, np.integer)):
            b = b.item()
        return a ** b
    if isinstance(b, S):
        return lift(a) ** b
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return lift(a) ** b if b != int(b) or b < 0 else a ** b
    return a ** b


def _div(a, b):
    if isinstance(a, (SInt, SRat)) or isinstance(b, (SInt, SRat)):
        return a / b
    b2 = lift(b)
    if not b2.t:
        raise ZeroDivisionError('division by zero')
    if not isinstance(a, S) and not isinstance(b, S):
        return lift(a) * scalar.inv(b2)
    return lift(a) * scalar.inv(b2)


def _conj(x):
    if isinstance(x, (bool, int, float, SBool, SInt, SRat)):
        return x
    return x.conjugate()


def _logical(name, method, raw, kw, lds):
    def tob(x):
        if isinstance(x, (bool, np.bool_, SBool)):
            return x
        return x != 0

    def land(a, b):
        a, b = tob(a), tob(b)
        if isinstance(a, SBool):
            return a & b
        if isinstance(b, SBool):
            return b & bool(a)
        return bool(a) and bool(b)

    def lor(a, b):
        a, b = tob(a), tob(b)
        if isinstance(a, SBool):
            return a | b
        if isinstance(b, SBool):
            return b | bool(a)
        return bool(a) or bool(b)

    def lnot(a):
        a = tob(a)
        return ~a if isinstance(a, SBool) else not a

    def lxor(a, b):
        a, b = tob(a), tob(b)
        if isinstance(a, SBool):
            return a ^ b
        if isinstance(b, SBool):
            return b ^ bool(a)
        return bool(a) != bool(b)
    if name in ('logical_not', 'invert'):
        return np.frompyfunc(lnot, 1, 1)(obj(raw[0])), 'b'
    f = {'logical_and': land, 'bitwise_and': land, 'logical_or': lor,
         'bitwise_or': lor, 'logical_xor': lxor, 'bitwise_xor': lxor}[name]
    if method == '__call__':
        return np.frompyfunc(f, 2, 1)(obj(raw[0]), obj(raw[1])), 'b'
    if method == 'reduce':
        axis = kw.get('axis', 0)
        a = obj(raw[0])
        ident = name in ('logical_and', 'bitwise_and')
        return _reduce_axis(a, axis, f, ident, kw.get('keepdims', False)), 'b'
    raise Unsupported('%s.%s' % (name, method))


def _reduce_axis(a, axis, f, init, keepdims=False):
    if axis is None:
        r = init
        for x in a.flat:
            r = f(r, x)
        if keepdims:
            return np.array(r, dtype=object).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        raise Unsupported('multi-axis logical reduction')
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape[1:], dtype=object)
    for i in np.ndindex(*out.shape):
        r = init
        for k in range(b.shape[0]):
            r = f(r, b[(k,) + i])
        out[i] = r
    return out


def _force_bool(x, ld):
    """Sums of truth values: decide each one (fork)."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        if any(isinstance(e, SBool) for e in x.flat):
            return np.frompyfunc(
                lambda e: int(bool(e)) if isinstance(e, SBool) else
                (int(e) if isinstance(e, (bool, np.bool_)) else e), 1, 1)(x)
        if ld == 'b':
            return np.frompyfunc(lambda e: int(e), 1, 1)(x)
    return x


def unwrap(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    return x


def obj(x):
    """Plain object ndarray (0-d for scalars)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    a = np.empty((), dtype=object)
    if isinstance(x, np.generic):
        x = x.item()
    a[()] = x
    return a


def wrap(r, ld=None):
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            if isinstance(r, SymArray):
                return r
            return r
        v = r.view(SymArray)
        v._ld = ld
        return v
    return r


def _deep_unwrap(x, lds):
    if isinstance(x, SymArray):
        lds.append(_arr_ld(x))
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        lds.append(_arr_ld(x))
        return x
    if isinstance(x, S):
        lds.append(elem_ld(x))
        return x
    if isinstance(x, complex):
        lds.append('c')
        return x
    if isinstance(x, list):
        return [_deep_unwrap(v, lds) for v in x]
    if isinstance(x, tuple):
        return tuple(_deep_unwrap(v, lds) for v in x)
    return x


def _deep_wrap(r, ld):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r, ld)
    if isinstance(r, tuple):
        return tuple(_deep_wrap(v, ld) for v in r)
    if isinstance(r, list):
        return [_deep_wrap(v, ld) for v in r]
    return r


def contains_sym(x, depth=0):
    if isinstance(x, (S, SBool, SInt, SRat, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_sym(v, depth + 1) for v in x)
    return False


def _listify(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_listify(v) for v in x]
    return x


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        shapes = [_shape_of(v) for v in x]
        if any(s != shapes[0] for s in shapes):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        return (len(x),) + shapes[0]
    if hasattr(x, '__array__') and not isinstance(x, (np.generic, S)):
        return np.asarray(x).shape
    return ()


def _fill(out, idx, x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            out[idx] = x.item() if x.dtype != object else x[()]
            return
        for i in np.ndindex(*x.shape):
            v = x[i]
            out[idx + i] = v.item() if isinstance(v, np.generic) else v
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            _fill(out, idx + (i,), v)
    else:
        out[idx] = x.item() if isinstance(x, np.generic) else x


def _collect_ld(x, acc):
    if isinstance(x, np.ndarray):
        acc.append(_arr_ld(x) if x.size or isinstance(x, SymArray) and
                   x._ld else None)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _collect_ld(v, acc)
    else:
        acc.append(elem_ld(x))


def as_sym(x, dtype=None, ndmin=0):
    """Build a SymArray from nested sequences / arrays / scalars (copies)."""
    lds = []
    _collect_ld(x, lds)
    lds = [l for l in lds if l is not None]
    ld = promote(*lds) if lds else 'f'
    y = _listify(x)
    shape = _shape_of(y)
    out = np.empty(shape, dtype=object)
    _fill(out, (), y)
    if dtype is not None:
        t = ld_of_type(dtype)
        if t is not None:
            if t == 'f' and ld == 'c' and isinstance(x, (list, tuple, S)):
                pass
            out = np.frompyfunc(lambda e: cast_elem(e, t), 1, 1)(out) \
                if out.size else out
            out = obj(out)
            ld = t
    while out.ndim < ndmin:
        out = out[None]
    return wrap(out, ld)


def sym_map(f, a, ld=None):
    out = np.empty(a.shape, dtype=object)
    raw = a.view(np.ndarray)
    for i in np.ndindex(*a.shape):
        out[i] = f(raw[i])
    return wrap(out, ld)


def mat(rows, ld=None):
    """SymArray from a nested list of scalars."""
    a = as_sym(rows)
    if ld is not None:
        a._ld = ld
    return a
