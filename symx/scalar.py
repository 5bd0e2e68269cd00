"""Exact symbolic scalars.

A scalar is a Laurent polynomial with Gaussian-rational coefficients over
atoms.  Atom kinds:

``real``   an arbitrary real variable (self-conjugate)
``pos``    a strictly positive real variable (self-conjugate, may be inverted)
``phase``  a complex number of modulus one (conjugate == inverse)
``bool``   the indicator (0/1) of an SBool condition (idempotent)
``sqrt``   the non-negative root of a real, non-negative scalar
``inv``    the reciprocal of a scalar (domain: that scalar is non-zero)

``real``/``phase`` atoms carry no rewriting rules, so two scalars built from
them are equal as functions iff their representations are identical; the other
kinds are handled by clearing denominators / reducing squares, and everything
that remains is handed to the SMT solver through :func:`to_z3`.
"""
import dis
import cmath
import math
import sys
from fractions import Fraction

import numpy as np

from .z3load import z3


class Unsupported(Exception):
    """The encoder met an operation it has no encoding for."""


ATOMS = []          # index -> Atom
_intern = {}


class Atom(object):
    __slots__ = ('idx', 'kind', 'name', 'defn', 'lo', 'hi', 'integer')

    def __init__(self, kind, name, defn=None, lo=None, hi=None, integer=False):
        self.idx = len(ATOMS)
        self.kind = kind
        self.name = name
        self.defn = defn
        self.lo = lo
        self.hi = hi
        self.integer = integer
        ATOMS.append(self)


def reset():
    del ATOMS[:]
    _intern.clear()
    _mono_cache.clear()
    _z3cache.clear()


_mono_cache = {}


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mono_cache.get(key)
    if r is not None:
        return r
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n == 0:
            del d[i]
        else:
            if n > 1 and ATOMS[i].kind == 'bool':
                n = 1
            d[i] = n
    r = tuple(sorted(d.items()))
    if len(_mono_cache) > 2000000:
        _mono_cache.clear()
    _mono_cache[key] = r
    return r


def _gcd_norm(t, d):
    if d == 1:
        return t, d
    g = d
    for re, im in t.values():
        g = math.gcd(g, re)
        if g == 1:
            return t, d
        g = math.gcd(g, im)
        if g == 1:
            return t, d
    return {m: (re // g, im // g) for m, (re, im) in t.items()}, d // g


def _special(m):
    for i, e in m:
        if e < 0:
            if ATOMS[i].kind in ('sqrt', 'inv'):
                return True
        elif e > 1 and ATOMS[i].kind == 'sqrt':
            return True
    return False



_BINARY_OP = dis.opmap.get('BINARY_OP', -1)


def formatting():
    """Is the conversion asked for by ``'...' % x``?  The number only ends up
    in a message then, so any value serves (a message is compared by what
    kind of stream it went to, never by its digits)."""
    f = sys._getframe(2)
    code = f.f_code.co_code
    i = f.f_lasti
    return 0 <= i < len(code) - 1 and code[i] == _BINARY_OP and \
        code[i + 1] in (6, 19) and any(
            isinstance(c, str) and '%' in c for c in f.f_code.co_consts)


class S(object):
    """Symbolic scalar (see module docstring)."""
    __slots__ = ('t', 'd', '_h')
    __array_priority__ = 1000.

    def __init__(self, t, d=1):
        self.t = t
        self.d = d
        self._h = None

    # ------------------------------------------------------------ helpers
    def key(self):
        if self._h is None:
            self._h = (self.d, frozenset(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        if not self.t:
            return True
        if any(ATOMS[i].kind == 'inv' for m in self.t for i, e in m):
            return not clear_inv(self)[0].t
        return False

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """(re, im) Fractions of a constant."""
        if not self.t:
            return Fraction(0), Fraction(0)
        re, im = self.t[()]
        return Fraction(re, self.d), Fraction(im, self.d)

    def is_real(self):
        if all(im == 0 for re, im in self.t.values()) and not any(
                ATOMS[i].kind == 'phase' or (
                    ATOMS[i].kind == 'inv' and not ATOMS[i].defn.is_real())
                for m in self.t for i, e in m):
            return True
        return (self - self.conjugate()).is_zero()

    def atoms(self):
        return {i for m in self.t for i, e in m}

    # --------------------------------------------------------- arithmetic
    def __neg__(self):
        return S({m: (-re, -im) for m, (re, im) in self.t.items()}, self.d)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        d1, d2 = self.d, o.d
        if d1 == d2:
            d = d1
            t = dict(self.t)
            k2 = 1
        else:
            g = math.gcd(d1, d2)
            k1, k2 = d2 // g, d1 // g
            d = d1 * k1
            t = {m: (re * k1, im * k1) for m, (re, im) in self.t.items()}
        for m, (re, im) in o.t.items():
            re *= k2
            im *= k2
            c = t.get(m)
            if c is None:
                t[m] = (re, im)
            else:
                re += c[0]
                im += c[1]
                if re == 0 and im == 0:
                    del t[m]
                else:
                    t[m] = (re, im)
        t, d = _gcd_norm(t, d)
        return S(t, d)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (SBool, SInt)):
            o = o.as_scalar()
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not self.t or not o.t:
            return ZERO
        t = {}
        a, b = self.t, o.t
        if len(a) > len(b):
            a, b = b, a
        special = False
        for m1, (r1, i1) in a.items():
            for m2, (r2, i2) in b.items():
                m = _mono_mul(m1, m2)
                re = r1 * r2 - i1 * i2
                im = r1 * i2 + i1 * r2
                c = t.get(m)
                if c is not None:
                    re += c[0]
                    im += c[1]
                t[m] = (re, im)
        t = {m: c for m, c in t.items() if c[0] or c[1]}
        t, d = _gcd_norm(t, self.d * o.d)
        r = S(t, d)
        for m in t:
            if _special(m):
                return r._reduce()
        return r

    __rmul__ = __mul__

    def _reduce(self):
        """Replace r**2 -> p for sqrt atoms, r**-1 -> r*inv(p), q**-1 -> p."""
        out = ZERO
        for m, c in self.t.items():
            if not _special(m):
                out = out + S({m: c}, self.d)
                continue
            base = []
            fac = ONE
            for i, e in m:
                at = ATOMS[i]
                if at.kind == 'sqrt' and (e > 1 or e < 0):
                    half, odd = divmod(e, 2)
                    if odd:
                        base.append((i, 1))
                    fac = fac * (at.defn ** half if half >= 0
                                 else inv(at.defn) ** (-half))
                elif at.kind == 'inv' and e < 0:
                    fac = fac * at.defn ** (-e)
                else:
                    base.append((i, e))
            out = out + S({tuple(base): c}, self.d) * fac
        return out

    def conjugate(self):
        t = {}
        for m, (re, im) in self.t.items():
            if any(ATOMS[i].kind == 'phase' for i, e in m):
                m = tuple((i, -e) if ATOMS[i].kind == 'phase' else (i, e)
                          for i, e in m)
            t[m] = (re, -im)
        r = S(t, self.d)
        cinv = [i for i in r.atoms() if ATOMS[i].kind == 'inv' and
                not ATOMS[i].defn.is_real()]
        if cinv:
            r = subst(r, {i: inv(ATOMS[i].defn.conjugate()) for i in cinv})
        return r

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * HALF

    @property
    def imag(self):
        return (self - self.conjugate()) * S({(): (0, -1)}, 2)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self * inv(o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o * inv(self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __pow__(self, e):
        if isinstance(e, S):
            if not e.is_const():
                raise Unsupported('symbolic exponent')
            e = e.const()[0]
        e = Fraction(e)
        if e.denominator == 1:
            n = int(e)
            base = self
            if n < 0:
                base = inv(self)
                n = -n
            out = ONE
            while n:
                if n & 1:
                    out = out * base
                n >>= 1
                if n:
                    base = base * base
            return out
        if e.denominator == 2:
            r = sqrt(self)
            return r ** int(e * 2)
        if e.denominator == 4:
            return sqrt(sqrt(self)) ** int(e * 4)
        raise Unsupported('exponent %s' % e)

    def sqrt(self):
        return sqrt(self)

    def __abs__(self):
        if self.is_const():
            re, im = self.const()
            if im == 0:
                return lift(abs(re))
            return sqrt(self * self.conjugate())
        if len(self.t) == 1:
            (m, (re, im)), = self.t.items()
            if all(ATOMS[i].kind in ('phase', 'pos', 'sqrt', 'bool') or
                   (ATOMS[i].kind == 'real' and e % 2 == 0)
                   for i, e in m):
                m2 = tuple((i, e) for i, e in m if ATOMS[i].kind != 'phase')
                return S({m2: (1, 0)}) * abs(S({(): (re, im)}, self.d))
        if self.is_real():
            from . import ctx
            c = ctx.current()
            if c is not None:
                s = c.implied_sign(self)
                if s is not None:
                    return self if s else -self
        return sqrt(self * self.conjugate())

    # -------------------------------------------------------- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SInt):
            o = o.as_scalar()
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return SBool.compare(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        r = self._cmp(o, '==')
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SBool) else (not r)

    def __bool__(self):
        r = self._cmp(0, '==')
        return not bool(r)

    # ---------------------------------------------- numpy element protocol
    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def rint(self):
        if self.is_const():
            re, im = self.const()
            return lift(Fraction(round(re)))
        return integer_part(self, 'rint')

    def ceil(self):
        return integer_part(self, 'ceil')

    def floor(self):
        return integer_part(self, 'floor')

    def trunc(self):
        return integer_part(self, 'trunc')

    __round__ = lambda self, n=None: self.rint()
    __ceil__ = ceil
    __floor__ = floor

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (self.t, self.d))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def __float__(self):
        if self.is_const():
            re, im = self.const()
            if im == 0:
                return float(re)
        if formatting():
            return float('nan')
        raise Unsupported('float() of a symbolic scalar')

    def __complex__(self):
        if self.is_const():
            re, im = self.const()
            return complex(float(re), float(im))
        raise Unsupported('complex() of a symbolic scalar')

    def __int__(self):
        if self.is_const():
            re, im = self.const()
            return int(re)
        if formatting():
            return 0
        from . import ctx
        c = ctx.current()
        if c is not None:
            return c.concretize_int(self)
        raise Unsupported('int() of a symbolic scalar')

    def __index__(self):
        re, im = self.const() if self.is_const() else (None, None)
        if re is not None and im == 0 and re.denominator == 1:
            return int(re)
        raise TypeError('symbolic scalar used as an index')

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for n, (m, (re, im)) in enumerate(sorted(self.t.items())):
            if n >= 6:
                out.append('...(%d terms)' % len(self.t))
                break
            c = ('%d' % re if im == 0 else '(%d%+dj)' % (re, im))
            out.append('*'.join([c] + [
                ATOMS[i].name + ('' if e == 1 else '^%d' % e) for i, e in m]))
        s = ' + '.join(out)
        return s if self.d == 1 else '(%s)/%d' % (s, self.d)

    def __format__(self, spec):
        return '<sym>'


def _unpickle(t, d):
    return S(t, d)


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return S({(): (x, 0)}) if x else ZERO
    if isinstance(x, Fraction):
        if x == 0:
            return ZERO
        return S({(): (x.numerator, 0)}, x.denominator)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite constant')
        return lift(Fraction(x))
    if isinstance(x, complex):
        re, im = Fraction(x.real), Fraction(x.imag)
        d = math.lcm(re.denominator, im.denominator)
        c = (int(re * d), int(im * d))
        if c == (0, 0):
            return ZERO
        return S({(): c}, d)
    if isinstance(x, (SBool, SInt)):
        return x.as_scalar()
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(
            x, 'shape', None) == ():
        v = x.item()
        if not (hasattr(v, 'dtype') and not isinstance(v, S)):
            return lift(v)
    return NotImplemented


ZERO = S({})
ONE = S({(): (1, 0)})
HALF = S({(): (1, 0)}, 2)
I = S({(): (0, 1)})


def _atom_scalar(a):
    return S({((a.idx, 1),): (1, 0)})


def real(name, lo=None, hi=None, integer=False):
    return _atom_scalar(Atom('real', name, lo=lo, hi=hi, integer=integer))


def pos(name, lo=None, hi=None):
    return _atom_scalar(Atom('pos', name, lo=lo, hi=hi))


def phase(name):
    return _atom_scalar(Atom('phase', name))


def cplx(name, lo=None, hi=None):
    return real(name + '.re', lo, hi) + I * real(name + '.im', lo, hi)


class FnNode(object):
    """A numerically evaluable kernel call whose entries are opaque atoms."""

    def __init__(self, name, args, func):
        self.name = name
        self.args = args
        self.func = func
        self.cache = {}

    def value(self, val):
        k = id(val)
        r = self.cache.get(k)
        if r is None:
            args = [val.array(a) for a in self.args]
            r = (val, self.func(*args))
            self.cache = {k: r}
        return r[1]


def fn_atom(node, index, part):
    a = Atom('real', '%s%s%d' % (node.name, part, len(ATOMS)))
    a.defn = ('fn', (node, index, part))
    return _atom_scalar(a)


def is_zero_s(x):
    return lift(x).is_zero()


def subst(p, mapping):
    """Substitute atoms by scalars (exponents must be non-negative for
    non-invertible images)."""
    out = ZERO
    for m, c in p.t.items():
        keep = []
        fac = ONE
        for i, e in m:
            if i in mapping:
                fac = fac * (mapping[i] ** e)
            else:
                keep.append((i, e))
        out = out + S({tuple(keep): c}, p.d) * fac
    return out


def inv(p):
    p = lift(p)
    if not p.t:
        raise ZeroDivisionError('division by an identically zero value')
    if len(p.t) == 1:
        (m, (re, im)), = p.t.items()
        if all(ATOMS[i].kind in ('pos', 'phase') for i, e in m):
            n = re * re + im * im
            t = {tuple((i, -e) for i, e in m): (re * p.d, -im * p.d)}
            return S(*_gcd_norm(t, n))
        if all(ATOMS[i].kind in ('pos', 'phase', 'sqrt', 'inv')
               for i, e in m):
            out = inv(S({(): (re, im)}, p.d))
            for i, e in m:
                at = ATOMS[i]
                if at.kind == 'inv':
                    out = out * at.defn ** e
                elif at.kind == 'sqrt':
                    out = out * (_atom_scalar(at) * inv(at.defn)) ** e
                else:
                    out = out * S({((i, -e),): (1, 0)})
            return out
    # normalise by a common monomial of invertible atoms so that scaled
    # copies of the same polynomial share one reciprocal
    mins = {}
    first = True
    for m in p.t:
        dm = {i: e for i, e in m if ATOMS[i].kind in ('pos', 'phase')}
        if first:
            mins = dict(dm)
            first = False
        else:
            for i in list(mins):
                mins[i] = min(mins[i], dm.get(i, 0))
            for i, e in dm.items():
                if i not in mins:
                    mins[i] = min(0, e)
    mono = tuple(sorted((i, e) for i, e in mins.items() if e))
    core = p
    scale = ONE
    if mono:
        minv = S({tuple((i, -e) for i, e in mono): (1, 0)})
        core = p * minv
        scale = minv
    lead = core.t[max(core.t)]
    k = inv(S({(): lead}, core.d))
    core = core * k
    scale = scale * k
    key = ('inv', core.key())
    a = _intern.get(key)
    if a is None:
        a = Atom('inv', 'inv%d' % len(ATOMS), defn=core)
        _intern[key] = a
    return _atom_scalar(a) * scale


def sqrt(p):
    p = lift(p)
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, (re, im)), = p.t.items()
        if im == 0 and re > 0 and all(
                ATOMS[i].kind in ('pos',) and e % 2 == 0 or
                ATOMS[i].kind == 'bool' for i, e in m):
            f = Fraction(re, p.d)
            rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
            half = tuple((i, e // 2) if ATOMS[i].kind == 'pos' else (i, e)
                         for i, e in m)
            if rn * rn == f.numerator and rd * rd == f.denominator:
                return S({half: (rn, 0)}, rd)
            return S({half: (1, 0)}) * _sqrt_atom(lift(f))
    return _sqrt_atom(p)


def _sqrt_atom(p):
    if p.is_const() and p.const()[0] < 0:
        raise Unsupported('square root of a negative number')
    if not p.is_real():
        raise Unsupported('square root of a complex value')
    key = ('sqrt', p.key())
    a = _intern.get(key)
    if a is None:
        a = Atom('sqrt', 'sqrt%d' % len(ATOMS), defn=p)
        _intern[key] = a
    return _atom_scalar(a)


def clear_inv(p, keep=()):
    """Multiply ``p`` by powers of the definitions of its reciprocal atoms
    until none is left.  Returns (numerator, list of (defn, power))."""
    facs = []
    guard = 0
    while True:
        cand = [i for i in p.atoms() if ATOMS[i].kind == 'inv']
        if not cand:
            return p, facs
        i = max(cand)
        at = ATOMS[i]
        n = max(e for m in p.t for j, e in m if j == i)
        out = ZERO
        groups = {}
        for m, c in p.t.items():
            e = dict(m).get(i, 0)
            groups.setdefault(e, {})[tuple(x for x in m if x[0] != i)] = c
        for e, t in groups.items():
            out = out + S(t, p.d) * at.defn ** (n - e)
        facs.append((at.defn, n))
        p = out
        guard += 1
        if guard > 200:
            raise Unsupported('denominator clearing did not terminate')


def integer_part(p, how):
    key = (how, p.key())
    a = _intern.get(key)
    if a is None:
        a = Atom('real', '%s%d' % (how, len(ATOMS)), integer=True)
        a.defn = (how, p)
        _intern[key] = a
    return _atom_scalar(a)


# --------------------------------------------------------------- symbolic ints
class SInt(object):
    """Symbolic integer backed by a z3 Int term; concretised lazily."""
    __slots__ = ('z',)
    __array_priority__ = 1000.

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _o(o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if hasattr(o, 'dtype') and getattr(o, 'shape', None) == () and \
                o.dtype.kind in 'iub':
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f, g):
        z = SInt._o(o)
        if z is not None:
            return SInt(f(self.z, z))
        o2 = lift(o)
        if o2 is NotImplemented:
            return NotImplemented
        return g(self.as_scalar(), o2)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SInt(-self.z)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return SRat(self.zr(), _toreal(o))

    def __rtruediv__(self, o):
        return SRat(_toreal(o), self.zr())

    def _nz(self, z):
        from . import ctx
        if ctx.current().branch(z == 0):
            raise ZeroDivisionError('integer division or modulo by zero')

    def __floordiv__(self, o):
        z = SInt._o(o)
        if z is None:
            return NotImplemented
        self._nz(z)
        # z3 div is Euclidean; python floors
        return SInt(z3.If(z > 0, self.z / z, (-self.z) / (-z)))

    def __rfloordiv__(self, o):
        z = SInt._o(o)
        if z is None:
            return NotImplemented
        return SInt(z) // self

    def __mod__(self, o):
        z = SInt._o(o)
        if z is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        z = SInt._o(o)
        if z is None:
            return NotImplemented
        return SInt(z) % self

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            out = SInt(z3.IntVal(1))
            for _ in range(n):
                out = out * self
            return out
        return SRat(self.zr(), z3.RealVal(1)) ** n

    def __abs__(self):
        return SInt(z3.If(self.z >= 0, self.z, -self.z))

    def zr(self):
        return z3.ToReal(self.z)

    def as_scalar(self):
        key = ('int', self.z.get_id())
        a = _intern.get(key)
        if a is None:
            a = Atom('real', 'int%d' % len(ATOMS), integer=True)
            a.defn = ('z3int', self.z)
            _intern[key] = a
        return _atom_scalar(a)

    def _cmp(self, o, f):
        z = SInt._o(o)
        if z is not None:
            return SBool(f(self.z, z))
        if isinstance(o, SRat):
            return SBool(f(self.zr(), o.zr()))
        if isinstance(o, (float, Fraction)):
            return SBool(f(self.zr(), z3real(Fraction(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(('SInt', self.z.get_id()))

    def __bool__(self):
        return bool(SBool(self.z != 0))

    def __int__(self):
        if formatting():
            return 0
        from . import ctx
        return ctx.current().concretize_z3int(self.z)

    def __index__(self):
        if formatting():
            return 0
        from . import ctx
        return ctx.current().concretize_z3int(self.z)

    def ceil(self):
        return self

    floor = rint = trunc = ceil
    __ceil__ = ceil
    __floor__ = ceil

    def conjugate(self):
        return self

    def __float__(self):
        if formatting():
            return float('nan')
        from . import ctx
        return float(ctx.current().concretize_z3int(self.z))

    def __format__(self, spec):
        return '<symint>'

    def __repr__(self):
        return 'SInt(%s)' % self.z

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def z3real(fr):
    fr = Fraction(fr)
    return z3.RatVal(fr.numerator, fr.denominator)


def _toreal(o):
    if isinstance(o, SInt):
        return o.zr()
    if isinstance(o, SRat):
        return o.zr()
    if hasattr(o, 'item') and not isinstance(o, S):
        o = o.item()
    return z3real(Fraction(o))


class SRat(object):
    """Ratio of z3 reals, used for arithmetic on symbolic integers
    (``ceil(a / b)`` is encoded exactly)."""
    __slots__ = ('n', 'q')
    __array_priority__ = 1000.

    def __init__(self, n, q, check=True):
        self.n = n
        self.q = q
        if check and not z3.is_rational_value(q):
            from . import ctx
            if ctx.current().branch(q == 0):
                raise ZeroDivisionError('division by zero')

    def zr(self):
        return self.n / self.q

    def __add__(self, o):
        return SRat(self.zr() + _toreal(o), z3.RealVal(1))

    __radd__ = __add__

    def __sub__(self, o):
        return SRat(self.zr() - _toreal(o), z3.RealVal(1))

    def __rsub__(self, o):
        return SRat(_toreal(o) - self.zr(), z3.RealVal(1))

    def __mul__(self, o):
        return SRat(self.zr() * _toreal(o), z3.RealVal(1))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SRat(self.zr(), _toreal(o))

    def __rtruediv__(self, o):
        return SRat(_toreal(o), self.zr())

    def __neg__(self):
        return SRat(-self.n, self.q, False)

    def _cmp(self, o, f):
        return SBool(f(self.zr(), _toreal(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = None

    def floor(self):
        return SInt(z3.ToInt(self.zr()))

    def ceil(self):
        return SInt(-z3.ToInt(-self.zr()))

    __ceil__ = ceil
    __floor__ = floor

    def __int__(self):
        if formatting():
            return 0
        v = self.zr()
        return int(SInt(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))

    def __round__(self, n=None):
        raise Unsupported('round of symbolic ratio')

    def __format__(self, spec):
        return '<symrat>'

    def __float__(self):
        return 1.0     # only ever formatted into progress messages

    def __abs__(self):
        v = self.zr()
        return SRat(z3.If(v >= 0, v, -v), z3.RealVal(1))


# -------------------------------------------------------------------- booleans
class SBool(object):
    """Symbolic truth value; branching on it forks the path."""
    __slots__ = ('z', '_key')
    __array_priority__ = 1000.

    def __init__(self, z, key=None):
        self.z = z
        self._key = key

    @staticmethod
    def compare(p, op):
        if p.is_const():
            re, im = p.const()
            if op == '==':
                return re == 0 and im == 0
            if im != 0:
                raise Unsupported('ordering of complex numbers')
            return {'<': re < 0, '<=': re <= 0,
                    '>': re > 0, '>=': re >= 0}[op]
        if p.is_zero():
            return op in ('==', '<=', '>=')
        if op == '==':
            return SBool(z3_is_zero(p))
        z = z3_of_real(p, sign_only=True)
        return SBool({'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op])

    def __bool__(self):
        from . import ctx
        return ctx.current().branch(self.z)

    def __invert__(self):
        return SBool(z3.Not(self.z))

    logical_not = __invert__

    def all(self, axis=None):
        return self

    any = item = all

    @staticmethod
    def _z(o):
        if isinstance(o, SBool):
            return o.z
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return SBool(z3.And(self.z, SBool._z(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_, SBool)):
            return SBool(z3.Or(self.z, SBool._z(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.z, SBool._z(o)))

    def as_scalar(self):
        z = self.z
        from . import ctx
        facts = ctx.current().facts
        if facts and not z3.is_true(z) and not z3.is_false(z):
            z = z3.substitute(z, *facts)
        z = z3.simplify(z)
        if z3.is_true(z):
            return ONE
        if z3.is_false(z):
            return ZERO
        key = ('bool', z.get_id())
        a = _intern.get(key)
        if a is None:
            a = Atom('bool', 'b%d' % len(ATOMS), defn=z)
            _intern[key] = a
        return _atom_scalar(a)

    def _arith(self, o, f):
        if isinstance(o, SBool):
            return f(self.as_scalar(), o.as_scalar())
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return f(self.as_scalar(), o)

    def __mul__(self, o):
        if isinstance(o, SBool):
            return self & o
        if isinstance(o, (bool, np.bool_)):
            return self & o
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.z == SBool._z(o))
        return self._arith(o, lambda a, b: a == b)

    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.z != SBool._z(o))
        return self._arith(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(('SBool', self.z.get_id()))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def any(self):
        return self

    all = any

    def __repr__(self):
        return 'SBool(%s)' % str(self.z)[:80]


# ------------------------------------------------------------------ z3 encoding
_z3cache = {}


def z3_atom(i):
    """z3 term(s) of an atom: a Real, or (c, s) for a phase."""
    key = ('atom', i)
    r = _z3cache.get(key)
    if r is None:
        a = ATOMS[i]
        if a.kind == 'phase':
            r = (z3.Real('%s.c#%d' % (a.name, i)),
                 z3.Real('%s.s#%d' % (a.name, i)))
        else:
            r = z3.Real('%s#%d' % (a.name, i))
        _z3cache[key] = r
    return r


def atom_constraints(i):
    """Defining constraints of an atom (list of z3 formulas)."""
    key = ('con', i)
    r = _z3cache.get(key)
    if r is not None:
        return r
    a = ATOMS[i]
    v = z3_atom(i)
    out = []
    if a.kind == 'phase':
        out.append(v[0] * v[0] + v[1] * v[1] == 1)
    elif a.kind == 'pos':
        out.append(v > 0)
    elif a.kind == 'bool':
        out.append(z3.If(a.defn, v == 1, v == 0))
    elif a.kind == 'sqrt':
        out.append(v >= 0)
        # definition stated with denominators cleared
        n, den = z3_frac(a.defn)
        out.append(v * v * den[0] == n[0])
    elif a.kind == 'inv':
        dz = z3_poly(a.defn)
        out.append(v * dz[0] == 1 if a.defn.is_real() else z3.BoolVal(True))
    if a.kind == 'real' and isinstance(a.defn, tuple):
        how, p = a.defn
        if how == 'z3int':
            out.append(v == z3.ToReal(p))
        elif how == 'fn':
            pass
        else:
            pz = z3_of_real(p)
            k = z3.Int('%s.k#%d' % (a.name, i))
            out.append(v == z3.ToReal(k))
            if how == 'ceil':
                out += [v >= pz, v < pz + 1]
            elif how == 'floor':
                out += [v <= pz, v > pz - 1]
            elif how == 'rint':
                half = z3.RatVal(1, 2)
                out += [v <= pz + half, v >= pz - half,
                        z3.Implies(v == pz + half, k % 2 == 0),
                        z3.Implies(v == pz - half, k % 2 == 0)]
            elif how == 'trunc':
                out.append(z3.If(pz >= 0, z3.And(v <= pz, v > pz - 1),
                                 z3.And(v >= pz, v < pz + 1)))
    if a.lo is not None and a.kind != 'phase':
        out.append(v >= z3real(a.lo))
    if a.hi is not None and a.kind != 'phase':
        out.append(v <= z3real(a.hi))
    if a.integer and a.defn is None:
        out.append(v == z3.ToReal(z3.Int('%s.i#%d' % (a.name, i))))
    _z3cache[key] = out
    return out


def closure_atoms(idxs):
    """Atoms reachable through definitions."""
    todo = list(idxs)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = ATOMS[i]
        d = a.defn
        if isinstance(d, S):
            todo.extend(d.atoms())
        elif isinstance(d, tuple) and isinstance(d[1], S):
            todo.extend(d[1].atoms())
        elif a.kind == 'bool':
            todo.extend(z3_term_atoms(d))
    return seen


def z3_term_atoms(t):
    """Atom indices mentioned by a z3 term (by variable-name suffix)."""
    key = ('ta', t.get_id())
    r = _z3cache.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '#' in n:
                out.add(int(n.rsplit('#', 1)[1]))
        else:
            stack.extend(x.children())
    _z3cache[key] = (t, out)
    return out


def _cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai is None and bi is None:
        return (ar * br, None)
    if ai is None:
        return (ar * br, ar * bi)
    if bi is None:
        return (ar * br, ai * br)
    return (ar * br - ai * bi, ar * bi + ai * br)


def z3_poly(p):
    """(re, im) z3 terms of a scalar without negative exponents of non-phase
    atoms.  ``im`` is None when identically absent."""
    res = []
    ims = []
    for m, (cr, ci) in p.t.items():
        term = None
        conds = []
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'bool':
                conds.append(a.defn)
                continue
            v = z3_atom(i)
            if a.kind == 'phase':
                c, s = v
                base = (c, s if e > 0 else -s)
                f = base
                for _ in range(abs(e) - 1):
                    f = _cmul(f, base)
            else:
                if e < 0:
                    raise Unsupported('negative exponent in z3 polynomial')
                x = v
                for _ in range(e - 1):
                    x = x * v
                f = (x, None)
            term = f if term is None else _cmul(term, f)
        if term is None:
            term = (z3.RealVal(1), None)
        tr, ti = term
        if conds:
            cnd = z3.And(conds) if len(conds) > 1 else conds[0]
            zero = z3.RealVal(0)
            tr = z3.If(cnd, tr, zero)
            ti = None if ti is None else z3.If(cnd, ti, zero)
        if cr:
            k = z3.RatVal(cr, p.d)
            res.append(k * tr)
            if ti is not None:
                ims.append(k * ti)
        if ci:
            k = z3.RatVal(ci, p.d)
            ims.append(k * tr)
            if ti is not None:
                res.append(-k * ti)
    zr = z3.Sum(res) if len(res) > 1 else (res[0] if res else z3.RealVal(0))
    zi = z3.Sum(ims) if len(ims) > 1 else (ims[0] if ims else None)
    return zr, zi


def _clear_neg(p, even=False):
    """Multiply by positive powers of 'pos' atoms so no exponent is negative.
    Returns (poly, monomial)."""
    mins = {}
    for m in p.t:
        for i, e in m:
            if e < 0 and ATOMS[i].kind == 'pos':
                mins[i] = min(mins.get(i, 0), e)
    if not mins:
        return p, ONE
    mono = S({tuple(sorted((i, -e) for i, e in mins.items())): (1, 0)})
    return p * mono, mono


def z3_frac(p):
    """((re, im), (dre, dim)): scalar as numerator/denominator z3 terms."""
    num, facs = clear_inv(p)
    den = ONE
    for f, n in facs:
        den = den * f ** n
    num, mono = _clear_neg(num)
    den = den * mono
    den, mono2 = _clear_neg(den)
    num = num * mono2
    return z3_poly(num), z3_poly(den)


def z3_of_real(p, sign_only=False):
    """z3 Real term of a real-valued scalar (or, with ``sign_only``, a term
    with the same sign)."""
    if not p.is_real():
        raise Unsupported('ordering of complex numbers')
    num, facs = clear_inv(p)
    if sign_only:
        while facs:         # times a positive power of |f|: the sign is kept
            for f, n in facs:
                if not f.is_real():
                    num = num * f.conjugate() ** n
                elif n % 2:
                    num = num * f
            num, facs = clear_inv(num)
        num, _ = _clear_neg(num)
        return z3_poly(num)[0]
    (nr, ni), (dr, di) = z3_frac(p)
    if di is not None:
        raise Unsupported('complex denominator')
    if z3.is_rational_value(dr) and dr.as_fraction() == 1:
        return nr
    return nr / dr


def z3_is_zero(p):
    num, _ = clear_inv(p)
    if not num.t:
        return z3.BoolVal(True)
    num, _ = _clear_neg(num)
    re, im = z3_poly(num)
    return re == 0 if im is None else z3.And(re == 0, im == 0)


# ------------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


class Valuation(object):
    """Numeric values of the base atoms; derived atoms are computed."""

    def __init__(self, vals, zmodel=None):
        self.vals = dict(vals)
        self.zmodel = zmodel
        self.cache = {}

    def atom(self, i):
        if i in self.cache:
            return self.cache[i]
        a = ATOMS[i]
        if a.kind == 'inv':
            x = self(a.defn)
            if abs(x) < 1e-300:
                raise EvalError('division by zero at this point')
            v = 1. / x
        elif a.kind == 'sqrt':
            x = self(a.defn).real
            if x < -1e-9 * (1 + abs(x)):
                raise EvalError('root of negative value')
            v = math.sqrt(max(x, 0.))
        elif a.kind == 'bool':
            v = 1. if self.z3bool(a.defn) else 0.
        elif a.kind == 'real' and isinstance(a.defn, tuple):
            how, p = a.defn
            if how == 'z3int':
                v = float(self.z3int(p))
            elif how == 'fn':
                node, index, part = p
                r = node.value(self)
                if isinstance(r, tuple):
                    r = r[index[0]]
                    index = index[1:]
                r = complex(np.asarray(r)[index])
                v = r.real if part == 're' else r.imag
            else:
                x = self(p).real
                v = float({'ceil': math.ceil, 'floor': math.floor,
                           'rint': round, 'trunc': math.trunc}[how](x))
        else:
            if i not in self.vals:
                raise EvalError('no value for atom %s' % a.name)
            v = self.vals[i]
        self.cache[i] = v
        return v

    def array(self, a):
        """Numeric array of a symbolic array."""
        raw = np.asarray(a)
        ld = getattr(a, '_ld', None)
        out = np.empty(raw.shape, dtype=complex)
        for i in np.ndindex(*raw.shape):
            out[i] = self(raw[i])
        if ld == 'c':
            return out
        if ld == 'i':
            return np.rint(out.real).astype(int)
        if ld == 'b':
            return out.real != 0
        if ld is None and raw.size and np.abs(out.imag).max() > 0:
            return out
        return out.real.copy()

    def subs(self):
        out = []
        for i, v in self.vals.items():
            if i >= len(ATOMS):
                continue
            z = z3_atom(i)
            if ATOMS[i].kind == 'phase':
                fr = [Fraction(v.real), Fraction(v.imag)]
                out += [(z[0], z3real(fr[0])), (z[1], z3real(fr[1]))]
            else:
                out.append((z, z3real(Fraction(
                    v.real if isinstance(v, complex) else v))))
        return out

    def z3bool(self, f):
        """Numerically evaluate a boolean z3 term."""
        return bool(eval_z3(f, self))

    def z3int(self, t):
        return int(eval_z3(t, self))

    def __call__(self, p):
        p = lift(p)
        out = 0j
        for m, (re, im) in p.t.items():
            x = complex(re, im) if im else re
            for i, e in m:
                x = x * self.atom(i) ** e
            out += x
        return complex(out) / p.d


def eval_z3(t, val, memo=None):
    """Evaluate a z3 term numerically under a valuation (floats)."""
    if memo is None:
        memo = {}
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_rational_value(t):
        r = float(t.as_fraction())
    elif z3.is_int_value(t):
        r = t.as_long()
    elif z3.is_true(t):
        r = True
    elif z3.is_false(t):
        r = False
    elif z3.is_const(t):
        n = t.decl().name()
        if '#' in n:
            base, idx = n.rsplit('#', 1)
            i = int(idx)
            v = val.atom(i)
            if ATOMS[i].kind == 'phase':
                v = complex(v)
                r = v.real if base.endswith('.c') else v.imag
            else:
                r = v.real if isinstance(v, complex) else v
        elif val.zmodel is not None:
            mv = val.zmodel.eval(t, model_completion=True)
            if z3.is_int_value(mv):
                r = mv.as_long()
            elif z3.is_rational_value(mv):
                r = float(mv.as_fraction())
            elif z3.is_bool(mv):
                r = z3.is_true(mv)
            else:
                r = float(mv.approx(20).as_fraction())
        else:
            raise EvalError('free z3 variable %s' % n)
    else:
        ch = [eval_z3(c, val, memo) for c in t.children()]
        kd = t.decl().kind()
        Z = z3
        if kd == Z.Z3_OP_ADD:
            r = sum(ch)
        elif kd == Z.Z3_OP_MUL:
            r = 1
            for c in ch:
                r = r * c
        elif kd == Z.Z3_OP_SUB:
            r = ch[0] - sum(ch[1:])
        elif kd == Z.Z3_OP_UMINUS:
            r = -ch[0]
        elif kd == Z.Z3_OP_DIV:
            if ch[1] == 0:
                raise EvalError('div by zero')
            r = ch[0] / ch[1]
        elif kd == Z.Z3_OP_IDIV:
            q = ch[0] // abs(ch[1])
            r = q if ch[1] > 0 else -q
        elif kd == Z.Z3_OP_MOD:
            r = ch[0] % abs(ch[1])
        elif kd == Z.Z3_OP_TO_REAL:
            r = ch[0]
        elif kd == Z.Z3_OP_TO_INT:
            r = math.floor(ch[0])
        elif kd == Z.Z3_OP_LE:
            r = ch[0] <= ch[1]
        elif kd == Z.Z3_OP_LT:
            r = ch[0] < ch[1]
        elif kd == Z.Z3_OP_GE:
            r = ch[0] >= ch[1]
        elif kd == Z.Z3_OP_GT:
            r = ch[0] > ch[1]
        elif kd in (Z.Z3_OP_EQ, Z.Z3_OP_IFF):
            r = _close(ch[0], ch[1])
        elif kd == Z.Z3_OP_DISTINCT:
            r = not _close(ch[0], ch[1])
        elif kd == Z.Z3_OP_AND:
            r = all(ch)
        elif kd == Z.Z3_OP_OR:
            r = any(ch)
        elif kd == Z.Z3_OP_NOT:
            r = not ch[0]
        elif kd == Z.Z3_OP_IMPLIES:
            r = (not ch[0]) or ch[1]
        elif kd == Z.Z3_OP_XOR:
            r = ch[0] != ch[1]
        elif kd == Z.Z3_OP_ITE:
            r = ch[1] if ch[0] else ch[2]
        elif kd == Z.Z3_OP_POWER:
            r = ch[0] ** ch[1]
        else:
            raise EvalError('cannot evaluate %s' % t.decl().name())
    memo[k] = r
    return r


def _close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))
