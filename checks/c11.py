"""C11 text files keep shape and values."""
import numpy as np
from .common import REALS, NUMPY, FILES

BOUNDS = ('arrays of up to 3 x 3 elements (thorough: 4 x 4) of integers, '
          'single or double precision reals or complex numbers with arbitrary '
          'values, one- and two-dimensional, C and Fortran order, transposed, '
          'sliced with steps, reversed, nested lists; delimiters default, '
          'comma, semicolon, tab, space')
OUTSIDE = ('larger arrays; empty arrays; values that are not finite; '
           'delimiters that occur inside numbers')
ASSUMPTIONS = [NUMPY, FILES]


def build(env, shape, ld, layout, unit=1):
    """An array of that shape and layout with arbitrary elements."""
    t = {'i': 'i', 'f': 'f', 'c': 'c', 's': 'f', 'z': 'c'}[ld]
    n = [0]

    def el():
        n[0] += 1
        if t == 'i':
            return env.ireal('x%d' % n[0], -99, 99)
        if ld in 'sz':       # exact in single precision
            x = env.ireal('x%d' % n[0], -99, 99) / 4
            return x if t == 'f' else x + env.I * env.ireal(
                'y%d' % n[0], -99, 99) / 4
        # a seventh: never a short decimal
        return env.scal('x%d' % n[0], t) / 7 / unit

    def mk(sh):
        if len(sh) == 1:
            return [el() for _ in range(sh[0])]
        return [mk(sh[1:]) for _ in range(sh[0])]
    if layout == 'T':
        a = env.array(mk(shape[::-1]), t)
    elif layout == 'step':
        a = env.array(mk(tuple(2 * k for k in shape)), t)
    elif layout == 'cols':
        a = env.array(mk(shape[:-1] + (2 * shape[-1],)), t)
    else:
        a = env.array(mk(shape), t)
    if ld in 'sz':
        a = env.single(a)
    if layout == 'T':
        a = a.T
    elif layout == 'step':
        a = a[tuple(slice(None, None, 2) for _ in shape)]
    elif layout == 'cols':
        a = a[..., ::2]
    elif layout == 'rev':
        a = a[::-1]
    elif layout == 'F':
        a = env.m.np.asfortranarray(a) if ld not in 'sz' else a
    return a


def roundtrip(env, shape, ld, layout='C', delimiter=None, aslist=False,
              handle=False, unit=1):
    u = env.m.util
    shape = tuple(shape)
    a = build(env, shape, ld, layout, unit)
    cplx = ld in 'cz'
    before = np.array(a)
    p = env.tmp('a.txt')
    arg = a.tolist() if aslist else a
    kw = {} if delimiter is None else dict(delimiter=delimiter)
    want = np.array(a)
    if len(shape) == 0:
        want = want.reshape(1, 1)
    elif len(shape) == 1:
        want = want.reshape(-1, 1)
    if handle:
        h = env.m.vectors.VecHandleArrayText(p, is_complex=cplx)
        h.put(arg)
        b = h.get()
    else:
        u.save_array_text(arg, p, **kw)
        rows = env.text_rows(p, delimiter)
        env.true('one line per row', len(rows) == want.shape[0],
                 detail='%d lines' % len(rows))
        if cplx:
            flat = [[f(x) for x in r for f in (np.real, np.imag)]
                    for r in want]
        else:
            flat = [[x for x in r] for r in want]
        env.eq('the numbers of each line, complex ones as adjacent real and '
               'imaginary parts', rows, flat, tol=0)
        b = u.load_array_text(p, is_complex=cplx, **kw)
    env.true('two-dimensional', np.ndim(b) == 2)
    env.eq('same values, same shape', np.multiply(b, unit),
           np.multiply(want, unit), tol=0)
    env.true('the right type', np.iscomplexobj(b) == cplx)
    if not aslist:
        env.eq('the array saved is not modified', np.array(a), before)
    # loading is a copy of its own and can be repeated
    if not handle:
        c = u.load_array_text(p, is_complex=cplx, **kw)
        env.eq('loading again gives the same', np.multiply(c, unit),
               np.multiply(want, unit), tol=0)


def wrong_type(env, cols):
    u = env.m.util
    a = env.rmat('x', 2, cols)
    p = env.tmp('b.txt')
    u.save_array_text(a, p)
    try:
        b = u.load_array_text(p, is_complex=True)
        r = 'no error'
    except Exception as e:
        r = 'error'
        b = None
    if cols % 2:
        env.true('an odd number of columns loaded as complex raises an error',
                 r == 'error')
    else:
        env.eq('pairs of columns are complex numbers', b, [
            [a[i, 2 * j] + env.I * a[i, 2 * j + 1]
             for j in range(cols // 2)] for i in range(2)])


def too_many(env, nd, ld):
    u = env.m.util
    a = np.zeros((1,) * nd) if ld == 'f' else env.array(
        [[[env.cplx('x')]]] if nd == 3 else [[[[env.cplx('x')]]]], 'c')
    p = env.tmp('c.txt')
    try:
        u.save_array_text(a, p)
        r = 'no error'
    except Exception:
        r = 'error'
    env.true('arrays of more than two dimensions raise an error',
             r == 'error')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    shapes = [(1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2)]
    if not q:
        shapes += [(2,), (4,), (1, 2), (2, 1), (2, 2), (4, 3), (3, 4), (4, 4)]
    for sh in shapes:
        for ld in 'ifcsz':
            for lay in ('C', 'F', 'T', 'step', 'cols', 'rev'):
                if len(sh) == 1 and lay in ('F', 'T', 'cols'):
                    continue
                if lay == 'F' and ld in 'sz':
                    continue
                out.append((roundtrip, dict(shape=list(sh), ld=ld,
                                            layout=lay)))
            for d in (',', ';', '\t', ' ') if ld in 'fc' else (',',):
                out.append((roundtrip, dict(shape=list(sh), ld=ld,
                                            delimiter=d)))
            if ld in 'ifc':
                out.append((roundtrip, dict(shape=list(sh), ld=ld,
                                            aslist=True)))
                out.append((roundtrip, dict(shape=list(sh), ld=ld,
                                            handle=True)))
    for u in (10**12, 10**-12):
        for ld in 'fc':
            out.append((roundtrip, dict(shape=[2, 3], ld=ld, unit=u)))
    for c in (1, 2, 3, 4):
        out.append((wrong_type, dict(cols=c)))
    for nd in (3, 4):
        for ld in 'fc':
            out.append((too_many, dict(nd=nd, ld=ld)))
    return [(f, p) for f, p in out]
