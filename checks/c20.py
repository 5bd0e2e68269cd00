"""C20 loading of signal files."""
import numpy as np
from .common import NUMPY, FILES

BOUNDS = ('files of 1..4 samples and 0..3 signals with arbitrary real values '
          'and times, delimiters default, comma, semicolon, tab; 1..3 files')
OUTSIDE = ('larger files; values that are not finite; times whose '
           'differences are within 10 % of the closeness tolerance; files '
           'with different numbers of signals')
ASSUMPTIONS = [NUMPY, FILES]


def write(env, name, rows, delimiter):
    p = env.tmp(name)
    a = env.array(rows, 'f')
    if delimiter is None:
        env.m.util.save_array_text(a, p)
    else:
        env.m.util.save_array_text(a, p, delimiter=delimiter)
    return p


def one(env, T, n, delimiter=None):
    rows = [[env.real('t%d' % k) / 7] + [env.real('s%d_%d' % (k, j)) / 7
                                         for j in range(n)]
            for k in range(T)]
    p = write(env, 'a.txt', rows, delimiter)
    kw = {} if delimiter is None else dict(delimiter=delimiter)
    t, s = env.m.util.load_signals(p, **kw)
    env.eq('the times are the first column', t, [r[0] for r in rows],
           tol=1e-14)
    env.eq('all other columns, in order, as a two-dimensional array', s,
           [r[1:] for r in rows], tol=1e-14)


def none(env, T, multiple):
    rows = [[env.real('t%d' % k)] for k in range(T)]
    p = write(env, 'a.txt', rows, None)
    try:
        if multiple:
            env.m.util.load_multiple_signals([p])
        else:
            env.m.util.load_signals(p)
        ok = False
    except Exception:
        ok = True
    env.true('a file without signal columns raises an error', ok)


def many(env, F, T, n, delimiter=None, form='list'):
    t = [env.real('t%d' % k) / 7 for k in range(T)]
    data = [[[env.real('s%d_%d_%d' % (f, k, j)) / 7 for j in range(n)]
             for k in range(T)] for f in range(F)]
    paths = [write(env, 'f%d.txt' % f, [[t[k]] + data[f][k]
                                        for k in range(T)], delimiter)
             for f in range(F)]
    kw = {} if delimiter is None else dict(delimiter=delimiter)
    arg = tuple(paths) if form == 'tuple' else list(paths)
    tt, s = env.m.util.load_multiple_signals(arg, **kw)
    env.eq('the common times', tt, t, tol=1e-14)
    env.eq('files in the given order, indexed [file, time, signal]', s, data,
           tol=1e-14)


def times(env, F, T, which, k):
    """One time of one file differs by an arbitrary amount."""
    t = [env.real('t%d' % i, -50, 50) for i in range(T)]
    d = env.real('d', -60, 60)
    paths = []
    for f in range(F):
        tf = [x + (d if f == which and i == k else 0)
              for i, x in enumerate(t)]
        paths.append(write(env, 'f%d.txt' % f, [
            [tf[i], env.real('s%d_%d' % (f, i))] for i in range(T)], None))
    a, b = abs(t[k]), abs(t[k] + d)
    hi = b if env.decide(b > a) else a
    lo = a if env.decide(b > a) else b
    far = env.decide(abs(d) * 10 > 11 * (Q(1, 10**8) + hi * Q(1, 10**5)))
    near = not far and env.decide(
        abs(d) * 10 < 9 * (Q(1, 10**8) + lo * Q(1, 10**5)))
    try:
        env.m.util.load_multiple_signals(paths)
        ok = True
    except ValueError:
        ok = False
    if far:
        env.true('times that differ by more than the tolerance raise an '
                 'error', not ok)
    if near:
        env.true('times within the tolerance are accepted', ok)


def drift(env, F):
    """The times of all files differ from those of the first file."""
    t = [env.real('t%d' % i, -50, 50) for i in range(2)]
    d = [0] + [env.real('d%d' % f, -60, 60) for f in range(1, F)]
    paths = [write(env, 'f%d.txt' % f, [
        [t[i] + (d[f] if i else 0), env.real('s%d_%d' % (f, i))]
        for i in range(2)], None) for f in range(F)]
    far, near = False, True
    for f in range(1, F):
        a, b = abs(t[1]), abs(t[1] + d[f])
        up = env.decide(b > a)
        hi, lo = (b, a) if up else (a, b)
        far = far or env.decide(
            abs(d[f]) * 10 > 11 * (Q(1, 10**8) + hi * Q(1, 10**5)))
        near = near and not far and env.decide(
            abs(d[f]) * 10 < 9 * (Q(1, 10**8) + lo * Q(1, 10**5)))
    try:
        env.m.util.load_multiple_signals(paths)
        ok = True
    except ValueError:
        ok = False
    if far:
        env.true('a file whose times differ from those of the first file by '
                 'more than the tolerance raises an error', not ok)


def Q(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def length(env, T1, T2):
    """Files with different numbers of samples."""
    rows = [[k + 0., env.real('s%d' % k)] for k in range(max(T1, T2))]
    p = [write(env, 'a.txt', rows[:T1], None),
         write(env, 'b.txt', rows[:T2], None)]
    try:
        env.m.util.load_multiple_signals(p)
        ok = False
    except Exception:
        ok = True
    env.true('files with different times raise an error', ok)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for T in (1, 2, 4):
        for n in (1, 2, 3):
            for d in (None, ',', ';', '\t'):
                out.append((one, dict(T=T, n=n, delimiter=d)))
    for T in (1, 2, 3):
        for m in (False, True):
            out.append((none, dict(T=T, multiple=m)))
    for F in (1, 2, 3):
        for T in (1, 3):
            for n in (1, 2):
                for d in (None, ','):
                    out.append((many, dict(F=F, T=T, n=n, delimiter=d)))
    out.append((many, dict(F=2, T=2, n=2, form='tuple')))
    for F, T in ((2, 1), (2, 3), (3, 2)) if q else (
            (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)):
        for w in range(F):
            for k in range(T):
                out.append((times, dict(F=F, T=T, which=w, k=k)))
    for F in (2, 3) if q else (2, 3, 4):
        out.append((drift, dict(F=F)))
    for a, b in ((1, 2), (2, 1), (3, 2), (2, 3)):
        out.append((length, dict(T1=a, T2=b)))
    return out
