"""Scenarios, verdicts, replays, evidence.

A scenario is a function ``f(env, **params)``.  It draws its inputs from
``env`` (``env.real('a')`` ...), calls the real code through ``env.m`` (or
``env.ranks``) and states claims (``env.eq`` / ``env.true``).  The same function
is run symbolically (inputs are symbolic, the library is executed by symx, the
claims are decided by z3) and concretely (inputs are numbers, the library is
executed by plain Python with the real numpy/scipy), which is how
counterexamples are replayed and how the encoding is validated."""
import argparse
import contextlib
import hashlib
import io
import json
import math
import os
import pickle
import select
import random
import signal
import shutil
import sys
import tempfile
import time
import zlib
import traceback
import warnings
from fractions import Fraction

import numpy as np

from .z3load import z3
from . import scalar, ctx as cx, arr, npx, linalg, loader, mpi
from .arr import SymArray, as_sym, wrap, unwrap, typed
from .scalar import (S, SBool, SInt, SRat, Unsupported, Valuation, EvalError,
                     lift, ATOMS, ZERO, ONE)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOL = 1e-6


class ConcreteInvalid(Exception):
    """The numeric point does not satisfy the scenario's assumptions."""


class Claim(object):
    __slots__ = ('label', 'viol', 'diffs', 'ok', 'detail')

    def __init__(self, label, viol=None, diffs=None, ok=None, detail=''):
        self.label = label
        self.viol = viol        # z3 formula (symbolic mode)
        self.diffs = diffs      # list of scalars that must vanish
        self.ok = ok            # concrete verdict
        self.detail = detail


class EnvBase(object):
    inf = float('inf')

    def __init__(self):
        self.claims = []
        self.obs = []
        self.world = None
        self._inst = None
        self._insts = []
        self.scratch = None

    # ------------------------------------------------------------ instances
    @property
    def m(self):
        if self._inst is None:
            w = mpi.World(1)
            pkg, MPI = mpi.make_mpi(w, 0)
            self._inst = self._new_instance(pkg, MPI, 'node0')
        return self._inst

    def fresh_instance(self):
        """Another, independent copy of the package (a new process)."""
        w = mpi.World(1)
        pkg, MPI = mpi.make_mpi(w, 0)
        return self._new_instance(pkg, MPI, 'node0')

    def _new_instance(self, pkg, MPI, host):
        i = loader.Instance(self.sym, pkg, host, clock=self._clock())
        i.over['mpi4py.MPI'] = MPI
        self._insts.append(i)
        return i

    def _clock(self):
        c = loader.FakeTime()
        c.hook = self.clock_hook
        return c

    clock_hook = None

    def ranks(self, P, fn, hosts=None, on_recv=None):
        """Run ``fn(rank, modules)`` on P simulated MPI ranks; returns the list
        of results and records the communication trace in ``env.world``."""
        w = mpi.World(P, hosts)
        w.on_recv = on_recv
        w.choose = self.choice
        self.world = w

        def body(r):
            pkg, MPI = mpi.make_mpi(w, r)
            inst = self._new_instance(pkg, MPI, w.hosts[r])
            return fn(r, inst)
        return w.run(body)

    def close(self):
        for i in self._insts:
            i.close()
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    # ------------------------------------------------------------- builders
    def mat(self, rows, ld=None):
        return self.array(rows, ld)

    def vec_of(self, xs, ld=None):
        return self.array(list(xs), ld)

    def rmat(self, name, m, n, lo=None, hi=None):
        return self.array([[self.real('%s%d%d' % (name, i, j), lo, hi)
                            for j in range(n)] for i in range(m)], 'f')

    def cmat(self, name, m, n, lo=None, hi=None):
        return self.array([[self.cplx('%s%d%d' % (name, i, j), lo, hi)
                            for j in range(n)] for i in range(m)], 'c')

    def tmat(self, name, m, n, ld):
        return self.rmat(name, m, n) if ld == 'f' else self.cmat(name, m, n)

    def rvec(self, name, n, lo=None, hi=None):
        return self.array([self.real('%s%d' % (name, i), lo, hi)
                           for i in range(n)], 'f')

    def cvec(self, name, n):
        return self.array([self.cplx('%s%d' % (name, i)) for i in range(n)],
                          'c')

    def cplx(self, name, lo=None, hi=None):
        return self.real(name + '.re', lo, hi) + self.I * self.real(
            name + '.im', lo, hi)

    def scal(self, name, ld):
        return self.real(name) if ld == 'f' else self.cplx(name)

    def givens(self, name, ld, n=2, i=0, j=1):
        """A rotation in the (i, j) plane (complex: with arbitrary phases)."""
        u = self.phase(name + '.g')
        c = (u + 1 / u) * self.half
        s = (u - 1 / u) * self.half * (-self.I)
        G = [[1 if a == b else 0 for b in range(n)] for a in range(n)]
        G[i][i], G[j][j] = c, c
        if ld == 'c':
            p = self.phase(name + '.p')
            G[i][j], G[j][i] = -s / p, s * p
        else:
            G[i][j], G[j][i] = -s, s
        return self.array(G, ld)

    def unitary(self, name, n, ld, left=True):
        """A square unitary (orthogonal) matrix of size n (n <= 3): product
        of plane rotations and, when complex, row phases."""
        if n == 1:
            if ld == 'c':
                return self.array([[self.phase(name + '.p')]], 'c')
            return self.array([[1]], 'f')
        Q = None
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for k, (a, b) in enumerate(pairs):
            G = self.givens('%s%d' % (name, k), ld, n, a, b)
            Q = G if Q is None else np.dot(Q, G)
        if ld == 'c' and left:
            D = self.diag([self.phase('%s.d%d' % (name, k))
                           for k in range(n)], 'c')
            Q = np.dot(D, Q)
        return Q

    def diag(self, xs, ld='f', m=None, n=None):
        xs = list(xs)
        m = len(xs) if m is None else m
        n = len(xs) if n is None else n
        D = [[0] * n for _ in range(m)]
        for i, x in enumerate(xs):
            D[i][i] = x
        return self.array(D, ld)

    def lower(self, name, n, ld):
        """Lower-triangular with positive diagonal, and its inverse."""
        L = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                L[i][j] = self.scal('%s%d%d' % (name, i, j), ld)
            L[i][i] = self.pos('%s%d' % (name, i))
        X = [[0] * n for _ in range(n)]
        for col in range(n):
            for i in range(col, n):
                t = 1 if i == col else 0
                for k in range(col, i):
                    t = t - L[i][k] * X[k][col]
                X[i][col] = t / L[i][i]
        return self.array(L, ld), self.array(X, ld)

    # ------------------------------------------------------------ scratch dir
    def text_rows(self, path, delimiter=None):
        """The numbers of a text file, line by line."""
        if self.sym:
            rows, d = npx.FS.files[path]
            return [list(r) for r in rows] if d in (None, ' ', '\t') or \
                d == delimiter else []
        with open(path) as f:
            return [[float(x) for x in l.split(delimiter)]
                    for l in f.read().splitlines()]

    def single(self, a):
        """The same array in single precision."""
        if self.sym:
            a = a.copy()
            a._single = True
            return a
        return a.astype(np.complex64 if np.iscomplexobj(a) else np.float32)

    def tmp(self, name):
        if self.sym:
            return '/sym/' + name
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='symx_')
        return os.path.join(self.scratch, name)


def Hc(a):
    return np.conjugate(a).T


class SymEnv(EnvBase):
    sym = True
    I = scalar.I
    half = scalar.HALF

    def __init__(self, c):
        EnvBase.__init__(self)
        self.c = c
        self.names = {}
        npx.FS.reset()
        npx.RANDOM.n = 0
        npx.RANDOM.hook = None

    def _named(self, name, f):
        if name in self.names:
            return self.names[name]
        r = f()
        self.names[name] = r
        return r

    def real(self, name, lo=None, hi=None):
        return self._named(name, lambda: scalar.real(name, lo, hi))

    def ireal(self, name, lo=None, hi=None):
        """A real number that takes integer values (dtype int data)."""
        return self._named(name, lambda: scalar.real(name, lo, hi,
                                                     integer=True))

    def pos(self, name, lo=None, hi=None):
        return self._named(name, lambda: scalar.pos(name, lo, hi))

    def phase(self, name):
        return self._named(name, lambda: scalar.phase(name))

    def int(self, name, lo=None, hi=None):
        def mk():
            z = z3.Int('in.' + name)
            if lo is not None:
                self.c.assume(z >= lo)
            if hi is not None:
                self.c.assume(z <= hi)
            return SInt(z)
        return self._named(name, mk)

    def bool(self, name):
        return self._named(name, lambda: SBool(z3.Bool('in.' + name)))

    def choice(self, name, n):
        """A concrete index 0..n-1, chosen by the solver (forks)."""
        return int(self.int(name, 0, n - 1))

    def array(self, rows, ld=None):
        a = as_sym(rows)
        if ld is not None:
            a._ld = ld
        return a

    def typed(self, x, ld):
        return typed(lift(x), ld)

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise cx.Infeasible()
            return
        self.c.assume(cond)

    def decide(self, cond):
        return bool(cond)

    def above(self, x, y, scale=0):
        """x > y.  A replay on the real code avoids the points where
        rounding could decide the other way."""
        return bool(x > y)

    def deterministic(self):
        """Decompositions of equal arrays are equal (no free phases)."""
        self.c.nophase = True

    def register_svd(self, M, U, s, V):
        linalg.register_svd(M, U, s, V)

    def register_eig(self, K, R, lam, L):
        linalg.register_eig(K, R, lam, L)

    def register_eigh(self, M, Q, lam):
        linalg.register_eigh(M, Q, lam)

    def register_chol(self, W, L):
        linalg.register_chol(W, L)

    def register_inv(self, M, Mi):
        linalg.register_inv(M, Mi)

    def register_dlyap(self, a, q, x):
        linalg.register_dlyap(a, q, x)

    def register_lstsq(self, A, B, X):
        linalg.register_lstsq(A, B, X)

    # ---------------------------------------------------------------- claims
    def eq(self, label, a, b, tol=None):
        if _struct(a) or _struct(b):
            ld_a, ld_b = _flat(a), _flat(b)
            if ld_a[0] != ld_b[0]:
                self.claims.append(Claim(label, viol=z3.BoolVal(True),
                                         detail='shape %s != %s' % (
                                             ld_a[0], ld_b[0])))
                return
            pairs = list(zip(ld_a[1], ld_b[1]))
        else:
            pairs = [(a, b)]
        diffs = []
        vs = []
        for x, y in pairs:
            if isinstance(x, (SBool,)) or isinstance(y, SBool):
                xz, yz = SBool._z(x), SBool._z(y)
                vs.append(z3.Xor(xz, yz))
                continue
            if isinstance(x, (SInt, SRat)) or isinstance(y, (SInt, SRat)):
                e = (x == y)
                vs.append(z3.Not(SBool._z(e)))
                continue
            lx, ly = lift(x), lift(y)
            if lx is NotImplemented or ly is NotImplemented:
                if not (x == y):
                    vs.append(z3.BoolVal(True))
                continue
            diffs.append((lx, ly))
        self.claims.append(Claim(label, viol=vs or None, diffs=diffs))

    def true(self, label, cond, detail=''):
        if isinstance(cond, SBool):
            v = z3.Not(cond.z)
        else:
            v = z3.BoolVal(not bool(cond))
        self.claims.append(Claim(label, viol=[v], diffs=[], detail=detail))

    def formula(self, label, violation, on_model=None):
        """A claim stated directly as a z3 formula describing violations."""
        self.claims.append(Claim(label, viol=[violation], diffs=[],
                                 detail=''))

    def schedules(self, label, inputs_note=''):
        f, pc, problems = mpi.schedule_formula(self.world)
        self.formula(label + ': some schedule gets stuck', f)
        self.true(label + ': every message is received',
                  not problems and not self.world.leaked(),
                  detail='; '.join(problems))

    def observe(self, name, value):
        self.obs.append((name, value))

    def norm(self, v):
        return v


def _struct(x):
    return isinstance(x, (list, tuple, np.ndarray))


def _flat(x):
    if isinstance(x, np.ndarray):
        return tuple(x.shape), list(unwrap(x).flat)
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (list, tuple, np.ndarray)) for v in x):
            shapes, vals = [], []
            for v in x:
                s, f = _flat(v)
                shapes.append(s)
                vals += f
            if shapes and all(s == shapes[0] and all(
                    isinstance(k, int) for k in s) for s in shapes):
                return (len(shapes),) + shapes[0], vals
            return ('list', tuple(shapes)), vals
        return (len(x),), list(x)
    return (), [x]


class ConEnv(EnvBase):
    sym = False
    I = 1j
    half = 0.5

    def __init__(self, values, tol=TOL, rephase=None, salt=0):
        EnvBase.__init__(self)
        self.values = values
        self.tol = tol
        self.rephase = rephase
        self.randhook = None
        self.salt = salt
        self.invented = False

    def _new_instance(self, pkg, MPI, host):
        i = EnvBase._new_instance(self, pkg, MPI, host)
        return i

    def _get(self, name, default):
        return self.values.get(name, default)

    def _number(self, name, lo, hi, a, b):
        """The value of an input; of one that the encoding does not have, a
        number that depends on its name only."""
        if name in self.values:
            return self.values[name]
        self.invented = True
        u = zlib.crc32(('%s.%d' % (name, self.salt)).encode()) % 1009
        a, b = (a if lo is None else lo), (b if hi is None else hi)
        b = b if hi is not None else max(b, a + 3)
        a = a if lo is not None else min(a, b - 3)
        return a + (b - a) * (u + 1) / 1011.

    def real(self, name, lo=None, hi=None):
        return float(self._number(name, lo, hi, -2., 2.))

    def ireal(self, name, lo=None, hi=None):
        return int(round(self._number(name, lo, hi, -5, 5)))

    def pos(self, name, lo=None, hi=None):
        return float(self._number(name, lo, hi, .25, 2.5))

    def phase(self, name):
        if name in self.values:
            return complex(self.values[name])
        x = np.exp(1j * self._number(name, None, None, 0., 6.))
        return complex(x)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 1))

    def bool(self, name):
        return bool(self._get(name, True))

    def choice(self, name, n):
        return int(self._get(name, 0))

    def array(self, rows, ld=None):
        a = np.array(rows)
        if ld == 'f':
            if np.iscomplexobj(a):
                a = a.real
            a = a.astype(float)
        elif ld == 'c':
            a = a.astype(complex)
        elif ld == 'i':
            a = np.rint(np.real(a)).astype(int)
        elif ld == 'b':
            a = a.astype(bool)
        return a

    def typed(self, x, ld):
        if ld == 'f':
            return np.float64(np.real(x))
        if ld == 'c':
            return np.complex128(x)
        return np.int64(int(np.real(x)))

    def assume(self, cond):
        if not bool(cond):
            raise ConcreteInvalid()

    def decide(self, cond):
        return bool(cond)

    def above(self, x, y, scale=0):
        if abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-14 * abs(scale):
            raise ConcreteInvalid()
        return bool(x > y)

    def register_svd(self, *a):
        pass

    def deterministic(self):
        pass

    register_eig = register_eigh = register_chol = register_inv = register_svd
    register_dlyap = register_lstsq = register_svd

    def eq(self, label, a, b, tol=None):
        tol = self.tol if tol is None else tol
        if _struct(a) or _struct(b):
            sa, fa = _flat(a)
            sb, fb = _flat(b)
            if sa != sb:
                self.claims.append(Claim(label, ok=False,
                                         detail='shape %s != %s' % (sa, sb)))
                return
        else:
            fa, fb = [a], [b]
        worst = 0.
        bad = ''
        scale = 1.
        for x in list(fa) + list(fb):
            try:
                scale = max(scale, abs(complex(x)))
            except Exception:
                pass
        for i, (x, y) in enumerate(zip(fa, fb)):
            try:
                d = abs(complex(x) - complex(y)) / scale
            except Exception:
                d = 0. if x == y else 1.
            if not (d <= worst):
                worst = d
                bad = 'entry %d: got %s, expected %s' % (i, x, y)
        self.claims.append(Claim(label, ok=worst <= tol, detail=bad))

    def true(self, label, cond, detail=''):
        self.claims.append(Claim(label, ok=bool(cond), detail=detail))

    def formula(self, label, violation, on_model=None):
        pass

    def schedules(self, label, inputs_note=''):
        f, pc, problems = mpi.schedule_formula(self.world)
        s = z3.Solver()
        s.add(f)
        r = s.check()
        self.claims.append(Claim(
            label + ': some schedule gets stuck', ok=r == z3.unsat,
            detail='' if r == z3.unsat else 'stuck state %s' % s.model()))
        self.true(label + ': every message is received',
                  not problems and not self.world.leaked(),
                  detail='; '.join(problems))

    def observe(self, name, value):
        self.obs.append((name, value))


def _mid(lo, hi, d):
    if lo is not None and hi is not None:
        return (lo + hi) / 2.
    if lo is not None:
        return max(lo, d)
    if hi is not None:
        return min(hi, d)
    return d


# ------------------------------------------------------------------ valuation
def named_values(env, val):
    """Numeric value of every named input under a valuation."""
    out = {}
    for n, x in env.names.items():
        if isinstance(x, S):
            v = val(x)
            a = ATOMS[next(iter(x.atoms()))]
            if a.kind == 'phase':
                out[n] = v
            elif a.integer:
                out[n] = int(round(v.real))
            else:
                out[n] = v.real
        elif isinstance(x, SInt):
            out[n] = int(scalar.eval_z3(x.z, val))
        elif isinstance(x, SBool):
            out[n] = bool(scalar.eval_z3(x.z, val))
    return out


def jsonable(vals):
    return {k: ([v.real, v.imag] if isinstance(v, complex) else v)
            for k, v in vals.items()}


def unjson(vals):
    return {k: (complex(v[0], v[1]) if isinstance(v, list) else v)
            for k, v in vals.items()}


# --------------------------------------------------------------- concrete run
_real = {}


class Rephase(object):
    """Replace LAPACK decompositions by equally valid ones (random column
    phases / signs), used when a counterexample depends on that freedom."""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)

    def ph(self, n, cplx):
        if cplx:
            t = self.rng.uniform(-3, 3, n)
            return np.exp(1j * t)
        return np.where(self.rng.rand(n) > .5, 1., -1.)

    def __enter__(self):
        import scipy.linalg
        self.old = (np.linalg.svd, np.linalg.eigh, scipy.linalg.eig,
                    np.linalg.eig)
        osvd, oeigh, oeig, onpeig = self.old

        def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
            r = osvd(a, full_matrices=full_matrices, compute_uv=compute_uv)
            if not compute_uv:
                return r
            U, s, Vh = r
            k = len(s)
            p = self.ph(k, np.iscomplexobj(a))
            U, Vh = U.copy(), Vh.copy()
            U[:, :k] = U[:, :k] * p
            Vh[:k] = (Vh[:k].T * p.conj()).T
            return U, s, Vh

        def eigh(a, UPLO='L'):
            w, Q = oeigh(a, UPLO)
            return w, Q * self.ph(len(w), np.iscomplexobj(a))

        def eig(a, *x, **k):
            r = oeig(a, *x, **k)
            if not isinstance(r, tuple):
                return r
            n = len(r[0])
            return (r[0],) + tuple(q * self.ph(n, True) for q in r[1:])
        np.linalg.svd, np.linalg.eigh = svd, eigh
        scipy.linalg.eig = eig
        return self

    def __exit__(self, *a):
        import scipy.linalg
        (np.linalg.svd, np.linalg.eigh, scipy.linalg.eig,
         np.linalg.eig) = self.old


def run_concrete(fn, params, values, rephase=None, tol=TOL):
    """Run a scenario on the real code.  Returns (status, claims, exc, obs):
    status in 'ok', 'violated', 'invalid'."""
    for salt in range(4):
        r, invented = run_concrete1(fn, params, values, rephase, tol, salt)
        if r[0] != 'invalid' or not invented:
            break
    return r


def run_concrete1(fn, params, values, rephase, tol, salt):
    env = ConEnv(values, tol=tol, salt=salt)
    old = cx._cur
    cx._cur = None
    exc = None
    state = np.random.get_state()

    def late(sig, frm):
        raise PathTimeout('the real code is still running after 40 s')
    olds = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 40)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            np.random.seed(0)
            cm = Rephase(rephase) if rephase is not None else \
                contextlib.nullcontext()
            with cm, contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                fn(env, **params)
    except ConcreteInvalid:
        return ('invalid', [], None, []), env.invented
    except Exception as e:
        exc = e
        exc._tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, olds)
        np.random.set_state(state)
        env.close()
        cx._cur = old
    if exc is not None:
        return ('violated', [Claim('no exception', ok=False, detail='%s: %s' % (
            type(exc).__name__, exc))], exc, env.obs), env.invented
    bad = [c for c in env.claims if not c.ok]
    return ('violated' if bad else 'ok', bad, None, env.obs), env.invented


# ------------------------------------------------------------------- verdicts
class Outcome(object):
    """Result of one scenario instance (picklable)."""

    def __init__(self):
        self.name = ''
        self.params = {}
        self.violations = []     # dicts
        self.undecided = []
        self.unsupported = []
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.
        self.claims = 0
        self.claims_nontrivial = 0
        self.identities = 0
        self.witness = 0
        self.validated = 0
        self.validation_mismatch = []
        self.incomplete = ''
        self.functions = set()
        self.opaque = 0
        self.wall = 0.
        self.max_terms = 0
        self.samples = []


def _fn_trace(out):
    """Profile hook recording which functions of the code under test ran."""
    pre = loader.PKG

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(pre):
                out.add('%s:%s' % (os.path.basename(co.co_filename),
                                   getattr(co, 'co_qualname', co.co_name)))
    return prof


def eq_formula(x, y):
    """z3 formula: x != y (both scalars)."""
    d = x - y
    if d.is_zero():
        if len(x.t) + len(y.t) < 400 and not any(
                ATOMS[i].kind == 'inv' for i in x.atoms() | y.atoms()):
            try:
                m1, _ = scalar._clear_neg(x)
                a = scalar.z3_frac(x)
                b = scalar.z3_frac(y)
                parts = []
                for u, v in zip(a[0], b[0]):
                    if u is None and v is None:
                        continue
                    u = u if u is not None else z3.RealVal(0)
                    v = v if v is not None else z3.RealVal(0)
                    parts.append(u != v)
                for u, v in zip(a[1], b[1]):
                    if u is None and v is None:
                        continue
                    u = u if u is not None else z3.RealVal(0)
                    v = v if v is not None else z3.RealVal(0)
                    parts.append(u != v)
                return z3.Or(parts), True
            except Unsupported:
                pass
        return z3.Not(scalar.z3_is_zero(d)), True
    return z3.Not(scalar.z3_is_zero(d)), False


def run_scenario(fn, params, opts):
    out = Outcome()
    out.name = fn.__name__
    out.params = params
    t0 = time.time()
    st0 = cx.STATS
    cx.STATS = st = cx.Stats()
    rng = random.Random(opts.get('seed', 1))
    deadline = t0 + opts.get('deadline', 600)
    nval = opts.get('validate', 2)
    maxviol = opts.get('max_violations', 1)
    state = {}

    def body(c):
        env = SymEnv(c)
        state['env'] = env
        sys.setprofile(None)
        tr = _fn_trace(out.functions)
        import threading
        if out.paths < 3:
            sys.setprofile(tr)
            threading.setprofile(tr)
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()), \
                    warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(env, **params)
        finally:
            sys.setprofile(None)
            threading.setprofile(None)
            env.close()
        return env
    path_s = opts.get('path_s', 60)
    body0 = body

    def body(c):
        # a path that does not end: see whether the real code ends there
        def late(sig, frm):
            c.dead = True
            raise PathTimeout('no end of this path after %d s' % path_s)
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, path_s)
        try:
            return body0(c)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    try:
        for c, res, exc in cx.explore(
                body, max_paths=opts.get('max_paths', 3000),
                timeout_ms=opts.get('timeout_ms', 20000),
                deadline=deadline):
            out.paths += 1
            env = state['env']
            if c.opaque:
                out.opaque += 1
            if c.dead:
                endless(out, fn, params, c, env, rng, exc)
                if len(out.violations) >= maxviol:
                    break
                continue
            if isinstance(exc, Unsupported) or isinstance(
                    exc, (RecursionError, MemoryError)):
                msg = '%s: %s' % (type(exc).__name__, exc)
                if len(out.unsupported) < 5:
                    tb = traceback.extract_tb(exc.__traceback__)
                    where = [f for f in tb if f.filename.startswith(
                        loader.PKG)]
                    if where:
                        msg += ' at %s:%d' % (os.path.basename(
                            where[-1].filename), where[-1].lineno)
                    out.unsupported.append(msg)
                else:
                    out.unsupported.append('')
                if len(out.unsupported) < 4:
                    probe_real(out, fn, params, c, env, rng)
                    if len(out.violations) >= maxviol:
                        break
                continue
            before = len(out.violations)
            judge_path(out, fn, params, c, env, exc, rng, opts)
            if len(out.violations) >= maxviol:
                break
            if len(out.violations) == before and exc is None and \
                    out.validated < nval and out.paths <= 40:
                validate(out, fn, params, c, env, rng)
                if len(out.violations) >= maxviol:
                    break
    except cx.PathLimit as e:
        out.incomplete = str(e)
    out.branches = st.branches
    out.queries = st.queries
    out.solver_s = st.solver_s
    cx.STATS = st0
    out.wall = time.time() - t0
    return out


class PathTimeout(Exception):
    pass


def endless(out, fn, params, c, env, rng, exc):
    """A symbolic path was given up.  Runs the real code at points of that
    path in a child process: when it does not end there either (ordinary runs
    take milliseconds), that is the violation."""
    out.unsupported.append('%s' % (exc,))
    c.dead = False
    cands = []
    try:
        for _ in range(2):
            v = c.sample(rng)
            if v is not None:
                cands.append(v)
        if not cands:
            rr, v = c.model_point()
            if v is not None:
                cands.append(v)
    except Exception:
        pass
    finally:
        c.dead = True
    for v in cands:
        try:
            vals = named_values(env, v)
        except (EvalError, Unsupported, z3.Z3Exception):
            continue
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                st, bad, e, _ = run_concrete(fn, params, vals)
                if st == 'violated':
                    st, bad, e, _ = run_concrete(fn, params, vals, tol=1e-3)
                os.write(wfd, json.dumps(
                    [st, [(b.label, str(b.detail)[:300])
                          for b in bad[:4]]]).encode())
            finally:
                os._exit(0)
        os.close(wfd)
        t0 = time.time()
        while time.time() - t0 < 25:
            if os.waitpid(pid, os.WNOHANG)[0]:
                msg = os.read(rfd, 1 << 16)
                os.close(rfd)
                st, bad = json.loads(msg) if msg else ('', [])
                if st == 'violated':
                    out.violations.append(dict(
                        scenario=fn.__name__, params=params,
                        label='fails on the real code at a point of a path '
                        'that was given up', symbolic=str(exc),
                        failed=[tuple(b) for b in bad], values=jsonable(vals),
                        rephase=None, traceback=''))
                    return
                break
            time.sleep(.05)
        else:
            os.close(rfd)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            out.violations.append(dict(
                scenario=fn.__name__, params=params,
                label='the operation ends', symbolic=str(exc),
                failed=[('the operation ends',
                         'still running after 25 s')],
                values=jsonable(vals), rephase=None, traceback=''))
            return


def probe_real(out, fn, params, c, env, rng):
    """A path that could not be encoded to its end: does the real code fail
    at a point of it?"""
    try:
        v = c.sample(rng, tries=40)
        if v is None:
            rr, v = c.model_point()
        if v is None:
            return
        vals = named_values(env, v)
    except Exception:
        return
    st, bad, e, _ = run_concrete(fn, params, vals)
    if st == 'violated':
        st, bad, e, _ = run_concrete(fn, params, vals, tol=1e-3)
    if st == 'violated':
        out.violations.append(dict(
            scenario=fn.__name__, params=params,
            label='fails on the real code at a point of a path that could '
            'not be encoded', symbolic='',
            failed=[(b.label, b.detail) for b in bad[:4]],
            values=jsonable(vals), rephase=None,
            traceback=getattr(e, '_tb', '')))


def point_of(c, rng, accept=None, tries=60):
    v = c.sample(rng, tries=tries, accept=accept)
    return v


def satisfiable(c, rng):
    """The solver confirms a point of this path (with random values of the
    inputs, as it may not find one alone)."""
    if c.check(timeout=1000) == z3.sat:
        return True
    try:
        v = c.sample(rng, tries=40)
        if v is not None and c.check(*c.pin(v), timeout=3000) == z3.sat:
            return True
    except (EvalError, Unsupported, z3.Z3Exception):
        pass
    return c.check() == z3.sat


def judge_path(out, fn, params, c, env, exc, rng, opts):
    if exc is not None:
        # an exception the scenario does not allow
        r = c.check()
        label = 'no exception'
        det = '%s: %s' % (type(exc).__name__, exc)
        cands = []
        for _ in range(3):
            v = c.sample(rng)
            if v is not None:
                cands.append(v)
        rr, v = c.model_point()
        if v is not None:
            cands.append(v)
        if r == z3.unsat:
            return
        confirm(out, fn, params, c, env, label, det, cands, exc=exc)
        return
    if not env.claims:
        return
    # vacuity: the path condition together with the domain constraints is
    # satisfiable
    if out.witness < 3 and satisfiable(c, rng):
        out.witness += 1
    for cl in env.claims:
        out.claims += 1
        parts = []
        nonid = []
        if cl.viol is not None:
            parts += cl.viol if isinstance(cl.viol, list) else [cl.viol]
        for x, y in cl.diffs or ():
            out.max_terms = max(out.max_terms, len(x.t), len(y.t))
            d = x - y
            f, ident = eq_formula(x, y)
            if ident:
                out.identities += 1
            else:
                nonid.append(d)
            parts.append(f)
        f = z3.Or(parts) if len(parts) > 1 else (
            parts[0] if parts else z3.BoolVal(False))
        sf = z3.simplify(f)
        if z3.is_false(sf):
            f = sf
        else:
            out.claims_nontrivial += 1
        # a counterexample is usually cheap to find at a random point of the
        # path: fix the inputs to rationals there and let the solver confirm
        cands = []
        sat = False
        if not nonid and cl.viol is not None and \
                c.check(f, timeout=3000) == z3.unsat:
            continue
        if nonid or cl.viol is not None:
            def acc(v):
                return any(abs(v(d)) > 1e-3 for d in nonid) or (
                    cl.viol is not None and any(
                        scalar.eval_z3(p, v) for p in (
                            cl.viol if isinstance(cl.viol, list)
                            else [cl.viol])))
            for _ in range(4):
                try:
                    v = c.sample(rng, tries=40, accept=acc)
                except (EvalError, Unsupported):
                    v = None
                if v is None:
                    break
                cands.append(v)
            for v in cands[:2]:
                try:
                    r = c.check(f, *c.pin(v), timeout=5000)
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.sat:
                    sat = True
                    break
        if not sat:
            tmo = opts.get('timeout_ms', 20000)
            r = c.check(f, timeout=tmo, every=True)
            if r == z3.unsat:
                continue
            if r == z3.sat:
                sat = True
                try:
                    cands.insert(0, c.from_model(c.model()))
                except Exception:
                    pass
            elif not cands:
                out.undecided.append('%s: solver answered unknown' % cl.label)
                continue
        confirm(out, fn, params, c, env, cl.label, cl.detail, cands,
                solver_sat=sat)
        if len(out.violations) >= opts.get('max_violations', 1):
            return


def confirm(out, fn, params, c, env, label, det, cands, exc=None,
            solver_sat=True):
    """Replay candidate points on the real code."""
    tried = 0
    for v in cands:
        try:
            vals = named_values(env, v)
        except (EvalError, Unsupported, z3.Z3Exception):
            continue
        for reph in (None,) if getattr(c, 'nophase', False) else (None, 1, 2):
            tried += 1
            stt, bad, e, _ = run_concrete(fn, params, vals, rephase=reph)
            if stt == 'invalid':
                break
            if stt == 'violated':
                out.violations.append(dict(
                    scenario=fn.__name__, params=params, label=label,
                    symbolic=det, failed=[(b.label, b.detail) for b in
                                          bad[:4]],
                    values=jsonable(vals), rephase=reph,
                    traceback=getattr(e, '_tb', '')))
                return True
    out.undecided.append(
        '%s: solver counterexample not reproduced on the real code (%s; %d '
        'replays)' % (label, det, tried))
    return False


def validate(out, fn, params, c, env, rng):
    """The encoding against the real code: a random point of this path must
    satisfy the claims and give the same observations."""
    v = c.sample(rng, tries=80)
    if v is None:
        r, v = c.model_point()
        if v is None:
            return
    try:
        vals = named_values(env, v)
    except (EvalError, Unsupported, z3.Z3Exception):
        return
    stt, bad, e, obs = run_concrete(fn, params, vals)
    if stt == 'invalid':
        return
    if stt == 'violated':
        # rounding must not be mistaken for a failure
        st2, bad2, e2, _ = run_concrete(fn, params, vals, tol=1e-3)
        if st2 != 'violated':
            out.validation_mismatch.append(
                'rounding: ' + '; '.join('%s %s' % (b.label, b.detail)
                                         for b in bad[:2]))
            return
        bad, e = bad2, e2
        out.violations.append(dict(
            scenario=fn.__name__, params=params,
            label='encoding disagrees with the real code, which fails: ' +
            '; '.join(b.label for b in bad[:3]),
            symbolic='', failed=[(b.label, b.detail) for b in bad[:4]],
            values=jsonable(vals), rephase=None,
            traceback=getattr(e, '_tb', '')))
        return
    for (n1, x), (n2, y) in zip(env.obs, obs):
        try:
            if isinstance(x, np.ndarray):
                xv = v.array(x)
                ok = xv.shape == np.shape(y) and np.allclose(
                    xv, y, rtol=1e-6, atol=1e-7)
            elif isinstance(x, (S,)):
                ok = abs(v(x) - complex(y)) < 1e-6 * (1 + abs(complex(y)))
            elif isinstance(x, (SInt,)):
                ok = int(scalar.eval_z3(x.z, v)) == int(y)
            else:
                ok = x == y
        except (EvalError, Unsupported):
            continue
        if not ok:
            out.validation_mismatch.append('%s differs' % n1)
    out.validated += 1
    if len(out.samples) < 2:
        out.samples.append({'scenario': fn.__name__, 'params': _short(params),
                            'inputs': _short(jsonable(vals))})


def _short(d):
    s = json.dumps(d, default=str)
    return s if len(s) < 400 else s[:400] + '...'


# ------------------------------------------------------------------ the check
def _job(a):
    fn, params, opts = a
    end = opts.get('stop_at')
    if end is not None:
        left = end - time.time()
        if left < 1:
            o = Outcome()
            o.name, o.params = fn.__name__, params
            o.incomplete = 'not started: the time of this run was used up'
            return o
        opts['deadline'] = min(opts['deadline'], left)
        opts['path_s'] = min(opts.get('path_s', 100 if opts['quick'] else 600),
                             max(20, left))
    try:
        return run_scenario(fn, params, opts)
    except BaseException as e:      # machinery failure
        o = Outcome()
        o.name = fn.__name__
        o.params = params
        o.crash = traceback.format_exc()
        return o


def _parallel(jobs, n, grace):
    """One child process per job; a child that dies or outlives its deadline
    is reported as incomplete."""
    todo = list(reversed(jobs))
    live = {}
    sys.stdout.flush()
    try:
        yield from _drive(todo, live, n, grace)
    finally:
        for pid in live:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def _drive(todo, live, n, grace):
    while todo or live:
        while todo and len(live) < n:
            fn, params, opts = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for (fd, *_) in live.values():
                        os.close(fd)
                    limit_memory()
                    data = pickle.dumps(_job((fn, params, opts)))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            end = time.time() + opts['deadline'] + grace + 60
            if 'stop_at' in opts:
                end = min(end, opts['stop_at'] + grace + 60)
            live[pid] = (r, fn, params, end, [])
        ready, _, _ = select.select([v[0] for v in live.values()], [], [], 1)
        for pid in list(live):
            r, fn, params, end, buf = live[pid]
            late = time.time() > end
            if r in ready:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                    continue
            elif not late:
                continue
            if late:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.close(r)
            del live[pid]
            os.waitpid(pid, 0)
            try:
                yield pickle.loads(b''.join(buf))
            except Exception:
                o = Outcome()
                o.name, o.params = fn.__name__, params
                o.incomplete = 'stopped: out of time' if late else \
                    'the process of this scenario died'
                yield o


def limit_memory():
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('known', [])


def known_hit(pid, v, known=None):
    for k in known if known is not None else [
            k for k in load_known() if k['property'] == pid]:
        if k['scenario'] == v['scenario'] and \
                k.get('params', v['params']) == json.loads(
                    json.dumps(v['params'], default=str)) and \
                any(k.get('claim', '') in l + ' ' + d
                    for l, d in v['failed']):
            return k
    return None


def main(pid, scenarios, level_note, bounds, assumptions, outside=''):
    """``scenarios(tier)`` returns a list of (fn, params[, opts])."""
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', default='')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    jobs = []
    for sc in scenarios(a.tier):
        fn, params = sc[0], sc[1]
        opts = dict(sc[2]) if len(sc) > 2 else {}
        opts.setdefault('seed', a.seed)
        opts.setdefault('deadline', 150 if a.tier == 'quick' else 1500)
        opts.setdefault('timeout_ms', 20000 if a.tier == 'quick' else 120000)
        opts['quick'] = a.tier == 'quick'
        if a.tier == 'quick':
            opts['stop_at'] = t0 + 500
        opts.setdefault('max_paths', 3000 if a.tier == 'quick' else 40000)
        if a.only and a.only not in fn.__name__ + json.dumps(
                params, default=str):
            continue
        jobs.append((fn, params, opts))
    outs = []
    if a.j <= 1 or len(jobs) == 1:
        for j in jobs:
            outs.append(_job(j))
            if a.v:
                _report(outs[-1])
    else:
        for o in _parallel(jobs, min(a.j, len(jobs)), 30 if a.tier == 'quick'
                           else 300):
            outs.append(o)
            if a.v:
                _report(o)
            if a.tier == 'quick' and not a.all and any(
                    not known_hit(pid, v) for v in o.violations):
                break       # one violation decides the quick check
    return finish(pid, a, outs, t0, level_note, bounds, assumptions, outside)


def _report(o):
    print('  %-28s %-50s paths %d claims %d (%d ident) q %d solver %.1fs '
          'wall %.1fs val %d%s%s%s%s%s' % (
              o.name, _short(o.params)[:60], o.paths, o.claims, o.identities,
              o.queries, o.solver_s, o.wall, o.validated,
              ' VIOL %s' % [(v['label'], v['failed']) for v in o.violations]
              if o.violations else '',
              ' UNSUPPORTED(%d) %s' % (len(o.unsupported), o.unsupported[:2])
              if o.unsupported else '',
              ' UNDECIDED %s' % o.undecided[:2] if o.undecided else '',
              ' INCOMPLETE %s' % o.incomplete if o.incomplete else '',
              ' MISMATCH %s' % o.validation_mismatch[:2]
              if o.validation_mismatch else ''), flush=True)
    if getattr(o, 'crash', None):
        print(o.crash)


def finish(pid, a, outs, t0, level_note, bounds, assumptions, outside):
    outs.sort(key=lambda o: (o.name, json.dumps(o.params, default=str)))
    known = [k for k in load_known() if k['property'] == pid]
    viols, kf = [], []
    for o in outs:
        for v in o.violations:
            hit = known_hit(pid, v, known)
            (kf if hit else viols).append((v, hit))
    for v, k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    crashes = [o for o in outs if getattr(o, 'crash', None)]
    funcs = set()
    for o in outs:
        funcs |= o.functions
    nclaims = sum(o.claims for o in outs)
    undec = [u for o in outs for u in o.undecided]
    unsup = [u for o in outs for u in o.unsupported]
    incomplete = ['%s %s: %s' % (o.name, _short(o.params), o.incomplete)
                  for o in outs if o.incomplete]
    decided = [o for o in outs if o.claims]
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    rp = ''
    for n, (v, _) in enumerate(viols):
        name = os.path.join('evidence', 'replay', '%s_%d.json' % (pid, n))
        v2 = dict(v, property=pid)
        with open(os.path.join(VERIF, name), 'w') as f:
            json.dump(v2, f, indent=1, default=str)
        if n == 0:
            rp = name
    samples = [s for o in outs for s in o.samples][:6]
    cov = dict(
        states=sum(o.paths for o in outs),
        transitions=sum(o.branches for o in outs),
        traces_validated_against_impl=sum(o.validated for o in outs),
        samples=samples,
        scenarios=len(outs),
        claims=nclaims,
        claims_reaching_solver_nontrivially=sum(
            o.claims_nontrivial for o in outs),
        entry_identities=sum(o.identities for o in outs),
        solver_queries=sum(o.queries for o in outs),
        solver_time_s=round(sum(o.solver_s for o in outs), 3),
        vacuity_witnesses=sum(o.witness for o in outs),
        largest_polynomial_terms=max([o.max_terms for o in outs] or [0]),
        opaque_paths=sum(o.opaque for o in outs),
        functions_encoded=sorted(funcs),
        bounds=bounds,
        outside_bounds=outside,
        undecided=undec[:20],
        unsupported=[u for u in unsup if u][:20],
        incomplete=incomplete[:20],
        encoder_mismatches=[x for o in outs
                            for x in o.validation_mismatch][:10],
        known_findings=len(kf),
        units='states = symbolic execution paths explored to the end, '
              'transitions = feasible two-way branch decisions taken, '
              'traces_validated_against_impl = concrete runs of the real '
              'code compared with the symbolic run at the same inputs')
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='model_checking',
              coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2),
              violations=len(viols))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d scenarios, %d paths, %d claims, %d queries, solver %.1fs, '
          'wall %.1fs' % (pid, len(outs), cov['states'], nclaims,
                          cov['solver_queries'], cov['solver_time_s'],
                          time.time() - t0))
    if viols:
        v = viols[0][0]
        print('  scenario %s %s: %s' % (v['scenario'], _short(v['params']),
                                        v['label']))
        for l, d in v['failed']:
            print('    fails on the real code: %s  [%s]' % (l, d))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for u in undec[:5]:
        print('  UNDECIDED: %s' % u)
    for u in [x for x in unsup if x][:5]:
        print('  NOT ENCODABLE: %s' % u)
    for u in incomplete[:5]:
        print('  INCOMPLETE: %s' % u)
    for x in cov['encoder_mismatches'][:5]:
        print('  ENCODER MISMATCH: %s' % x)
    if crashes:
        print(crashes[0].crash)
        print('machinery failure in %d scenario(s)' % len(crashes))
        if 2 * len(crashes) > len(outs):
            return 2
    if not decided:
        print('no scenario could be decided')
        return 2
    return 0


def replay(path, scenarios_by_name):
    with open(path) as f:
        v = json.load(f)
    fn = scenarios_by_name[v['scenario']]
    st, bad, exc, obs = run_concrete(fn, v['params'], unjson(v['values']),
                                     rephase=v.get('rephase'))
    print(st, [(b.label, b.detail) for b in bad])
    return 1 if st == 'violated' else 0
