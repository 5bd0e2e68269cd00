"""Load the modules of the code under test, either as they are (for replays)
or with numpy / scipy / mpi4py / time / socket replaced by stand-ins.  Several
independent instances can be loaded (one per simulated MPI rank).  The sources
are read from the working tree on every run."""
import builtins
import importlib
import os
import sys
import types

import numpy as np
import scipy
import scipy.linalg
import scipy.signal

from . import npx, linalg
from .scalar import SInt

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'modred')

_code = {}


def source_of(name):
    p = os.path.join(PKG, name + '.py')
    if p not in _code:
        with open(p) as f:
            _code[p] = compile(f.read(), p, 'exec')
    return _code[p]


class FakeTime(types.ModuleType):
    """A clock whose readings are symbolic (or a fixed 0 when no hook)."""

    def __init__(self):
        types.ModuleType.__init__(self, 'time')
        self.hook = None
        self.sleep = lambda s: None

    def time(self):
        return self.hook() if self.hook is not None else 0.

    perf_counter = monotonic = process_time = clock = time


class FakeSocket(types.ModuleType):
    def __init__(self, host):
        types.ModuleType.__init__(self, 'socket')
        self.gethostname = lambda: host


class SymRange(object):
    """range() with symbolic bounds or step, unrolled lazily."""

    def __init__(self, start, stop, step):
        if isinstance(step, SInt) and step == 0 or step == 0:
            raise ValueError('range() arg 3 must not be zero')
        self.a = (start, stop, step)

    def __iter__(self):
        x, stop, step = self.a
        up = bool(step > 0)
        while bool(x < stop) if up else bool(x > stop):
            x = int(x)
            yield x
            x = x + step

    def __len__(self):
        return len(list(iter(self)))

    def __getitem__(self, i):
        return list(iter(self))[i]

    def __contains__(self, v):
        return v in list(iter(self))

    def __eq__(self, o):
        return list(self) == list(o)


def srange(*a):
    if not any(isinstance(x, SInt) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    if len(a) == 2:
        return SymRange(a[0], a[1], 1)
    return SymRange(*a)


class FakeStream(object):
    def __init__(self, out, name):
        self._o, self._n = out, name

    def write(self, s):
        self._o.append((self._n, s))
        return len(s)

    def flush(self):
        pass


class FakeSys(types.ModuleType):
    """``sys`` whose standard streams are recorded."""

    def __init__(self, out):
        types.ModuleType.__init__(self, 'sys')
        self.stdout = self.__stdout__ = FakeStream(out, 'stdout')
        self.stderr = self.__stderr__ = FakeStream(out, 'stderr')

    def __getattr__(self, n):
        return getattr(sys, n)


class Instance(object):
    """One loaded copy of the package."""
    _n = 0

    def __init__(self, symbolic, comm_module=None, host='node0', clock=None,
                 numpy_extra=None, quiet=True):
        Instance._n += 1
        self.name = 'modred_i%d' % Instance._n
        self.symbolic = symbolic
        self.mods = {}
        self.over = {}
        self.clock = clock or FakeTime()
        self.over['time'] = self.clock
        self.over['socket'] = FakeSocket(host)
        self.over['mpi4py'] = comm_module     # None -> ImportError
        self.printed = []
        self.over['sys'] = FakeSys(self.printed)
        if symbolic:
            self.np = npx.make_numpy(linalg.NP_LINALG, numpy_extra)
            self.over['numpy'] = self.np
            self.over['numpy.linalg'] = linalg.NP_LINALG
            self.over['numpy.random'] = npx.RANDOM
            sp = npx.Proxy('scipy', scipy, dict(
                linalg=linalg.SP_LINALG, signal=linalg.SP_SIGNAL))
            self.over['scipy'] = sp
            self.over['scipy.linalg'] = linalg.SP_LINALG
            self.over['scipy.signal'] = linalg.SP_SIGNAL
        else:
            self.np = np
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        if symbolic:
            self.builtins['range'] = srange
            self.builtins['open'] = self._open
        if quiet:
            self.builtins['print'] = self._print
        pkg = types.ModuleType(self.name)
        pkg.__path__ = []
        self.pkg = pkg
        sys.modules.pop(self.name, None)

    def _open(self, name, *a, **k):
        if str(name).startswith('/sym/'):
            return npx.FS.open(name, *a, **k)
        return open(name, *a, **k)

    def _print(self, *a, **k):
        f = k.get('file')
        if f is not None and not isinstance(f, FakeStream):
            if f is sys.stdout or f is sys.stderr:
                f = None
            else:
                return print(*a, **k)
        n = f._n if f is not None else 'stdout'
        self.printed.append((n, k.get('sep', ' ').join(str(x) for x in a)))

    def close(self):
        for n in list(sys.modules):
            if n == self.name or n.startswith(self.name + '.'):
                del sys.modules[n]

    def load(self, sub):
        m = self.mods.get(sub)
        if m is not None:
            return m
        if not os.path.exists(os.path.join(PKG, sub + '.py')):
            raise ImportError('no module modred.%s' % sub)
        m = types.ModuleType(self.name + '.' + sub)
        m.__package__ = self.name
        m.__file__ = os.path.join(PKG, sub + '.py')
        m.__builtins__ = self.builtins
        self.mods[sub] = m
        sys.modules[m.__name__] = m
        exec(source_of(sub), m.__dict__)
        setattr(self.pkg, sub, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == 'modred' or name.startswith('modred.'):
            if level == 0:
                name = name[len('modred.'):] if '.' in name else ''
            if name:
                return self.load(name)
            for f in fromlist or ():
                self.load(f)
            return self.pkg
        if name in self.over:
            m = self.over[name]
            if m is None:
                raise ImportError(name)
            if fromlist:
                for f in fromlist:
                    full = name + '.' + f
                    if full in self.over and not hasattr(m, f):
                        setattr(m, f, self.over[full])
                return m
            if '.' in name:
                return self.over[name.split('.')[0]]
            return m
        root = name.split('.')[0]
        if root in ('numpy', 'scipy', 'mpi4py') and self.symbolic:
            if self.over.get(root) is None:
                raise ImportError(name)
            m = importlib.import_module(name)
            return m if fromlist else self.over[root]
        if root == 'mpi4py' and not self.symbolic:
            if self.over.get(root) is None:
                raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return self.load(n)
