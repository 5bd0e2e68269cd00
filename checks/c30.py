"""C30 what is put into files or memory is got back unchanged."""
import os
import numpy as np
from .common import REALS, NUMPY, MPI
from . import handles as hh

BOUNDS = ('arrays of any real or complex values for 1..3 modes and 1..3 '
          'vectors (any spectral values, positive where a square root is '
          'taken), put into memory or text files; 1..3 workers (thorough: 4); '
          'members put together and one by one')
OUTSIDE = ('larger arrays; formatting of floating-point numbers in text '
           'files (the engine keeps every printed number exactly)')
ASSUMPTIONS = [REALS, NUMPY, MPI,
               'numpy.savetxt/loadtxt print and parse numbers exactly']

# (attribute, shape, kind): n vectors, k modes, l other vectors
POD = dict(
    module='pod', cls='PODHandles',
    decomp=[('eigvals', 'k', 'pos'), ('eigvecs', 'nk', '')],
    single=[(['correlation_array'], ['nn'], 'correlation_array'),
            (['proj_coeffs'], ['kn'], 'proj_coeffs')],
    puts=['eigvals', 'eigvecs'], modes=['modes'])
BPOD = dict(
    module='bpod', cls='BPODHandles',
    decomp=[('sing_vals', 'k', 'pos'), ('L_sing_vecs', 'lk', ''),
            ('R_sing_vecs', 'nk', '')],
    single=[(['Hankel_array'], ['ln'], 'Hankel_array'),
            (['direct_proj_coeffs'], ['kn'], 'direct_proj_coeffs'),
            (['adjoint_proj_coeffs'], ['kl'], 'adjoint_proj_coeffs')],
    puts=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
    modes=['direct_modes', 'adjoint_modes'])
_LOW = [('eigvals', 'k', 'any'), ('R_low_order_eigvecs', 'kk', 'any'),
        ('L_low_order_eigvecs', 'kk', 'any')]
_DMDS = [(['correlation_array'], ['nn'], 'correlation_array'),
         (['cross_correlation_array'], ['nn'], 'cross_correlation_array'),
         (['spectral_coeffs'], ['k'], 'spectral_coeffs'),
         (['proj_coeffs', 'adv_proj_coeffs'], ['kn', 'kn'], 'proj_coeffs')]
DMD = dict(
    module='dmd', cls='DMDHandles',
    decomp=_LOW + [('correlation_array_eigvals', 'k', 'pos'),
                   ('correlation_array_eigvecs', 'nk', '')],
    single=_DMDS,
    puts=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
          'correlation_array_eigvals', 'correlation_array_eigvecs'],
    modes=['exact_modes', 'proj_modes', 'adjoint_modes'])
TLS = dict(
    module='dmd', cls='TLSqrDMDHandles',
    decomp=_LOW + [('sum_correlation_array_eigvals', 'l', 'pos'),
                   ('sum_correlation_array_eigvecs', 'nl', ''),
                   ('proj_correlation_array_eigvals', 'k', 'pos'),
                   ('proj_correlation_array_eigvecs', 'nk', '')],
    single=_DMDS + [
        ([a + '_correlation_array'], ['nn'], a + '_correlation_array')
        for a in ('adv', 'sum', 'proj')],
    puts=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
          'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
          'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'],
    modes=['exact_modes', 'proj_modes', 'adjoint_modes'])
SPEC = {'POD': POD, 'BPOD': BPOD, 'DMD': DMD, 'TLS': TLS}


class Memory(object):
    """Where one worker puts its arrays; ``log`` is shared."""

    def __init__(self, rank, log, seen):
        self.rank, self.log, self.val, self.seen = rank, log, {}, seen

    def put(self, array, dest):
        self.log.append((self.rank, dest))
        self.val[dest] = np.array(array)

    def get(self, src):
        return np.array(self.val[src])


class Files(object):
    """Text files; complex numbers are read as such by name."""

    def __init__(self, rank, log, cplx, m, folder):
        self.rank, self.log, self.cplx, self.m = rank, log, cplx, m
        self.folder = folder

    def put(self, array, dest):
        self.log.append((self.rank, dest))
        self.m.util.save_array_text(array, os.path.join(self.folder, dest))

    def get(self, src):
        f = os.path.join(self.folder, src)
        return self.m.util.load_array_text(f, is_complex=src in self.cplx)


class Defaults(object):
    """The default put and get (text files); names are paths."""

    def __init__(self, folder):
        self.folder = folder


def contents(env, spec, n, k, l, ld):
    """Free values of every member, and which are complex."""
    dims = {'n': n, 'k': k, 'l': l}
    val, cplx = {}, set()

    def add(attr, shape, kind):
        # eigenvalues and eigenvectors of low-order maps: complex even for
        # real data
        t = 'c' if ld == 'c' or (kind == 'any' and ld == 'm') else 'f'
        sh = [dims[x] for x in shape]
        if kind == 'pos':
            x = env.array([env.pos('%s_%d' % (attr, i), lo=1) ** 2
                           for i in range(sh[0])], 'f')
            t = 'f'
        elif len(sh) == 1:
            if attr == 'eigvals' or attr == 'spectral_coeffs':
                t = 'f' if attr == 'spectral_coeffs' else t
            xs = [env.scal('%s_%d' % (attr, i), t) for i in range(sh[0])]
            for x in xs:
                if kind == 'any':
                    env.assume(x != 0)
            x = env.array(xs, t)
        else:
            x = env.array([[env.scal('%s_%d_%d' % (attr, i, j), t)
                            for j in range(sh[1])] for i in range(sh[0])], t)
        val[attr] = x
        if t == 'c':
            cplx.add(attr)
    for attr, shape, kind in spec['decomp']:
        add(attr, shape, kind)
    for attrs, shapes, _ in spec['single']:
        for a, s in zip(attrs, shapes):
            add(a, s, '')
    return val, cplx


def make(m, spec, where, **kw):
    cls = getattr(getattr(m, spec['module']), spec['cls'])
    if not isinstance(where, Defaults):
        kw.update(get_array=where.get, put_array=where.put)
    return cls(verbosity=0, **kw)


def where_of(env, store, rank, log, cplx, m, folder):
    if store == 'memory':
        return Memory(rank, log, None)
    if store == 'text':
        return Files(rank, log, cplx, m, folder)
    return Defaults(folder)


def outputs(spec, d, st, rank, idx, keys, name):
    """Modes and, where they need nothing else, coefficients."""
    x, y = keys
    for w in spec['modes']:
        mk = st.handles(['%s_%s_%d' % (name, w, i) for i in range(len(idx))],
                        rank)
        # adjoint modes of BPOD and exact modes of DMD use the other vectors
        other = (w == 'adjoint_modes') if spec is BPOD else \
            w == 'exact_modes'
        getattr(d, 'compute_' + w)(idx, mk, st.handles(y if other else x,
                                                       rank))
    out = []
    if spec is POD:
        out.append(d.compute_proj_coeffs())
    elif spec is BPOD:
        out += [d.compute_direct_proj_coeffs(),
                d.compute_adjoint_proj_coeffs()]
    elif spec is DMD:
        out.append(d.compute_spectrum())
    else:
        out.append(d.compute_spectrum())
    return out


def round_trip(env, what, P, n, k, l, ld, store, order=None, modes=True):
    spec = SPEC[what]
    val, cplx = contents(env, spec, n, k, l, ld)
    ref = {a: np.array(v) for a, v in val.items()}
    folder = os.path.dirname(env.tmp('x')) if store != 'memory' else None
    log = []
    names = [a for a, _, _ in spec['decomp']]
    xk = ['x%d' % i for i in range(n)]
    yk = ['y%d' % i for i in range(l if spec is BPOD else n)]
    st = hh.setup(env, P, xk + yk)
    idx = list(range(k))[::-1]

    def path(d):
        return os.path.join(folder, d) if store == 'default' else d

    def go(rank, m):
        where = where_of(env, store, rank, log, cplx | {
            'one_' + a for a in cplx}, m, folder)
        a = make(m, spec, where)
        for x, v in val.items():
            setattr(a, x, v)
        a.put_decomp(*[path(x) for x in names])
        for attrs, _, name in spec['single']:
            getattr(a, 'put_' + name)(*[path(x) for x in attrs])
        for x in spec['puts']:
            getattr(a, 'put_' + x)(path('one_' + x))
        b = make(m, spec, where)
        got = {}

        def get(pre):
            b.get_decomp(*[path(pre + x) for x in names])
            for x in names:
                got[pre + x] = getattr(b, x)

        def singles():
            for attrs, _, name in spec['single']:
                getattr(b, 'get_' + name)(*[path(x) for x in attrs])
        if order == 'single first':
            singles()
            get('one_')
            get('')
        else:
            get('')
            singles()
            get('one_')
        for attrs, _, name in spec['single']:
            for x in attrs:
                got[x] = getattr(b, x)
        for x in names:
            got['kept_' + x] = getattr(b, x)
        unchanged = [getattr(a, x) for x in sorted(val)]
        out = [outputs(spec, d, st, rank, idx, (xk, yk), w)
               for d, w in ((a, 'orig'), (b, 'rest'))] if modes else []
        return got, unchanged, out
    res = hh.run_ranks(env, P, go)
    for rank, (got, unchanged, out) in enumerate(res):
        for x, v in got.items():
            w = ref[x.replace('one_', '').replace('kept_', '')]
            ok = np.shape(v) == np.shape(w)
            env.true('every array is restored with the same shape', ok,
                     detail='%s: %s instead of %s (worker %d)'
                     % (x, np.shape(v), np.shape(w), rank))
            if ok:
                env.eq('every array is restored under the right name '
                       '(%s)' % x, v, w)
        env.eq('putting changes nothing', unchanged,
               [ref[x] for x in sorted(ref)])
        if out and out[0] is not None:
            env.eq('coefficients computed from the restored object',
                   out[1], out[0])
    if store != 'default':
        want = names + [x for a, _, _ in spec['single'] for x in a] + \
            ['one_' + x for x in spec['puts']]
        env.true('each array is put exactly once, by the first worker, to '
                 'its own destination',
                 sorted(log) == sorted((0, x) for x in want),
                 detail=str([x for x in log if x not in
                             [(0, y) for y in want]] or log))
    if modes:
        for w in spec['modes']:
            a, b = [[st.val.get('%s_%s_%d' % (o, w, i)) for i in range(k)]
                    for o in ('orig', 'rest')]
            ok = all(x is not None for x in a + b) and all(
                set(x) == set(y) for x, y in zip(a, b))
            env.true('modes of the restored object (%s)' % w, ok)
            if ok:
                env.eq('modes of the restored object (%s)' % w,
                       [[y[s] for s in sorted(y)] for y in b],
                       [[y[s] for s in sorted(y)] for y in a])


def unavailable(env, P):
    """Members that total-least-squares DMD does not have."""
    def go(rank, m):
        mem = Memory(rank, [], None)
        d = make(m, TLS, mem)
        out = []
        for x in ('eigvals', 'eigvecs'):
            try:
                getattr(d, 'put_correlation_array_' + x)('dest')
                out.append(False)
            except NotImplementedError:
                out.append(True)
        return out + [mem.val == {}]
    for r in hh.run_ranks(env, P, go):
        env.true('members that do not exist raise an error', all(r))


MODEL = {
    'ERA': ('era', 'ERA', {
        'put_model': ['A', 'B', 'C'],
        'put_decomp': ['sing_vals', 'L_sing_vecs', 'R_sing_vecs',
                       'Hankel_array', 'Hankel_array2'],
        'put_sing_vals': ['sing_vals']}),
    'arrays': ('ltigalerkinproj', 'LTIGalerkinProjectionArrays', {
        'put_model': ['A_reduced', 'B_reduced', 'C_reduced'],
        'put_A_reduced': ['A_reduced'], 'put_B_reduced': ['B_reduced'],
        'put_C_reduced': ['C_reduced']}),
    'handles': ('ltigalerkinproj', 'LTIGalerkinProjectionHandles', {
        'put_model': ['A_reduced', 'B_reduced', 'C_reduced'],
        'put_A_reduced': ['A_reduced'], 'put_B_reduced': ['B_reduced'],
        'put_C_reduced': ['C_reduced']}),
}


def models(env, what, P, k, ld, store):
    module, cls, puts = MODEL[what]
    shapes = dict(A=(k, k), B=(k, 2), C=(1, k), sing_vals=(k,),
                  L_sing_vecs=(3, k), R_sing_vecs=(4, k),
                  Hankel_array=(3, 4), Hankel_array2=(3, 4),
                  A_reduced=(k, k), B_reduced=(k, 2), C_reduced=(1, k))
    val = {}
    for x in sorted({a for p in puts.values() for a in p}):
        sh = shapes[x]
        t = 'f' if x == 'sing_vals' else ld
        val[x] = env.array([env.scal('%s_%d' % (x, i), t)
                            for i in range(sh[0])], t) if len(sh) == 1 else \
            env.tmat(x, sh[0], sh[1], t)
    ref = {a: np.array(v) for a, v in val.items()}
    folder = os.path.dirname(env.tmp('x')) if store != 'memory' else None
    log = []

    def go(rank, m):
        where = where_of(env, store, rank, log, set(), m, folder)
        args = []
        if what == 'arrays':
            args = [np.eye(k)]
        elif what == 'handles':
            st = hh.setup(env, P, ['b%d' % i for i in range(k)])
            args = [hh.IP({}), st.handles(['b%d' % i for i in range(k)],
                                          rank)]
        kw = {} if store == 'default' else dict(put_array=where.put)
        if what == 'handles':
            kw['verbosity'] = 0
        a = getattr(getattr(m, module), cls)(*args, **kw)
        for x, v in val.items():
            setattr(a, x, v)
        for f in sorted(puts):
            getattr(a, f)(*[os.path.join(folder, f + '.' + x) if
                            store == 'default' else f + '.' + x
                            for x in puts[f]])
        if store == 'memory':
            return where.val if rank == 0 else None
        if rank:
            return None
        return {f + '.' + x: m.util.load_array_text(
            os.path.join(folder, f + '.' + x),
            is_complex=ld == 'c' and x != 'sing_vals')
            for f in puts for x in puts[f]}
    res = hh.run_ranks(env, P, go)
    for f in puts:
        for x in puts[f]:
            got = res[0].get(f + '.' + x)
            env.true('every array is put', got is not None, detail=f + x)
            if got is None:
                continue
            w = ref[x]
            if store != 'memory' and w.ndim == 1:
                w = w[:, np.newaxis]
            ok = np.shape(got) == np.shape(w)
            env.true('shape of what is put', ok, detail='%s %s: %s' % (
                f, x, np.shape(got)))
            if ok:
                env.eq('each array goes to its own destination (%s)' % x,
                       got, w)
    if store == 'memory':
        env.true('each array is put exactly once, by the first worker',
                 sorted(log) == sorted((0, f + '.' + x) for f in puts
                                       for x in puts[f]), detail=str(log))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for what in ('POD', 'BPOD', 'DMD', 'TLS'):
        for P in (1, 2, 3) if q else (1, 2, 3, 4):
            for n, k, l in ((1, 1, 1), (2, 1, 2), (2, 2, 3), (3, 2, 2)):
                if what == 'TLS' and l > n:
                    l = n
                if q and P == 3 and n != 2:
                    continue
                for ld in ('f', 'c') + (('m',) if what in ('DMD', 'TLS')
                                        else ()):
                    if P == 1 or not q or (n, k) in ((2, 1), (2, 2)):
                        out.append((round_trip, dict(
                            what=what, P=P, n=n, k=k, l=l, ld=ld,
                            store='memory')))
                    if P < 3 and n < 3 or not q:
                        out.append((round_trip, dict(
                            what=what, P=P, n=n, k=k, l=l, ld=ld,
                            store='text', order='single first')))
                    if P < 3 and ld == 'f' and n < 3:
                        out.append((round_trip, dict(
                            what=what, P=P, n=n, k=k, l=l, ld=ld,
                            store='default')))
    for P in (1, 2, 3):
        out.append((unavailable, dict(P=P)))
        for k in (1, 2):
            for ld in 'fc':
                for store in ('memory', 'text', 'default'):
                    out.append((models, dict(what='handles', P=P, k=k, ld=ld,
                                             store=store)))
                    if P == 1:
                        for what in ('ERA', 'arrays'):
                            out.append((models, dict(what=what, P=P, k=k,
                                                     ld=ld, store=store)))
    return out
