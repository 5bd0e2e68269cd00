"""Path exploration: one Ctx per execution of a harness body; decisions that
are not forced by the path condition are enumerated depth first."""
import random
import threading
import threading
import time
from fractions import Fraction

from .z3load import z3
from . import scalar
from .scalar import (S, SBool, SInt, ATOMS, Unsupported, Valuation, EvalError,
                     lift)

_cur = None


def current():
    return _cur


class Infeasible(BaseException):
    """The path condition became unsatisfiable (raised by assume)."""


class PathLimit(Exception):
    pass


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.
        self.unknown = 0
        self.nontrivial = 0
        self.unsat = 0
        self.sat = 0


STATS = Stats()


def run(solver, fs):
    """Verdict of a solver; unknown when it runs out of memory."""
    try:
        return solver.check(*fs)
    except z3.Z3Exception as e:
        if 'memory' not in str(e):
            raise
        return z3.unknown


class Group(object):
    """Constraints that share variables, in one incremental solver."""

    def __init__(self, timeout_ms):
        self.names = set()
        self.cons = []
        self.solver = z3.Solver()
        self.result = None

    def add(self, f):
        self.cons.append(f)
        self.solver.add(f)
        self.result = None

    def check(self, fs, timeout):
        if not fs and self.result is not None:
            return self.result
        self.solver.set('timeout', timeout)
        r = run(self.solver, fs)
        m = self.solver.model() if r == z3.sat else None
        if not fs and r != z3.unknown:
            self.result = r, m
        return r, m


class Models(object):
    """Models of groups without common variables."""

    def __init__(self, parts):
        self.parts = [(n, m) for n, m in parts if m is not None]

    def eval(self, t, model_completion=False):
        name = t.decl().name()
        for names, m in self.parts:
            if name in names:
                return m.eval(t, model_completion=model_completion)
        return self.parts[0][1].eval(t, model_completion=model_completion)


class Ctx(object):
    def __init__(self, prefix, timeout_ms=10000, seed=1):
        self.prefix = prefix
        self.decisions = []      # [value, has_alternative]
        self.groups = []
        self._nothing = Group(timeout_ms)
        self._group = {}
        self._ncache = {}
        self._model = []
        self.timeout_ms = timeout_ms
        self.pc = []
        self._con_added = set()
        self.seed = seed
        self.notes = []
        self.opaque = False
        self.decomps = []
        self.functions = set()
        self._bcache = {}
        self.facts = []         # (condition, value) of the assumptions

    # -------------------------------------------------------------- solver
    # Constraints without common variables are kept in separate solvers
    # (groups).  A query looks only at the groups its variables belong to: the
    # others are satisfiable on their own, as only feasible paths are followed.
    def _names(self, f):
        k = f.get_id()
        hit = self._ncache.get(k)
        if hit is not None and hit[0].eq(f):
            return hit[1]
        out = set()
        seen = set()
        stack = [f]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
        self._ncache[k] = (f, out)
        return out

    def _touched(self, names):
        out = []
        for n in names:
            g = self._group.get(n)
            if g is not None and not any(g is h for h in out):
                out.append(g)
        return out

    def _add(self, f):
        """Adds a constraint to its group."""
        names = self._names(f)
        gs = self._touched(names)
        if not gs:
            g = Group(self.timeout_ms)
            self.groups.append(g)
        else:
            g = max(gs, key=lambda h: len(h.cons))
            for h in gs:
                if h is not g:
                    for x in h.cons:
                        g.add(x)
                    g.names |= h.names
                    for n in h.names:
                        self._group[n] = g
                    self.groups = [x for x in self.groups if x is not h]
        g.names |= names
        for n in names:
            self._group[n] = g
        g.add(f)

    def _ensure(self, f):
        new = [i for i in scalar.closure_atoms(scalar.z3_term_atoms(f))
               if i not in self._con_added]
        for i in new:
            self._con_added.add(i)
        for i in new:
            for c in scalar.atom_constraints(i):
                self._add(c)
                extra = [j for j in scalar.closure_atoms(
                    scalar.z3_term_atoms(c)) if j not in self._con_added]
                if extra:
                    self._ensure(c)

    dead = False

    def check(self, *fs, **kw):
        """Satisfiability of the constraints together with ``fs``; ``every``:
        of all groups, whether or not they share variables with ``fs``."""
        if self.dead and threading.current_thread() is not \
                threading.main_thread():
            raise SystemExit
        for f in fs:
            self._ensure(f)
        tmo = kw.get('timeout', self.timeout_ms)
        names = set()
        for f in fs:
            names |= self._names(f)
        gs = self._touched(names)
        t0 = time.time()
        try:
            if len(gs) <= 1:
                r, m = (gs[0] if gs else self._nothing).check(fs, tmo)
            else:
                s = z3.Solver()
                s.set('timeout', tmo)
                for g in gs:
                    for x in g.cons:
                        s.add(x)
                r = run(s, fs)
                m = s.model() if r == z3.sat else None
            if m is None:
                m = self._nothing.check((), tmo)[1]
            self._model = [(names.union(*[g.names for g in gs]), m)]
            if kw.get('every', not fs):
                for g in self.groups:
                    if r == z3.unsat:
                        break
                    if any(g is h for h in gs):
                        continue
                    rg, m = g.check((), tmo)
                    self._model.append((g.names, m))
                    if rg != z3.sat:
                        r = rg
        finally:
            STATS.queries += 1
            STATS.solver_s += time.time() - t0
        if r == z3.unknown:
            STATS.unknown += 1
        elif r == z3.sat:
            STATS.sat += 1
        else:
            STATS.unsat += 1
        return r

    def model(self):
        """The model of the last satisfiable query."""
        return Models(self._model)

    def assume(self, f):
        if isinstance(f, SBool):
            f = f.z
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self._ensure(f)
        self._add(f)
        self.pc.append(f)
        if z3.is_not(f):
            self.facts.append((f.arg(0), z3.BoolVal(False)))
        elif not z3.is_true(f):
            self.facts.append((f, z3.BoolVal(True)))

    def branch(self, cond):
        if self.dead:
            raise SystemExit
        if isinstance(cond, SBool):
            cond = cond.z
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        hit = self._bcache.get(k)
        if hit is not None and hit[0].eq(c):
            return hit[1]
        d = len(self.decisions)
        if d < len(self.prefix):
            v = self.prefix[d][0]
            self.decisions.append(list(self.prefix[d]))
        else:
            rt = self.check(c)
            if rt == z3.unsat:
                v, alt = False, False
            else:
                rf = self.check(z3.Not(c))
                if rf == z3.unsat:
                    v, alt = True, False
                else:
                    v, alt = True, True
                    STATS.branches += 1
            self.decisions.append([v, alt])
        f = c if v else z3.Not(c)
        self._ensure(f)
        if self.decisions[-1][1] or d < len(self.prefix):
            self._add(f)
            self.pc.append(f)
        self._bcache[k] = (c, v)
        return v

    def implied_sign(self, p):
        """True if p >= 0 is implied, False if p <= 0 is, else None."""
        z = scalar.z3_of_real(p, sign_only=True)
        f = z3.simplify(z >= 0)
        key = ('sign', f.get_id())
        if key in self._bcache and self._bcache[key][0].eq(f):
            return self._bcache[key][1]
        r = None
        d = len(self.decisions)
        if d < len(self.prefix):
            r = self.prefix[d][0]
            self.decisions.append(list(self.prefix[d]))
        else:
            if self.check(z < 0, timeout=2000) == z3.unsat:
                r = True
            elif self.check(z > 0, timeout=2000) == z3.unsat:
                r = False
            self.decisions.append([r, False])
        self._bcache[key] = (f, r)
        return r

    def concretize_z3int(self, t, limit=80):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            d = len(self.decisions)
            if d < len(self.prefix):
                # the candidate is stored with the decision
                v, alt, cand = self.prefix[d]
                self.decisions.append(list(self.prefix[d]))
            else:
                if self.check(z3.Int('any!') == t) != z3.sat:
                    raise Unsupported('cannot concretise an integer')
                cand = self._min_value(z3.Int('any!'))
                alt = self.check(t != cand) != z3.unsat
                if alt:
                    STATS.branches += 1
                v = True
                self.decisions.append([v, alt, cand])
            f = t == cand if v else t != cand
            self._ensure(f)
            self._add(f)
            self.pc.append(f)
            if v:
                return cand
        raise Unsupported('integer has too many feasible values')

    def _min_value(self, t):
        return self.model().eval(t, model_completion=True).as_long()

    def concretize_int(self, p):
        z = scalar.z3_of_real(p)
        k = z3.Int('conc!%d' % len(self.decisions))
        self._ensure(z == 0)
        key = ('conc', p.key())
        if key in self._bcache:
            return self._bcache[key]
        # truncation toward zero
        f = z3.If(z >= 0, z3.And(z3.ToReal(k) <= z, z < z3.ToReal(k) + 1),
                  z3.And(z3.ToReal(k) >= z, z > z3.ToReal(k) - 1))
        self._ensure(f)
        self._add(f)
        self.pc.append(f)
        r = self.concretize_z3int(k)
        self._bcache[key] = r
        return r

    # -------------------------------------------------------------- points
    def base_atoms(self):
        return [i for i, a in enumerate(ATOMS)
                if a.kind in ('real', 'pos', 'phase') and a.defn is None]

    def sample(self, rng, tries=60, accept=None):
        """A numeric point satisfying the path condition, by rejection."""
        atoms = self.base_atoms()
        zm = None
        for n in range(tries):
            vals = {}
            for i in atoms:
                a = ATOMS[i]
                if a.kind == 'phase':
                    r = Fraction(rng.randint(-24, 24), 8)
                    den = 1 + r * r
                    vals[i] = complex(float((1 - r * r) / den),
                                      float(2 * r / den))
                else:
                    lo = a.lo if a.lo is not None else (
                        Fraction(1, 4) if a.kind == 'pos' else -3)
                    hi = a.hi if a.hi is not None else 3
                    if a.integer:
                        vals[i] = float(rng.randint(int(lo), int(hi)))
                    else:
                        q = Fraction(rng.randint(1, 63), 64)
                        vals[i] = float(lo + (hi - lo) * q)
            v = Valuation(vals, zm)
            try:
                ok = self._pc_holds(v)
                if ok and (accept is None or accept(v)):
                    return v
            except EvalError as e:
                if 'free z3 variable' in str(e):
                    if zm is None and self._int_groups():
                        zm = self.model()
                    elif zm is None:
                        return None
                continue
            except (ZeroDivisionError, OverflowError):
                continue
        return None

    def _int_groups(self):
        """Models of the groups with variables that are not atoms."""
        self._model = []
        for g in self.groups:
            if any('#' not in n for n in g.names):
                r, m = g.check((), self.timeout_ms)
                if r != z3.sat:
                    return False
                self._model.append((g.names, m))
        return True

    def _pc_holds(self, v):
        memo = {}
        return all(scalar.eval_z3(f, v, memo) for f in self.pc)

    def model_point(self, *extra, **kw):
        r = self.check(*extra, every=True, **kw)
        if r != z3.sat:
            return r, None
        return r, self.from_model(self.model())

    def from_model(self, m):
        vals = {}
        for i in self.base_atoms():
            z = scalar.z3_atom(i)
            if ATOMS[i].kind == 'phase':
                c, s = _num(m, z[0], None), _num(m, z[1], None)
                if c is None and s is None:
                    vals[i] = complex(0.6, 0.8)
                else:
                    c = complex(c if c is not None else 1.,
                                s if s is not None else 0.)
                    vals[i] = c / abs(c) if abs(c) else 1. + 0j
            else:
                d = 1.
                a = ATOMS[i]
                if a.lo is not None:
                    d = max(d, float(a.lo))
                if a.hi is not None:
                    d = min(d, float(a.hi))
                v = _num(m, z, d)
                vals[i] = v
        return Valuation(vals, m)

    def pin(self, v):
        """z3 equalities fixing the base atoms to (rational) values close to
        the numeric point ``v``."""
        out = []
        for i, x in v.vals.items():
            z = scalar.z3_atom(i)
            if ATOMS[i].kind == 'phase':
                # rational point on the circle
                c, s = x.real, x.imag
                if abs(1 + c) < 1e-9:
                    rc, rs = Fraction(-1), Fraction(0)
                else:
                    r = Fraction(s / (1 + c)).limit_denominator(10000)
                    rc, rs = (1 - r * r) / (1 + r * r), 2 * r / (1 + r * r)
                out += [z[0] == scalar.z3real(rc), z[1] == scalar.z3real(rs)]
            else:
                out.append(z == scalar.z3real(Fraction(x)))
        return out


def _num(m, z, default):
    e = m.eval(z, model_completion=False)
    if z3.is_rational_value(e):
        return float(e.as_fraction())
    if z3.is_algebraic_value(e):
        return float(e.approx(30).as_fraction())
    return default


def explore(fn, max_paths=20000, timeout_ms=10000, seed=1, deadline=None):
    """Run ``fn(ctx)`` once per feasible path; yields (ctx, result, exc)."""
    global _cur
    prefix = []
    n = 0
    while True:
        scalar.reset()
        c = Ctx(prefix, timeout_ms, seed)
        _cur = c
        res = exc = None
        infeasible = False
        try:
            res = fn(c)
        except Infeasible:
            infeasible = True
        except Exception as e:      # judged by the caller
            exc = e
        if not infeasible:
            STATS.paths += 1
            yield c, res, exc
        n += 1
        dec = c.decisions
        while dec and not (dec[-1][1] and dec[-1][0] is True):
            dec.pop()
        if not dec:
            _cur = None
            return
        last = dec[-1]
        if c.dead:
            _cur = None
            raise PathLimit('a path was given up after %d paths' % n)
        if n >= max_paths or (deadline and time.time() > deadline):
            _cur = None
            raise PathLimit('stopped after %d paths with alternatives left'
                            % n)
        if len(last) == 3:
            prefix = [list(d) for d in dec[:-1]] + [[False, False, last[2]]]
        else:
            prefix = [list(d) for d in dec[:-1]] + [[False, False]]
