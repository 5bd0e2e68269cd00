"""Simulated MPI: P ranks in threads that run one at a time (baton passing).

Sends are treated as rendezvous (a send completes only once it is received) and
every collective synchronises all ranks: the least permissive behaviour the MPI
standard allows.  Each rank's communication events are recorded; since no
receive uses a wildcard, the matching of sends and receives does not depend on
the schedule, and :func:`schedule_formula` asks the solver whether *any*
schedule with *any* choice of buffering can get stuck."""
import copy
import ctypes
import os
import sys
import threading
import time
import types

from .scalar import Unsupported
from .z3load import z3


class Deadlock(Exception):
    pass


class MPIMismatch(Exception):
    """Ranks entered different collective operations (or roots)."""


class MessageLeak(Exception):
    pass


class _Abort(BaseException):
    pass


class World(object):
    def __init__(self, P, hosts=None, switch=None):
        self.P = P
        self.hosts = hosts or ['node0'] * P
        self.sends = []             # unmatched sends, in order of issue
        self.posted = [[] for _ in range(P)]    # unmatched receives
        self.events = [[] for _ in range(P)]
        self.coll_n = [0] * P
        self.colls = {}
        self.preds = [None] * P
        self.state = ['new'] * P    # new / ready / blocked / done
        self.cond = threading.Condition()
        self.turn = None
        self.abort = False
        self.exc = [None] * P
        self.res = [None] * P
        self.wildcard = False
        self.blocked_on = [None] * P
        self.nreq = 0
        self.on_recv = None
        self.low = [False] * P
        self.choose = None          # picks the message of a wildcard receive
        self.nwild = 0
        self.switch = switch        # optional schedule choice function

    # ------------------------------------------------------------ scheduling
    def run(self, fn):
        def body(r):
            with self.cond:
                while self.turn != r and not self.abort:
                    self.cond.wait()
            try:
                if self.abort:
                    raise _Abort()
                self.res[r] = fn(r)
            except _Abort:
                pass
            except BaseException as e:
                self.exc[r] = e
                with self.cond:
                    if not self.abort:
                        self.first_exc = e
                        self.abort = True
                    self.cond.notify_all()
            finally:
                with self.cond:
                    self.state[r] = 'done'
                    self._next(r)
        self.first_exc = None
        ths = []
        old = threading.stack_size(64 * 1024 * 1024)
        for r in range(self.P):
            t = threading.Thread(target=body, args=(r,), daemon=True)
            ths.append(t)
        with self.cond:
            for t in ths:
                t.start()
            self.state = ['ready'] * self.P
            self.turn = 0
            self.cond.notify_all()
        try:
            for t in ths:
                t.join()
        except BaseException:
            # the time of this path is used up: end the ranks
            self.abort = True
            end = time.time() + 10
            while any(t.is_alive() for t in ths):
                for t in ths:
                    if t.is_alive():
                        ctypes.pythonapi.PyThreadState_SetAsyncExc(
                            ctypes.c_ulong(t.ident), ctypes.py_object(_Abort))
                if self.cond.acquire(timeout=.05):
                    self.cond.notify_all()
                    self.cond.release()
                time.sleep(.05)
                if time.time() > end:
                    os._exit(77)
            raise
        finally:
            threading.stack_size(old)
        if self.first_exc is not None:
            raise self.first_exc
        return self.res

    def _runnable(self, r):
        if self.state[r] == 'done':
            return False
        p = self.preds[r]
        return p is None or p()

    def _next(self, cur):
        """Hand the baton to another rank (called with the lock held)."""
        if self.abort:
            self.turn = None
            self.cond.notify_all()
            return
        order = [(cur + k) % self.P for k in range(1, self.P + 1)]
        if self.switch is not None:
            order = self.switch(order)
        for low in (False, True):
            # wildcard receives run only when nobody else can advance, so
            # that every message they could match has been sent
            for r in order:
                if self.low[r] == low and self._runnable(r):
                    self.turn = r
                    self.cond.notify_all()
                    return
        if all(s == 'done' for s in self.state):
            self.turn = None
            self.cond.notify_all()
            return
        self.first_exc = Deadlock('ranks blocked: ' + '; '.join(
            'rank %d: %s' % (r, self.blocked_on[r] or 'finished')
            for r in range(self.P)))
        self.abort = True
        self.turn = None
        self.cond.notify_all()

    def block(self, r, pred, what, low=False):
        with self.cond:
            if self.abort:
                raise _Abort()
            if pred() and not low:
                return
            self.preds[r] = pred
            self.low[r] = low
            self.blocked_on[r] = what
            self._next(r)
            while self.turn != r and not self.abort:
                self.cond.wait()
            self.preds[r] = None
            self.low[r] = False
            self.blocked_on[r] = None
            if self.abort:
                raise _Abort()

    # --------------------------------------------------------------- leftovers
    def leaked(self):
        return [(m.src, m.dst, m.tag) for m in self.sends]


def _copy(x):
    return copy.deepcopy(x)


class Msg(object):
    def __init__(self, src, dst, tag, obj):
        self.src, self.dst, self.tag, self.obj = src, dst, tag, obj
        self.done = False


class Post(object):
    """A posted receive."""

    def __init__(self, source, tag):
        self.source, self.tag = source, tag
        self.msg = None

    def accepts(self, m):
        return self.source in (-2, m.src) and self.tag in (-1, m.tag)


class Request(object):
    def __init__(self, comm, cell, reqid, what):
        self._c = comm
        self._cell = cell
        self._id = reqid
        self._what = what
        self._waited = False

    def Wait(self, status=None):
        w, r = self._c._w, self._c._r
        if not self._waited:
            w.events[r].append(('wait', self._id))
            self._waited = True
        w.block(r, lambda: self._cell.done, 'wait for ' + self._what)

    def wait(self, status=None):
        self.Wait()
        return None

    def Test(self, status=None):
        raise Unsupported('MPI request test')

    test = Test

    @staticmethod
    def Waitall(requests, statuses=None):
        for q in requests:
            q.wait()

    @staticmethod
    def waitall(requests, statuses=None):
        return [q.wait() for q in requests]


class RecvRequest(Request):
    def __init__(self, comm, post, reqid, what):
        Request.__init__(self, comm, post, reqid, what)
        self._v = None

    def wait(self, status=None):
        w, r = self._c._w, self._c._r
        if not self._waited:
            w.events[r].append(('waitr', self._id))
            self._waited = True
            p = self._cell
            w.block(r, lambda: p.msg is not None, 'wait for ' + self._what)
            self._v = p.msg.obj
            if w.on_recv is not None:
                w.on_recv(self._v, r)
        return self._v

    def Wait(self, status=None):
        self.wait()


class Op(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __call__(self, a, b):
        return self.f(a, b)

    def __repr__(self):
        return 'MPI.%s' % self.name


def _max(a, b):
    return b if b > a else a


def _min(a, b):
    return b if b < a else a


def _maxloc(a, b):
    (u, i), (v, j) = a, b
    if u > v:
        return (u, i)
    if v > u:
        return (v, j)
    return (u, i if i < j else j)


def _minloc(a, b):
    (u, i), (v, j) = a, b
    if u < v:
        return (u, i)
    if v < u:
        return (v, j)
    return (u, i if i < j else j)


def _logical(f):
    return f


def make_mpi(world, rank):
    """A fake ``mpi4py`` module for one rank."""
    pkg = types.ModuleType('mpi4py')
    MPI = types.ModuleType('mpi4py.MPI')
    MPI.SUM = Op('SUM', lambda a, b: a + b)
    MPI.PROD = Op('PROD', lambda a, b: a * b)
    MPI.MAX = Op('MAX', _max)
    MPI.MIN = Op('MIN', _min)
    MPI.MAXLOC = Op('MAXLOC', _maxloc)
    MPI.MINLOC = Op('MINLOC', _minloc)
    MPI.LAND = Op('LAND', lambda a, b: bool(a) & bool(b))
    MPI.LOR = Op('LOR', lambda a, b: bool(a) | bool(b))
    MPI.BAND = Op('BAND', lambda a, b: a & b)
    MPI.BOR = Op('BOR', lambda a, b: a | b)
    MPI.ANY_SOURCE = -2
    MPI.ANY_TAG = -1
    MPI.TAG_UB = 'TAG_UB'
    MPI.PROC_NULL = -3

    class Op_:
        pass

    def create(f, commute=False):
        return Op('user', f)
    Op_.Create = staticmethod(create)
    MPI.Op = Op_

    class Status(object):
        pass
    MPI.Status = Status
    MPI.Request = Request

    class Comm(object):
        def __new__(cls, comm=None):
            o = object.__new__(cls)
            o._w = world
            o._r = rank
            return o

        @property
        def size(self):
            return self._w.P

        @property
        def rank(self):
            return self._r

        def Get_size(self):
            return self._w.P

        def Get_rank(self):
            return self._r

        def Get_attr(self, k):
            return 2 ** 28

        def Dup(self):
            return type(self)(self)

        # -- point to point
        def isend(self, obj, dest=None, tag=0):
            w, r = self._w, self._r
            dest = int(dest)
            if not 0 <= dest < w.P:
                raise ValueError('MPI_ERR_RANK: invalid rank')
            if not 0 <= int(tag) <= 2 ** 28:
                raise ValueError('MPI_ERR_TAG: invalid tag')
            m = Msg(r, dest, int(tag), _copy(obj))
            for p in w.posted[dest]:
                if p.accepts(m):
                    w.posted[dest].remove(p)
                    p.msg = m
                    m.done = True
                    break
            else:
                w.sends.append(m)
            w.nreq += 1
            what = 'send to %d tag %d' % (dest, tag)
            w.events[r].append(('isend', dest, int(tag), w.nreq))
            return Request(self, m, w.nreq, what)

        issend = isend

        def send(self, obj, dest=None, tag=0):
            self.isend(obj, dest, tag).Wait()

        ssend = send

        def recv(self, buf=None, source=-2, tag=-1, status=None):
            w, r = self._w, self._r
            source, tag = int(source), int(tag)
            if source != -2 and not 0 <= source < w.P:
                raise ValueError('MPI_ERR_RANK: invalid rank')
            if source == -2 or tag == -1:
                return self._recv_any(source, tag)
            p = self._post(source, tag)
            w.events[r].append(('recv', source, tag))
            w.block(r, lambda: p.msg is not None,
                    'recv from %d tag %d' % (source, tag))
            if w.on_recv is not None:
                w.on_recv(p.msg.obj, r)
            return p.msg.obj

        def _post(self, source, tag):
            w, r = self._w, self._r
            p = Post(source, tag)
            for m in w.sends:
                if m.dst == r and p.accepts(m):
                    w.sends.remove(m)
                    p.msg = m
                    m.done = True
                    return p
            w.posted[r].append(p)
            return p

        def _recv_any(self, source, tag):
            """Wildcard receive: any of the matching first messages."""
            w, r = self._w, self._r
            q = Post(source, tag)

            def cands():
                seen, out = set(), []
                for m in w.sends:
                    if m.dst == r and q.accepts(m) and m.src not in seen:
                        seen.add(m.src)
                        out.append(m)
                return out
            w.wildcard = True
            w.block(r, lambda: bool(cands()), 'recv from any', low=True)
            c = cands()
            k = 0
            if len(c) > 1:
                if w.choose is None:
                    raise Unsupported('wildcard receive')
                w.nwild += 1
                k = w.choose('mpi.any%d' % w.nwild, len(c))
            m = c[k]
            w.sends.remove(m)
            m.done = True
            w.events[r].append(('recv', m.src, m.tag))
            if w.on_recv is not None:
                w.on_recv(m.obj, r)
            return m.obj

        def irecv(self, buf=None, source=-2, tag=-1):
            w, r = self._w, self._r
            source, tag = int(source), int(tag)
            if source == -2 or tag == -1:
                raise Unsupported('non-blocking wildcard receive')
            p = self._post(source, tag)
            w.nreq += 1
            w.events[r].append(('post', source, tag, w.nreq))
            return RecvRequest(self, p, w.nreq,
                               'recv from %d tag %d' % (source, tag))

        def sendrecv(self, sendobj, dest=None, sendtag=0, recvbuf=None,
                     source=-2, recvtag=-1, status=None):
            q = self.isend(sendobj, dest, sendtag)
            x = self.recv(source=source, tag=recvtag)
            q.Wait()
            return x

        # -- collectives
        def _coll(self, kind, val=None, root=None):
            w, r = self._w, self._r
            k = w.coll_n[r]
            w.coll_n[r] += 1
            c = w.colls.setdefault(k, {})
            c[r] = (kind, root, _copy(val))
            w.events[r].append(('coll', kind, root, k))
            w.block(r, lambda: len(c) == w.P, 'collective %s' % kind)
            sigs = {(c[q][0], c[q][1]) for q in range(w.P)}
            if len(sigs) != 1:
                raise MPIMismatch('ranks entered different collectives: %s' % [
                    (q,) + c[q][:2] for q in range(w.P)])
            return [c[q][2] for q in range(w.P)]

        def Barrier(self):
            self._coll('barrier')

        barrier = Barrier

        def bcast(self, obj=None, root=0):
            r = self._coll('bcast', obj if self._r == root else None,
                           int(root))
            return _copy(r[root])

        def allgather(self, sendobj, recvobj=None):
            return [_copy(x) for x in self._coll('allgather', sendobj)]

        def gather(self, sendobj, recvobj=None, root=0):
            r = self._coll('gather', sendobj, int(root))
            return [_copy(x) for x in r] if self._r == root else None

        def scatter(self, sendobj, recvobj=None, root=0):
            r = self._coll('scatter', sendobj if self._r == root else None,
                           int(root))
            if len(r[root]) != self._w.P:
                raise ValueError('expecting %d items' % self._w.P)
            return _copy(r[root][self._r])

        def alltoall(self, sendobj, recvobj=None):
            r = self._coll('alltoall', sendobj)
            return [_copy(r[q][self._r]) for q in range(self._w.P)]

        def _fold(self, vals, op):
            acc = vals[0]
            for v in vals[1:]:
                acc = op(acc, v)
            return acc

        def allreduce(self, sendobj, op=MPI.SUM):
            return self._fold(self._coll('allreduce', sendobj), op)

        def reduce(self, sendobj, op=MPI.SUM, root=0):
            r = self._fold(self._coll('reduce', sendobj, int(root)), op)
            return r if self._r == root else None

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported('MPI call %s' % n)

    class Intracomm(Comm):
        pass
    MPI.Comm = Comm
    MPI.Intracomm = Intracomm
    MPI.COMM_WORLD = Intracomm()
    pkg.MPI = MPI
    return pkg, MPI


# ---------------------------------------------------------- schedule queries
def match_events(world):
    """Match the k-th receive with the k-th send of the same channel (MPI's
    non-overtaking rule).  Returns (match: (rank, idx) of the isend ->
    (rank, idx) of the recv, problems)."""
    sends, recvs = {}, {}
    for r, ev in enumerate(world.events):
        for i, e in enumerate(ev):
            if e[0] == 'isend':
                sends.setdefault((r, e[1], e[2]), []).append((r, i))
            elif e[0] in ('recv', 'post'):
                recvs.setdefault((e[1], r, e[2]), []).append((r, i))
    match = {}
    problems = []
    for k in sorted(set(sends) | set(recvs)):
        s, q = sends.get(k, []), recvs.get(k, [])
        for a, b in zip(s, q):
            match[a] = b
        if len(s) > len(q):
            problems.append('message %s from rank %d to rank %d (tag %d) is '
                            'never received' % (len(q), k[0], k[1], k[2]))
        if len(q) > len(s):
            problems.append('rank %d waits for a message from rank %d (tag '
                            '%d) that is never sent' % (k[1], k[0], k[2]))
    return match, problems


def schedule_formula(world):
    """z3 formula satisfiable iff some schedule and some buffering choice
    reaches a global state in which no rank can advance although at least one
    has not finished.

    pc[r] is the number of events rank r has completed.  A state is reachable
    iff it is closed under causality (a completed receive has its send
    completed; a completed wait of an unbuffered send has its receive
    completed; a completed collective has been entered by all ranks).  A rank
    is stuck when its next event cannot complete."""
    P = world.P
    pc = [z3.Int('pc%d' % r) for r in range(P)]
    match, problems = match_events(world)
    inv = {b: a for a, b in match.items()}
    req = {}
    for r, ev in enumerate(world.events):
        for i, e in enumerate(ev):
            if e[0] in ('isend', 'post'):
                req[e[3]] = (r, i)
    cons = []
    stuck = []
    eager = {}

    def entered(r, i):      # rank r has reached (possibly not completed) i
        return pc[r] >= i

    for r, ev in enumerate(world.events):
        cons += [pc[r] >= 0, pc[r] <= len(ev)]
        cases = [pc[r] == len(ev)]
        for i, e in enumerate(ev):
            done = pc[r] > i
            at = pc[r] == i
            if e[0] in ('isend', 'post'):
                can = z3.BoolVal(True)
            elif e[0] == 'waitr':
                a = inv.get(req[e[1]])
                can = z3.BoolVal(False) if a is None else pc[a[0]] > a[1]
            elif e[0] == 'wait':
                a = req[e[1]]
                b = match.get(a)
                v = eager.setdefault(a, z3.Bool('eager_%d_%d' % a))
                if b is None:
                    can = v
                else:
                    # the receive has been posted (its rank reached it)
                    can = z3.Or(v, entered(*b))
            elif e[0] == 'recv':
                a = inv.get((r, i))
                can = z3.BoolVal(False) if a is None else pc[a[0]] > a[1]
            else:
                ks = []
                for q in range(P):
                    if q == r:
                        continue
                    idx = [j for j, f in enumerate(world.events[q])
                           if f[0] == 'coll' and f[3] == e[3]]
                    if not idx:
                        ks.append(z3.BoolVal(False))
                    else:
                        f = world.events[q][idx[0]]
                        ks.append(entered(q, idx[0]) if f[1:3] == e[1:3]
                                  else z3.BoolVal(False))
                can = z3.And(ks) if ks else z3.BoolVal(True)
            cons.append(z3.Implies(done, can))
            cases.append(z3.And(at, z3.Not(can)))
        stuck.append(z3.Or(cases))
    unfinished = z3.Or([pc[r] < len(world.events[r]) for r in range(P)])
    return z3.And(cons + stuck + [unfinished]), pc, problems
