"""Deterministic, schedule-controlled simulation of MPI for P copies of modred.

Every rank runs the real code of /repo in its own thread and its own private copy of the
`modred` modules (so module globals and class-level caches are per rank, as in real MPI).
A controller lets exactly one rank run at a time; at every MPI call (and at every
instrumented vector get/put) the rank yields and a seeded scheduler picks the next one.
Messages are pickled at the moment of sending.  A send may be buffered ("eager") or
synchronous ("rendezvous"), chosen per message by the policy, as the MPI standard allows.

The module provides a stand-in for `mpi4py` whose COMM_WORLD refers to the rank that is
currently running.
"""
import os
import pickle
import platform
import random
import socket
import sys
import _thread
import threading
import types

ANY_SOURCE = -2
ANY_TAG = -1
UNDEFINED = -32766
PROC_NULL = -3
TAG_UB_VALUE = 1000000


class SimAbort(BaseException):
    """Raised inside rank threads to unwind them."""


class FakeMPIUnsupported(Exception):
    pass


class SimHang(Exception):
    pass


# ---------------------------------------------------------------- current rank
class _Cur(object):
    ctx = None


CUR = _Cur()


def ctx():
    return CUR.ctx


class RankCtx(object):
    def __init__(self, world, rank):
        self.world = world
        self.rank = rank
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.thread = None
        self.state = 'new'
        self.block = None          # predicate, or None when runnable
        self.why = None
        self.result = None
        self.error = None
        self.modules = None
        self.ncoll = 0
        self.prog = []             # communication program (for MpiProgram.tla)
        self.nreq = 0
        self.abort = False


# ---------------------------------------------------------------- the world
class Message(object):
    __slots__ = ('src', 'dst', 'tag', 'data', 'eager', 'matched', 'seq')


class World(object):
    """One run of a distributed program."""

    def __init__(self, nprocs, seed=0, policy='random', eager=None, log=None,
                 max_steps=400000, stall=60.0):
        self.P = nprocs
        self.rng = random.Random(seed)
        self.policy = policy
        self.eager = eager           # None: random, True/False: always/never
        self.ctxs = [RankCtx(self, r) for r in range(nprocs)]
        self.queue = []              # unmatched messages, in order of sending
        self.colls = []              # collective calls: dict(kind, root, arrived{rank:val})
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.steps = 0
        self.mods = None
        self.events = [] if log is None else log
        self.seq = 0
        self.max_steps = max_steps
        self.stall = stall
        self.problem = None
        self.last = -1
        self.record_prog = True
        self.clock = random.Random(seed * 7 + 1)

    # ---- events
    def ev(self, _kind, **kw):
        e = {'e': _kind}
        if CUR.ctx is not None:
            e['r'] = CUR.ctx.rank
        e.update(kw)
        self.events.append(e)
        return e

    # ---- scheduling (rank side)
    def yield_(self, pred=None, why=None):
        """Give up control; come back when the scheduler picks this rank again (and pred
        holds, if one is given)."""
        c = CUR.ctx
        if c.abort:
            raise SimAbort()
        c.block = pred
        c.why = why
        self._dispatch(c)
        if c.abort:
            raise SimAbort()
        c.block = None

    def _dispatch(self, me):
        """Pick the next rank and hand control to it (called by the running thread)."""
        nxt = None
        if not self.problem:
            run = self._runnable()
            if not run:
                if any(c.state not in ('done', 'aborted') for c in self.ctxs):
                    self.problem = 'deadlock'
            else:
                self.steps += 1
                if self.steps > self.max_steps:
                    self.problem = 'too-many-steps'
                else:
                    nxt = run[0] if len(run) == 1 else self._pick(run)
        if nxt is me and me is not None:
            return
        if nxt is None:
            self.main_lock.release()
        else:
            self.last = nxt.rank
            CUR.ctx = nxt
            if self.mods is not None:
                _swap(self.mods[nxt.rank])
            nxt.lock.release()
        if me is not None and me.state not in ('done', 'aborted'):
            me.lock.acquire()

    def _runnable(self):
        out = []
        for c in self.ctxs:
            if c.state == 'done':
                continue
            if c.block is None or c.block():
                out.append(c)
        return out

    def _pick(self, run):
        pol = self.policy
        if pol == 'random':
            return run[self.rng.randrange(len(run))]
        if pol == 'low':
            return min(run, key=lambda c: c.rank)
        if pol == 'high':
            return max(run, key=lambda c: c.rank)
        if pol == 'robin':
            later = [c for c in run if c.rank > self.last]
            c = min(later or run, key=lambda c: c.rank)
            return c
        if pol.startswith('fast'):       # one rank always preferred
            r = int(pol[4:]) % self.P
            for c in run:
                if c.rank == r:
                    return c
            return run[self.rng.randrange(len(run))]
        if pol.startswith('slow'):       # one rank starved
            r = int(pol[4:]) % self.P
            rest = [c for c in run if c.rank != r]
            return self.rng.choice(rest or run)
        raise ValueError(pol)

    def run(self, target, modules=None):
        """Run target(rank) on every rank.  Returns self."""
        self.mods = modules
        base = {k: v for k, v in sys.modules.items() if _is_private(k)}
        unwinding = []

        def body(c):
            c.lock.acquire()
            try:
                if c.abort:
                    raise SimAbort()
                c.result = target(c.rank)
                c.state = 'done'
            except SimAbort:
                c.state = 'aborted'
            except BaseException as ex:      # noqa
                c.error = ex
                c.state = 'done'
            if unwinding:
                self.main_lock.release()
            else:
                self._dispatch(c)

        for c in self.ctxs:
            c.thread = threading.Thread(target=body, args=(c,))
            c.thread.daemon = True
            c.thread.start()
        try:
            self._dispatch(None)
            while True:
                before = self.steps
                if self.main_lock.acquire(timeout=self.stall):
                    break
                if self.steps == before:
                    self.problem = 'hang'
                    break
            if self.problem != 'hang':
                unwinding.append(1)
                for c in self.ctxs:
                    if c.state not in ('done', 'aborted'):
                        c.abort = True
                        CUR.ctx = c
                        if modules is not None:
                            _swap(modules[c.rank])
                        c.lock.release()
                        if not self.main_lock.acquire(timeout=self.stall):
                            self.problem = 'hang'
                            break
                for c in self.ctxs:
                    if self.problem != 'hang':
                        c.thread.join(timeout=10)
        finally:
            CUR.ctx = None
            if modules is not None:
                _swap(base)
        return self

    # ---- point to point
    def _put_message(self, c, obj, dest, tag, sync=False):
        if not (0 <= dest < self.P):
            raise ValueError('invalid destination rank %r' % (dest,))
        if not isinstance(tag, int) or tag < 0 or tag > TAG_UB_VALUE:
            raise ValueError('invalid tag %r' % (tag,))
        m = Message()
        m.src, m.dst, m.tag = c.rank, dest, tag
        m.data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        m.eager = (not sync) and (self.rng.random() < 0.5 if self.eager is None else self.eager)
        m.matched = False
        self.queue.append(m)
        return m

    def send(self, obj, dest, tag=0, sync=False):
        c = CUR.ctx
        self.yield_()
        if dest == PROC_NULL:
            return
        m = self._put_message(c, obj, dest, tag, sync)
        c.prog.append(['send', dest, tag, 1 if sync else 0])
        if not m.eager:
            self.yield_(lambda: m.matched, 'send')

    def isend(self, obj, dest, tag=0, sync=False):
        c = CUR.ctx
        self.yield_()
        if dest == PROC_NULL:
            return NullRequest()
        m = self._put_message(c, obj, dest, tag, sync)
        c.nreq += 1
        c.prog.append(['isend', dest, tag, c.nreq])
        return Request(self, c, m, c.nreq)

    def _match(self, c, source, tag):
        srcs = {}
        for m in self.queue:
            if m.dst == c.rank and (source == ANY_SOURCE or m.src == source) \
                    and (tag == ANY_TAG or m.tag == tag):
                srcs.setdefault(m.src, m)       # first per source: non overtaking
        if not srcs:
            return None
        if len(srcs) == 1:
            return next(iter(srcs.values()))
        return srcs[self.rng.choice(sorted(srcs))]

    def recv(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        c = CUR.ctx
        if source == PROC_NULL:
            self.yield_()
            return None
        c.prog.append(['recv', source, tag, 0])
        self.yield_(lambda: self._match(c, source, tag) is not None, 'recv')
        m = self._match(c, source, tag)
        self.queue.remove(m)
        m.matched = True
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return pickle.loads(m.data)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        c = CUR.ctx
        self.yield_()
        m = self._match(c, source, tag)
        if m is not None and status is not None:
            status.source, status.tag = m.src, m.tag
        return m is not None

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        c = CUR.ctx
        self.yield_(lambda: self._match(c, source, tag) is not None, 'probe')
        m = self._match(c, source, tag)
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True

    # ---- collectives
    def coll(self, kind, val, root=-1, wait='all'):
        """wait: 'all' (synchronising), 'root' (only non-roots wait for the root),
        'gather' (only the root waits for the others)."""
        c = CUR.ctx
        self.yield_()
        k = c.ncoll
        c.ncoll += 1
        c.prog.append([kind, root, k, 0])
        if k == len(self.colls):
            self.colls.append({'kind': kind, 'root': root, 'arr': {}, 'sync': self.rng.random() < 0.5})
        rec = self.colls[k]
        if rec['kind'] != kind or rec['root'] != root:
            self.problem = 'collective-mismatch'
            self.ev('mismatch', a=rec['kind'], b=kind)
            raise SimAbort()
        rec['arr'][c.rank] = pickle.dumps(val, protocol=pickle.HIGHEST_PROTOCOL)
        full = lambda: len(rec['arr']) == self.P
        if wait == 'all' or rec['sync']:
            self.yield_(full, kind)
        elif wait == 'root' and c.rank != root:
            self.yield_(lambda: root in rec['arr'], kind)
        elif wait == 'gather' and c.rank == root:
            self.yield_(full, kind)
        return rec

    def vals(self, rec):
        return [pickle.loads(rec['arr'][r]) for r in range(self.P)]


class Request(object):
    def __init__(self, world, c, msg, rid):
        self.w, self.c, self.m, self.rid = world, c, msg, rid

    def Wait(self, status=None):
        self.w.ctxs[self.c.rank].prog.append(['wait', self.m.dst, self.m.tag, self.rid])
        m = self.m
        self.w.yield_((lambda: m.matched or m.eager), 'wait')
        return True

    def wait(self, status=None):
        self.Wait()
        return None

    def Test(self, status=None):
        self.w.yield_()
        return bool(self.m.matched or self.m.eager)

    def test(self, status=None):
        return (self.Test(), None)

    def Free(self):
        pass

    def Cancel(self):
        raise FakeMPIUnsupported('Cancel')

    @staticmethod
    def Waitall(requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]


class NullRequest(object):
    def Wait(self, status=None):
        return True

    def wait(self, status=None):
        return None

    def Test(self, status=None):
        return True

    def test(self, status=None):
        return (True, None)


class RecvRequest(object):
    def __init__(self, world, source, tag):
        self.w, self.source, self.tag = world, source, tag
        self.done = False
        self.val = None

    def wait(self, status=None):
        if not self.done:
            self.val = self.w.recv(self.source, self.tag, status)
            self.done = True
        return self.val

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        if self.done or self.w.iprobe(self.source, self.tag):
            return True, self.wait(status)
        return False, None


class Status(object):
    source = -1
    tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Op(object):
    def __init__(self, name, fn, commute=True):
        self.name, self.fn = name, fn
        self.is_commutative = commute

    def __call__(self, a, b):
        return self.fn(a, b)

    @classmethod
    def Create(cls, function, commute=False):
        return cls('user', function, commute)

    def Is_commutative(self):
        return self.is_commutative

    def __repr__(self):
        return '<op %s>' % self.name


def _maxloc(x, y):
    (u, i), (v, j) = x, y
    w = max(u, v)
    k = None
    if u == v:
        k = min(i, j)
    elif u < v:
        k = j
    else:
        k = i
    return (w, k)


def _minloc(x, y):
    (u, i), (v, j) = x, y
    w = min(u, v)
    if u == v:
        k = min(i, j)
    elif u < v:
        k = i
    else:
        k = j
    return (w, k)


OPS = {
    'SUM': Op('SUM', lambda a, b: a + b), 'PROD': Op('PROD', lambda a, b: a * b),
    'MAX': Op('MAX', lambda a, b: b if b > a else a), 'MIN': Op('MIN', lambda a, b: b if b < a else a),
    'LAND': Op('LAND', lambda a, b: bool(a) & bool(b)), 'LOR': Op('LOR', lambda a, b: bool(a) | bool(b)),
    'LXOR': Op('LXOR', lambda a, b: bool(a) ^ bool(b)),
    'BAND': Op('BAND', lambda a, b: a & b), 'BOR': Op('BOR', lambda a, b: a | b),
    'BXOR': Op('BXOR', lambda a, b: a ^ b),
    'MAXLOC': Op('MAXLOC', _maxloc), 'MINLOC': Op('MINLOC', _minloc),
}


def _serial():
    """Standalone context used when no simulation is running (1 worker)."""
    return None


class Comm(object):
    def __new__(cls, comm=None):
        return object.__new__(cls)

    def __init__(self, comm=None):
        pass

    # -- identity
    def Get_rank(self):
        return LAYOUT.rank()

    def Get_size(self):
        return LAYOUT.size()

    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())

    def Get_attr(self, key):
        if key == MPI.TAG_UB:
            return TAG_UB_VALUE
        return None

    def Get_name(self):
        return 'MPI_COMM_WORLD'

    def __eq__(self, other):
        return isinstance(other, Comm)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def Dup(self, info=None):
        raise FakeMPIUnsupported('Dup')

    Split = Dup

    def Abort(self, errorcode=0):
        raise RuntimeError('MPI Abort')

    # -- point to point
    def _w(self):
        return CUR.ctx.world

    def send(self, obj, dest, tag=0):
        return self._w().send(obj, dest, tag)

    def ssend(self, obj, dest, tag=0):
        return self._w().send(obj, dest, tag, sync=True)

    bsend = send

    def isend(self, obj, dest, tag=0):
        return self._w().isend(obj, dest, tag)

    ibsend = isend

    def issend(self, obj, dest, tag=0):
        return self._w().isend(obj, dest, tag, sync=True)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._w().recv(source, tag, status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return RecvRequest(self._w(), source, tag)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self._w().isend(sendobj, dest, sendtag)
        out = self._w().recv(source, recvtag, status)
        r.Wait()
        return out

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._w().probe(source, tag, status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._w().iprobe(source, tag, status)

    def Send(self, buf, dest, tag=0):
        import numpy as np
        return self._w().send(np.array(_buf(buf)), dest, tag)

    def Isend(self, buf, dest, tag=0):
        import numpy as np
        return self._w().isend(np.array(_buf(buf)), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        b = _buf(buf)
        b[...] = self._w().recv(source, tag, status).reshape(b.shape)

    def Ssend(self, buf, dest, tag=0):
        import numpy as np
        return self._w().send(np.array(_buf(buf)), dest, tag, sync=True)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        r.Wait()

    # -- collectives
    def Barrier(self):
        if CUR.ctx is None:
            return
        self._w().coll('barrier', None)

    barrier = Barrier

    def bcast(self, obj, root=0):
        if CUR.ctx is None:
            return LAYOUT.import_allgather(obj)[root]
        w = self._w()
        rec = w.coll('bcast', obj if CUR.ctx.rank == root else None, root, 'root')
        if CUR.ctx.rank == root:
            return obj
        return pickle.loads(rec['arr'][root])

    def Bcast(self, buf, root=0):
        b = _buf(buf)
        out = self.bcast(b.copy(), root)
        b[...] = out

    def gather(self, sendobj, root=0):
        if CUR.ctx is None:
            all_ = LAYOUT.import_allgather(sendobj)
            return all_ if LAYOUT.imp_rank == root else None
        w = self._w()
        rec = w.coll('gather', sendobj, root, 'gather')
        return w.vals(rec) if CUR.ctx.rank == root else None

    def scatter(self, sendobj, root=0):
        w = self._w()
        rec = w.coll('scatter', sendobj if CUR.ctx.rank == root else None, root, 'root')
        return pickle.loads(rec['arr'][root])[CUR.ctx.rank]

    def allgather(self, sendobj):
        if CUR.ctx is None:
            return LAYOUT.import_allgather(sendobj)
        w = self._w()
        return w.vals(w.coll('allgather', sendobj))

    def alltoall(self, sendobj):
        w = self._w()
        v = w.vals(w.coll('alltoall', sendobj))
        return [v[r][CUR.ctx.rank] for r in range(w.P)]

    def _fold(self, vals, op):
        op = OPS['SUM'] if op is None else op
        if op in (OPS['MAXLOC'], OPS['MINLOC']) and False:
            vals = [(v, i) for i, v in enumerate(vals)]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj, op=None, root=0):
        w = self._w()
        rec = w.coll('reduce', sendobj, root, 'gather')
        return self._fold(w.vals(rec), op) if CUR.ctx.rank == root else None

    def allreduce(self, sendobj, op=None):
        if CUR.ctx is None:
            return self._fold(LAYOUT.import_allgather(sendobj), op)
        w = self._w()
        return self._fold(w.vals(w.coll('allreduce', sendobj)), op)

    def scan(self, sendobj, op=None):
        w = self._w()
        r = CUR.ctx.rank
        return self._fold(w.vals(w.coll('scan', sendobj))[:r + 1], op)

    def exscan(self, sendobj, op=None):
        w = self._w()
        r = CUR.ctx.rank
        v = w.vals(w.coll('exscan', sendobj))[:r]
        return self._fold(v, op) if v else None

    def Allreduce(self, sendbuf, recvbuf, op=None):
        b = _buf(recvbuf)
        src = b if sendbuf is MPI.IN_PLACE else _buf(sendbuf)
        b[...] = self.allreduce(src.copy(), op)

    def Gather(self, sendbuf, recvbuf, root=0):
        out = self.gather(_buf(sendbuf).copy(), root)
        if out is not None:
            b = _buf(recvbuf)
            for r, v in enumerate(out):
                b.reshape((len(out), -1))[r] = v.ravel()

    def Allgather(self, sendbuf, recvbuf):
        b = _buf(recvbuf)
        out = self.allgather(_buf(sendbuf).copy())
        for r, v in enumerate(out):
            b.reshape((len(out), -1))[r] = v.ravel()

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        out = self.reduce(_buf(sendbuf).copy(), op, root)
        if CUR.ctx.rank == root:
            _buf(recvbuf)[...] = out


def _buf(b):
    if isinstance(b, (list, tuple)):
        return b[0]
    return b


class Intracomm(Comm):
    pass


# ---------------------------------------------------------------- layout of the import
class Layout(object):
    """What COMM_WORLD reports; during a run it is the running rank's."""
    imp_rank = 0
    imp_size = 1
    imp_record = None     # list of values contributed by this rank, in order
    imp_table = None      # per rank lists of values

    def rank(self):
        return CUR.ctx.rank if CUR.ctx is not None else self.imp_rank

    def size(self):
        return CUR.ctx.world.P if CUR.ctx is not None else self.imp_size

    def import_allgather(self, obj):
        k = len(self.imp_record) if self.imp_record is not None else 0
        if self.imp_record is not None:
            self.imp_record.append(obj)
        if self.imp_table is None:
            return [obj] * self.imp_size
        return [self.imp_table[r][k] if k < len(self.imp_table[r]) else obj
                for r in range(self.imp_size)]


LAYOUT = Layout()


def _make_mpi():
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    m = types.ModuleType('mpi4py.MPI')
    m.Comm = Comm
    m.Intracomm = Intracomm
    m.Request = Request
    m.Status = Status
    m.Op = Op
    m.ANY_SOURCE, m.ANY_TAG, m.UNDEFINED = ANY_SOURCE, ANY_TAG, UNDEFINED
    m.TAG_UB = 'TAG_UB'
    m.PROC_NULL = PROC_NULL
    m.IN_PLACE = object()
    m.Exception = type('Exception', (RuntimeError,), {})
    for k, v in OPS.items():
        setattr(m, k, v)
    m.COMM_WORLD = Intracomm()
    m.COMM_SELF = None
    m.Wtime = lambda: 0.0
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Get_processor_name = socket.gethostname
    pkg.MPI = m
    return pkg, m


MPI4PY, MPI = _make_mpi()


def _is_private(name):
    return name == 'modred' or name.startswith('modred.')


_installed = [None]


def _swap(mods):
    if _installed[0] is mods:
        return
    if _installed[0] is None or _installed[0].keys() != mods.keys():
        for k in [k for k in sys.modules if _is_private(k)]:
            del sys.modules[k]
    sys.modules.update(mods)
    _installed[0] = mods


_cache = {}
REPO = os.environ.get('MRV_REPO', '/repo')


class SimClock(object):
    """time() as modred sees it: per rank, it jumps ahead by seeded random amounts during a
    simulation (ranks need not agree on the time), and is the real clock otherwise."""
    def __call__(self):
        c = CUR.ctx
        if c is None or c.world.clock is None:
            return _real_time()
        r = c.world.clock
        c.now = getattr(c, 'now', 1e9) + (r.random() * 30 if r.random() < 0.15 else r.random() * 1e-3)
        return c.now


import time as _time      # noqa: E402
_real_time = _time.time
_clock = SimClock()


def _import_once(rank, size, host, table):
    for k in [k for k in sys.modules if _is_private(k)]:
        del sys.modules[k]
    _installed[0] = None
    LAYOUT.imp_rank, LAYOUT.imp_size = rank, size
    LAYOUT.imp_record, LAYOUT.imp_table = [], table
    real, real_node = socket.gethostname, platform.node
    socket.gethostname = platform.node = MPI.Get_processor_name = lambda: host
    _time.time = _clock
    try:
        import modred       # noqa
        import modred.parallel, modred.util, modred.vectorspace, modred.vectors   # noqa
        import modred.pod, modred.bpod, modred.dmd, modred.era, modred.okid       # noqa
        import modred.ltigalerkinproj, modred.py2to3           # noqa
        if sys.modules['mpi4py'] is not None:
            import modred.reductions           # noqa
    finally:
        socket.gethostname, platform.node, MPI.Get_processor_name = real, real_node, real
        _time.time = _real_time
    mods = {k: v for k, v in sys.modules.items() if _is_private(k)}
    rec = LAYOUT.imp_record
    LAYOUT.imp_record = LAYOUT.imp_table = None
    return mods, rec


def hosts_for(size, nodes):
    """Node of each rank: block distribution over `nodes` nodes."""
    return ['node%d' % (r * nodes // size) for r in range(size)]


def load(size, nodes=1, hosts=None):
    """Private module sets for every rank of a (size, nodes) layout; nodes = 0: one process without mpi4py."""
    hosts = hosts or hosts_for(size, nodes)
    key = (size, nodes == 0, tuple(hosts))
    if nodes == 0 and size != 1:
        raise ValueError('more than one process without MPI')
    if key in _cache:
        return _cache[key]
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # an entry of None makes the import fail
    sys.modules['mpi4py'] = MPI4PY if nodes else None
    sys.modules['mpi4py.MPI'] = MPI if nodes else None
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = []
        table = []
        for r in range(size):
            mods, rec = _import_once(r, size, hosts[r], None)
            table.append(rec)
            out.append(mods)
        # Import again until what the ranks exchange while importing no longer changes
        for _ in range(4):
            if size == 1 or not any(table):
                break
            old, table, out = table, [], []
            for r in range(size):
                mods, rec = _import_once(r, size, hosts[r], old)
                table.append(rec)
                out.append(mods)
            if pickle.dumps(table) == pickle.dumps(old):
                break
    _swap(out[0])
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = MPI4PY, MPI
    LAYOUT.imp_rank, LAYOUT.imp_size = 0, 1
    _cache[key] = out
    return out
