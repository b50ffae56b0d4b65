"""User-side vectors, handles and observation for the distributed vector space (C02-C07)."""
from mrv import mpisim as S
from mrv.core import Hang

NOTNUM = 1999999999      # stands for "not a multiple of the unit" in traces


def unit(x, u):
    """x as an integer multiple of 1/u, NOTNUM when it is not one."""
    try:
        y = float(x) * u
    except Exception:
        return NOTNUM
    if y != y or abs(y) > 1e9:
        return NOTNUM
    n = int(round(y))
    return n if abs(y - n) <= 1e-9 * max(1., abs(n)) else NOTNUM


def pair(x, u):
    """A complex number as a pair of integers, in units of 1/u."""
    try:
        return [unit(x.real, u), unit(x.imag, u)]
    except Exception:
        return [NOTNUM, NOTNUM]


def matrix(a, u):
    import numpy as np
    a = np.asarray(a)
    if a.ndim != 2:
        return [[[NOTNUM, a.ndim]]]
    return [[pair(x, u) for x in row] for row in a.tolist()] if a.dtype != object else [[[NOTNUM, 0]]]


class V(object):
    """A user vector: components are Python numbers of one numeric type.  Instances are
    counted per worker while they are alive.  `h` is the stored vector it was read from (C32)."""
    __slots__ = ('x', 'own', 'h')

    def __init__(self, x, h=0):
        self.x = tuple(x)
        self.h = h
        self.own = S.CUR.ctx
        if self.own is not None:
            c = self.own
            c.live = getattr(c, 'live', 0) + 1
            if c.live > getattr(c, 'peak', 0):
                c.peak = c.live

    def __del__(self):
        try:
            if self.own is not None:
                self.own.live -= 1
        except AttributeError:
            pass

    def __reduce__(self):
        return (V, (self.x, self.h))

    def __deepcopy__(self, memo):
        return V(self.x, self.h)

    __copy__ = lambda self: V(self.x, self.h)

    def __add__(self, o):
        tally('adds')
        return V(tuple(a + b for a, b in zip(self.x, o.x)))

    def __sub__(self, o):
        return V(tuple(a - b for a, b in zip(self.x, o.x)))

    def __mul__(self, s):
        tally('scales')
        return V(tuple(a * s for a in self.x))

    __rmul__ = __mul__

    def __neg__(self):
        return V(tuple(-a for a in self.x))


def tally(what):
    """One more operation of the worker that runs."""
    c = S.CUR.ctx
    if c is not None:
        if getattr(c, 'work', None) is None:
            c.work = {}
        c.work[what] = c.work.get(what, 0) + 1


def ip(a, b):
    """The user's inner product: numeric type follows the operands."""
    tally((a.h, b.h))
    t = 0
    for p, q in zip(a.x, b.x):
        t = t + (p.conjugate() * q)
    return t


def wip(W):
    """The inner product with weights (JSON array of [re, im])."""
    w = [[complex(*z) if z[1] else z[0] for z in r] for r in W]

    def f(a, b):
        t = 0
        for i, p in enumerate(a.x):
            for j, q in enumerate(b.x):
                if w[i][j]:
                    t = t + p.conjugate() * w[i][j] * q
        return t
    return f


class H(object):
    """A user vector handle on a store shared by all workers (a file system)."""
    def __init__(self, world, hid):
        self.w, self.h = world, hid

    def get(self):
        w = self.w
        w.yield_()
        w.ev('get', h=self.h)
        if self.h not in w.store:
            raise IOError('no such vector: %s' % self.h)
        tally('reads')
        return V(w.store[self.h], self.h)

    def put(self, v):
        w = self.w
        w.yield_()
        x = v.x if isinstance(v, V) else None
        w.ev('put', h=self.h, v=[pair(a, 4 * w.unit) for a in x] if x is not None else [])
        S.CUR.ctx.prog.append(['put', 0, self.h, 0])
        w.store[self.h] = x

    # two handle objects for one stored vector are the same handle
    def __eq__(self, o):
        return isinstance(o, H) and o.h == self.h

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.h)


def world(case, **kw):
    w = S.World(case['P'], seed=case.get('sched', 0), policy=case.get('policy', 'random'),
                eager=case.get('eager'), stall=30.0, **kw)
    w.store = {}
    w.unit = 1
    return w


def finish(w):
    """What is left at the end of a run, for the trace."""
    for c in w.ctxs:
        if c.error is not None:
            w.events.append({'e': 'error', 'r': c.rank, 'what': type(c.error).__name__,
                             'msg': str(c.error)[:160]})
    if w.problem == 'hang':
        raise Hang('a worker stopped making progress without a message call')
    w.events.append({'e': 'end', 'problem': w.problem or 'none', 'leftover': len(w.queue),
                     'waiting': sum(1 for c in w.ctxs if c.state == 'aborted')})


def programs(w):
    return [list(c.prog) for c in w.ctxs]


def mpi_record(progs, outs):
    """One program for Mpi.tla.  outs: per call, the list of output handles (names used in the
    "put"/"save" steps)."""
    P = len(progs)
    steps, colls = [], []
    where = {}
    names = {}
    for r, prog in enumerate(progs):
        req, out, cl = {}, [], []
        for i, (op, a, b, c) in enumerate(prog):
            if op == 'isend':
                req[c] = i + 1
            if op == 'wait':
                c = req.get(c, 0)
            if op in ('put', 'save'):
                where.setdefault(b, [r, i + 1])
                b = names.setdefault(b, len(names))
            elif op not in ('send', 'isend', 'wait', 'recv', 'ret'):
                cl.append(i + 1)
            out.append([op, a, b, c])
        steps.append(out)
        colls.append(cl)
    return {'P': P, 'prog': steps, 'colls': colls,
            'outs': [[where.get(h, [0, 0]) for h in o] for o in outs]}
