"""C28  Computations leave their inputs untouched, and earlier results stay as they were."""
import hashlib
import os
import random
import shutil
import tempfile
import numpy as np
from mrv import data as D
from mrv import hl
from mrv import lti
from mrv import mpisim as S
from mrv import scen
from mrv import vs


def feed(h, x, depth=0):
    if isinstance(x, np.ndarray):
        h.update(('a%s%s' % (x.dtype, x.shape)).encode())
        if x.dtype == object:
            for y in x.ravel().tolist():
                feed(h, y, depth + 1)
        else:
            h.update(x.tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(('%s%d' % (type(x).__name__, len(x))).encode())
        for y in x:
            feed(h, y, depth + 1)
    elif isinstance(x, dict):
        for k in sorted(x):
            h.update(str(k).encode())
            feed(h, x[k], depth + 1)
    elif x is None or isinstance(x, (int, float, complex, str, np.generic)):
        h.update(repr(x).encode())
    elif hasattr(x, '__dict__') and depth < 6 and not callable(x):
        h.update(type(x).__name__.encode())
        feed(h, vars(x), depth + 1)


def digest(x):
    h = hashlib.sha1()
    feed(h, x)
    return h.hexdigest()[:10]


class Recorder(object):
    def __init__(self, emit, mods, rng, path, P):
        self.P = P
        self.emit, self.m, self.rng, self.path = emit, mods, rng, path
        self.names = []           # (name, object)
        self.k = 0
        self.saved = {}

    def add(self, x, pre='a'):
        for n, y in self.names:
            if y is x:
                return n
        n = '%s%d' % (pre, len(self.names))
        self.names.append((n, x))
        return n

    def vals(self):
        return [[n, digest(x)] for n, x in self.names]

    def call(self, what, f, *args, **kw):
        """Calls f with the arguments.  outs: arguments which may change."""
        outs = kw.pop('outs', [])
        self.k += 1
        for a in list(args) + list(kw.values()):
            self.add(a)
            if isinstance(a, list):
                for b in a:
                    if not isinstance(b, (int, float, complex)):
                        self.add(b)
        outn = []
        for o in outs:
            outn.append(self.add(o))
            if isinstance(o, list):
                outn += [self.add(b) for b in o]
        self.emit('make', args=[], vals=self.vals(), err='')
        argn = [self.add(a) for a in list(args) + list(kw.values())]
        for a in list(args) + list(kw.values()):
            if isinstance(a, list):
                argn += [self.add(b) for b in a if not isinstance(b, (int, float, complex))]
        err, r = '', None
        try:
            r = f(*args, **kw)
        except S.SimAbort:
            raise
        except Exception as ex:
            err = '%s: %s' % (type(ex).__name__, str(ex)[:100])
        if r is not None:
            self.add(r, 'r')
            if isinstance(r, (tuple, list)):
                for y in r:
                    if isinstance(y, np.ndarray):
                        self.add(y, 'r')
        self.emit('call', fn=what, args=[a for a in argn if a not in outn], outs=outn, vals=self.vals(), err=err)
        return r

    def members(self, o):
        """The arrays an object holds for its user."""
        for k in sorted(vars(o)):
            if not k.startswith('_') and isinstance(vars(o)[k], np.ndarray):
                self.add(vars(o)[k], 'm')
        self.emit('make', args=[], vals=self.vals(), err='')

    # ---- arguments
    def arr(self, a):
        f = self.rng.choice('CCFSTI')
        if f == 'F':
            return np.asfortranarray(a)
        if f == 'T':
            return np.ascontiguousarray(a.T).T
        if f == 'S':
            b = np.full(tuple(2 * x for x in a.shape), 7, dtype=a.dtype)
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if f == 'I' and not np.iscomplexobj(a) and np.all(a == np.round(a)):
            return a.astype(int)
        return np.array(a)

    def well(self, n, m, cplx=None):
        rng = self.rng
        return self.arr(D.well(rng, n, m, 3, rng.random() < .4 if cplx is None else cplx, limit=30., gap=.05))

    def weights(self, n):
        k = self.rng.randrange(3)
        if k == 0:
            return None
        if k == 1:
            return np.array([self.rng.choice([.5, 1., 2., 3.]) for _ in range(n)])
        a = np.diag([self.rng.choice([2., 3., 4.]) for _ in range(n)])
        for i in range(n - 1):
            a[i, i + 1] = a[i + 1, i] = .5
        return self.arr(a)

    def indices(self, m):
        return [self.rng.randrange(m) for _ in range(self.rng.randint(1, m))]


# ---------------------------------------------------------------- groups of calls
def g_util(R):
    rng, u = R.rng, R.m['modred.util']
    n = rng.randint(2, 4)
    A = R.well(n, rng.randint(2, 4))
    Q = R.well(n, n)
    sym = R.arr(np.array(Q) + np.array(Q).conj().T)
    E = R.arr(np.array(D.linmap(rng, n, rng.random() < .3)[0]))
    col = R.arr(np.arange(1., 2. + n))
    chunks = [R.arr(D.rint(rng, 2, 2)) for _ in range(3)]
    chunks2 = [chunks[-1]] + [R.arr(D.rint(rng, 2, 2)) for _ in range(rng.randint(0, 2))]
    s = lti.system(rng, n, 2, 2, rng.random() < .3)
    sA, sB, sC = (R.arr(lti.carr(s[k])) for k in 'ABC')
    sA = sA * .125
    ins = R.arr(D.rint(rng, 5, 2))
    x0 = R.arr(np.array([1.] * n))
    f = os.path.join(R.path, 'a%d.%d' % (R.k, rng.randrange(10 ** 6)))
    for _ in range(rng.randint(3, 8)):
        k = rng.randrange(17)
        if k == 0:
            R.call('svd', u.svd, A, atol=1e-10)
        elif k == 1:
            R.call('eigh', u.eigh, sym, is_positive_definite=False)
        elif k == 2:
            R.call('eig_biorthog', u.eig_biorthog, E, scale_choice=rng.choice(['left', 'right']))
        elif k == 3:
            R.call('atleast_2d_row', u.atleast_2d_row, col)
        elif k == 4:
            R.call('atleast_2d_col', u.atleast_2d_col, col)
        elif k == 5:
            R.call('save_array_text', u.save_array_text, rng.choice([A, Q, col, sym]), f)
        elif k == 6:
            R.call('balanced_truncation', u.balanced_truncation, sA, sB, sC, order=rng.choice([None, 1]))
        elif k == 7:
            R.call('lsim', u.lsim, sA, sB, sC, ins, initial_condition=rng.choice([None, x0]))
        elif k == 8:
            R.call('impulse', u.impulse, sA, sB, sC, num_time_steps=3)
        elif k == 9:
            R.call('Hankel', u.Hankel, col, rng.choice([None, col]))
        elif k == 10:
            R.call('Hankel_chunks', u.Hankel_chunks, chunks, rng.choice([None, chunks2]))
        elif k == 11:
            R.call('sum_lists', u.sum_lists, [1, 2], [3., 4.])
            R.call('sum_lists', u.sum_lists, chunks, chunks)
        elif k == 12:
            R.call('flatten_list', u.flatten_list, [chunks, chunks2])
        elif k == 13:
            R.call('sum_arrays', u.sum_arrays, sym, Q)
        elif k == 14:
            R.call('smart_eq', u.smart_eq, A, Q)
        elif k == 15:
            R.call('make_iterable', u.make_iterable, rng.choice([chunks, 3]))
        else:
            g = R.m['modred.okid'].OKID
            uu = R.arr(D.rint(rng, 1, 9) + np.eye(1, 9) * 5)
            R.call('OKID', g, uu, R.arr(D.rint(rng, 1, 9)), 2)


def g_arrays(R):
    rng = R.rng
    n, m = rng.randint(3, 5), rng.randint(2, 3)
    X = R.well(n, m)
    Y = R.well(n, m)
    W = R.weights(n)
    V = R.m['modred.vectorspace'].VectorSpaceArrays
    pod, bpod, dmd, lg = (R.m['modred.' + k] for k in ('pod', 'bpod', 'dmd', 'ltigalerkinproj'))
    if rng.random() < .3:
        X = [list(r) for r in np.array(X).tolist()] if rng.random() < .3 else X
    Xa = np.array(X)
    for _ in range(rng.randint(2, 6)):
        k = rng.randrange(11)
        kw = dict(inner_product_weights=W)
        if rng.random() < .5:
            kw['mode_indices'] = [0]
        if k == 0:
            R.call('POD snaps', pod.compute_POD_arrays_snaps_method, X, **kw)
        elif k == 1:
            R.call('POD direct', pod.compute_POD_arrays_direct_method, X, **kw)
        elif k == 2:
            kw = dict(inner_product_weights=W, direct_mode_indices=[0], adjoint_mode_indices=rng.choice([None, [0]]))
            R.call('BPOD', bpod.compute_BPOD_arrays, X, Y, **kw)
        elif k in (3, 4, 5, 6):
            f = [dmd.compute_DMD_arrays_snaps_method, dmd.compute_DMD_arrays_direct_method,
                 dmd.compute_TLSqrDMD_arrays_snaps_method, dmd.compute_TLSqrDMD_arrays_direct_method][k - 3]
            adv = Y if rng.random() < .6 else None
            if adv is not None:
                adv = R.arr(np.diag(np.arange(1., n + 1)).dot(Xa))
            R.call(f.__name__, f, X, adv_vecs=adv, inner_product_weights=W,
                   max_num_eigvals=None if rng.random() < .7 else 1)
        elif k == 7:
            s = V(weights=W)
            R.call('ip', s.compute_inner_product_array, Xa, Y)
            R.call('symm', s.compute_symm_inner_product_array, Xa)
        elif k == 8:
            R.call('comb', V().lin_combine, Xa, R.well(m, m), coeff_array_col_indices=rng.choice([None, [0]]))
        elif k == 9:
            R.call('derivs', lg.compute_derivs_arrays, Xa, Y, .5)
        else:
            B = R.well(n, 2)
            o = lg.LTIGalerkinProjectionArrays(B, adjoint_basis_vecs=rng.choice([None, B]), inner_product_weights=W,
                                               is_basis_orthonormal=rng.random() < .5)
            R.add(B)
            cp = rng.random() < .4
            for _ in range(rng.randint(1, 3)):
                AB, Bs, C = R.arr(D.rint(rng, n, 2, cplx=cp)), R.arr(D.rint(rng, n, 1, cplx=cp)), R.arr(D.rint(rng, 1, 2))
                R.call('reduce_A', o.reduce_A, AB)
                R.call('reduce_B', o.reduce_B, Bs)
                R.call('reduce_C', o.reduce_C, C)
                R.call('compute_model', o.compute_model, AB, Bs, C)
                R.members(o)
    t = R.m['modred.vectors'].InnerProductTrapz
    g = R.arr(np.cumsum([1., 2., .5]))
    R.add(g)
    R.call('trapz', t(g), R.arr(np.array([1., 2., 3.])), R.arr(np.array([1., 0., 2.])))


def g_era(R):
    rng, era = R.rng, R.m['modred.era']
    s = lti.system(rng, 2, rng.randint(1, 2), rng.randint(1, 2), rng.random() < .3)
    A, B, C = (lti.carr(s[k]) for k in 'ABC')

    def response():
        M = [np.array(C.dot(np.linalg.matrix_power(A * .25, k)).dot(B)) for k in range(10)]
        return R.arr(np.array(M) * rng.choice([1, 2, 3]) + .01 * np.array([[[rng.random() for _ in r] for r in x] for x in M]))
    M = response()
    t = R.arr(np.arange(10) * .5 + rng.choice([0., 2., -1.5]))

    def put(a, d):
        R.saved[d] = a
        R.add(a, 's')
    o = era.ERA(put_array=put, verbosity=0)
    R.call('ERA', o.compute_model, M, 1)
    for _ in range(rng.randint(2, 5)):
        k = rng.randrange(4)
        M = rng.choice([M, response()])
        if k == 0:
            R.call('make_sampled_format', era.make_sampled_format, t, M)
        elif k == 1:
            R.call('compute_ERA_model', era.compute_ERA_model, M, rng.randint(1, 2))
        elif k == 2:
            R.call('ERA', o.compute_model, M, rng.randint(1, 2), **rng.choice([{}, {'mc': 2, 'mo': 1}]))
            R.members(o)
        elif getattr(o, 'A', None) is not None:
            R.call('put_model', o.put_model, 'A', 'B', 'C')
            R.call('put_decomp', o.put_decomp, 's', 'L', 'R', 'H', 'H2')


def hs(R, X, scale=None, base=None):
    V = R.m['modred.vectors']
    return [V.VecHandleInMemory(np.array(x), scale=scale, base_vec_handle=base) for x in np.asarray(X).T]


def g_handles(R):
    rng = R.rng
    V, sp = R.m['modred.vectors'], R.m['modred.vectorspace']
    cls = rng.choice(['POD', 'BPOD', 'DMD', 'TLSqrDMD', 'space', 'galerkin'])
    cplx = rng.random() < .4
    n, m = rng.randint(4, 5), rng.randint(3, 4)
    X = D.well(rng, n, m, 3, cplx, limit=30., gap=.05)
    Y = np.diag(np.arange(1., n + 1)).dot(X)
    base = V.VecHandleInMemory(np.ones(n)) if rng.random() < .3 else None
    scale = rng.choice([None, None, .5, 2.])
    vec, adv = hs(R, X, scale, base), hs(R, Y, scale, base)
    if rng.random() < .3:                       # the same vector object in two handles
        adv[0].vec = vec[0].vec
    # more data of the same size, for the same objects
    sets = [(vec, adv)]
    X2 = D.well(rng, n, m, 3, cplx, limit=30., gap=.05)
    sets.append((hs(R, X2, scale, base), hs(R, np.diag(np.arange(1., n + 1)).dot(X2), scale, base)))
    R.add(sets[1][0]), R.add(sets[1][1])
    W = np.array([1.] * n)
    ip = (lambda a, b: np.vdot(a, b)) if rng.random() < .5 else (lambda a, b: np.dot(a.conj() * W, b))
    kw = dict(verbosity=0, max_vecs_per_node=rng.choice([100, 100, 3]))
    R.add(vec), R.add(adv)

    def put(a, d):
        R.saved[d] = a
        R.add(a, 's')

    def get(d):
        a = R.saved[d]
        return a if a.ndim != 1 else a

    def out(k):
        return [V.VecHandleInMemory() for _ in range(k)]
    if cls == 'space':
        o = sp.VectorSpaceHandles(ip, **kw)
        for _ in range(rng.randint(2, 5)):
            k = rng.randrange(5)
            vec, adv = rng.choice(sets)
            if k == 0:
                R.call('ip', o.compute_inner_product_array, vec, adv)
            elif k == 1:
                R.call('symm', o.compute_symm_inner_product_array, vec)
            elif k == 2:
                co = R.arr(D.rint(rng, m, 3))
                ind = rng.choice([None, [0, 2, 0]])
                h = out(3)
                R.call('lin_combine', o.lin_combine, h, vec, co, coeff_array_col_indices=ind, outs=[h])
                if rng.random() < .5 and R.P == 1:         # one worker has all outputs in memory
                    h2 = out(1)
                    R.call('lin_combine', o.lin_combine, h2, h, R.arr(D.rint(rng, 3, 1)), outs=[h2])
            elif k == 3:
                R.call('sanity_check', o.sanity_check, vec[0])
            else:
                h = out(m)
                R.call('derivs', R.m['modred.ltigalerkinproj'].compute_derivs_handles, vec, adv, h, .5, outs=[h])
        return
    if cls == 'galerkin':
        lg = R.m['modred.ltigalerkinproj']
        b, ab = vec[:2], adv[:2]
        o = lg.LTIGalerkinProjectionHandles(ip, b, adjoint_basis_vec_handles=rng.choice([None, ab]),
                                            is_basis_orthonormal=rng.random() < .5, put_array=put, **kw)
        for _ in range(rng.randint(1, 3)):
            C = [np.array([1., 2.]), np.array([0., 1. + rng.randrange(3)])]
            ab, bb = rng.choice([adv[:2], vec[1:3], adv[1:3]]), rng.choice([vec, adv, vec[1:]])[:1]
            R.call('reduce_A', o.reduce_A, ab)
            R.call('reduce_B', o.reduce_B, bb)
            R.call('reduce_C', o.reduce_C, C)
            R.call('compute_model', o.compute_model, ab, bb, C)
            R.members(o)
        R.call('put_model', o.put_model, 'A', 'B', 'C')
        return
    K = hl.CLASSES[cls]
    o = getattr(R.m[K['mod']], K['cls'])(ip, put_array=put, get_array=get, **kw)
    for _ in range(rng.randint(1, 3)):
        vec, adv = rng.choice(sets)
        if cls == 'POD':
            R.call('decomp', o.compute_decomp, vec)
        elif cls == 'BPOD':
            R.call('decomp', o.compute_decomp, vec, adv)
        elif rng.random() < .5:
            R.call('decomp', o.compute_decomp, vec, max_num_eigvals=rng.choice([None, 2]))
        else:
            R.call('decomp', o.compute_decomp, vec, adv_vec_handles=adv, max_num_eigvals=rng.choice([None, 2]))
        R.members(o)
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .6:
                k = rng.choice(K['modes'])
                idx = [rng.randrange(2) for _ in range(rng.randint(1, 3))]
                h = out(len(idx))
                R.call(k, getattr(o, 'compute_' + k), idx, h, outs=[h])
            else:
                k = rng.choice(K['coeffs'])
                R.call(k, getattr(o, 'compute_' + k))
                R.members(o)
        if rng.random() < .5:
            R.call('sanity_check', o.sanity_check, vec[1])
        if rng.random() < .5:
            d = ['%s.%d' % (a, R.k) for a in K['decomp']]
            R.call('put_decomp', o.put_decomp, *d)
            p = getattr(R.m[K['mod']], K['cls'])(ip, put_array=put, get_array=get, **kw)
            R.call('get_decomp', p.get_decomp, *d)
            R.members(p)


GROUPS = {'util': g_util, 'arrays': g_arrays, 'era': g_era, 'handles': g_handles}


def gen(ck):
    rng = ck.rng
    out = []
    for _ in range(ck.pick(600, 8000)):
        g = rng.choice(['util', 'arrays', 'arrays', 'era', 'handles', 'handles', 'handles'])
        P = rng.choice([1, 1, 2, 3]) if g == 'handles' else 1
        out.append({'lay': scen.layout(rng, P), 'group': g, 'seed': rng.randrange(10 ** 8)})
    return out


def one(case):
    lay = case['lay']
    P = lay['P']
    w = vs.world(lay)
    M = S.load(P, lay['nodes'])
    path = tempfile.mkdtemp(dir='.')

    def target(r):
        rng = random.Random(case['seed'])       # all workers make the same calls
        GROUPS[case['group']](Recorder(w.ev, M[r], rng, path, P))
        return True
    try:
        w.run(target, M)
        vs.finish(w)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return {'ev': [{'e': 'begin', 'P': P}] + [e for e in w.events if e['e'] in ('make', 'call', 'error', 'end')]}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'histories of calls')
    for case, rec in traces:
        for e in rec['ev']:
            if e['e'] == 'call':
                ck.count(e['fn'])
    ck.judge('FrameTrace', traces)
    ck.assumptions += ['arrays held by an object for its user (decompositions, coefficients) count as results handed out']
