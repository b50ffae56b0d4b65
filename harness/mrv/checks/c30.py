"""C30  Every route from data to a model leads back to the system."""
import os
import shutil
import tempfile
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S
from mrv import scen
from mrv import vs
from mrv.checks.c18 import response
from mrv.checks.c19 import markov, reference, simulate

ROUTES = ['era', 'era function', 'bpod arrays', 'bpod handles', 'bpod files', 'pod arrays', 'pod handles', 'balanced']


def case(rng):
    while True:
        cplx = rng.random() < .35
        n = rng.choice([1, 2, 2, 3, 3, 4])
        m, p = rng.randint(1, 3), rng.randint(1, 3)
        if n == 4:
            A = D.rint(rng, n, n, 1, cplx) * .5
        else:
            A = D.linmap(rng, n, cplx)[0] * rng.choice([.5, .5, .25])
        B, C = D.rint(rng, n, m, 2, cplx), D.rint(rng, p, n, 2, cplx)
        ev = np.linalg.eigvals(A)
        if np.abs(ev).max() > .95 or np.abs(A).max() > 6:
            continue
        X, Y = blocks(A, B, rng.randint(n, n + 2)), blocks(A.conj().T, C.conj().T, rng.randint(n, n + 2))
        s = np.linalg.svd(np.hstack(Y).conj().T.dot(np.hstack(X)), compute_uv=False)
        if s[0] > 200 or int(np.sum(s > 1e-9 * s[0])) != n or s[n - 1] < max(.4, s[0] / 40.) or \
                np.any(s[n:] > 1e-12 * s[0]) or np.any(s[:n - 1] - s[1:n] < .1 * s[:n - 1]):
            continue
        if max(np.abs(np.hstack(X)).max(), np.abs(np.hstack(Y)).max()) > 20:
            continue
        form, W = modal.weights(rng, n, cplx)
        break
    gram = np.linalg.svd(np.hstack(X), compute_uv=False)
    reach = len(gram) >= n and gram[n - 1] > max(.3, gram[0] / 10.)
    runs = []
    for r in rng.sample(ROUTES, rng.randint(3, 6)):
        if r.startswith('pod') and not reach:
            continue
        k = n if r.startswith('pod') or r in ('balanced', 'era function') else rng.choice([n, rng.randint(1, n)])
        runs.append({'route': r, 'order': k, 'orth': rng.random() < .4, 'lay': scen.layout(rng, rng.randint(1, 4)),
                     'limit': rng.choice([None, 3, 4, 100]), 'weighted': rng.random() < .7})
    c = {'A': modal.jarr(A), 'B': modal.jarr(B), 'C': modal.jarr(C), 'W': modal.jarr(W), 'wform': form, 'sd': len(X),
         'sa': len(Y), 'runs': runs}
    if rng.random() < .5:                          # identified from inputs and outputs
        k = len(X) + len(Y) + 1
        rows = m + (m + p) * k
        N = rng.choice([2 * rows, 3 * rows, 80])
        U = D.rint(rng, m, N, 2, cplx and rng.random() < .5)
        Dd = D.rint(rng, p, m, 2, cplx) if rng.random() < .5 else np.zeros((p, m))
        y, M = simulate(A, B, C, Dd, U), markov(A, B, C, Dd, k)
        nz = np.random.default_rng(rng.randrange(10 ** 6))
        if np.abs(y).max() < 1e3 and all(np.abs(reference(U, y, k, rc, z) - M).max() < 1e-6
                                         for rc in (None, -1) for z in (None, nz, nz, nz)):
            runs.insert(rng.randint(0, len(runs)), {'route': 'okid', 'order': n, 'U': modal.jarr(U), 'D': modal.jarr(Dd), 'k': k})
    if reach:
        # the states seen, and where they went: at least as many as the order
        Z = np.hstack(X)
        g = np.linalg.svd(Z, compute_uv=False)
        if g[0] / g[-1 if len(g) == n else n - 1] < 12 and np.abs(g).max() < 60:
            for r in rng.sample(['dmd', 'tls'], rng.randint(0, 2)):
                if r == 'dmd' or Z.shape[1] >= n + 1:
                    runs.append({'route': r, 'how': rng.choice(['snaps', 'direct', 'handles']),
                                 'lay': scen.layout(rng, rng.randint(1, 4)), 'limit': rng.choice([None, 3, 4, 100])})
    return c


def blocks(A, B, k):
    out = [B]
    for _ in range(k - 1):
        out.append(A.dot(out[-1]))
    return out


def make(batch):
    import random
    rng = random.Random(batch['seed'])
    return [case(rng) for _ in range(batch['n'])]


class Sys(object):
    def __init__(self, c):
        self.A, self.B, self.C, self.W = (modal.arr(c[k]) for k in 'ABCW')
        self.c = c

    def snaps(self, weighted):
        A, B, C = self.A, self.B, self.C
        W = self.W if weighted else np.eye(len(A))
        Wi = np.linalg.inv(W)
        X = np.hstack(blocks(A, B, self.c['sd']))
        Y = np.hstack(blocks(Wi.dot(A.conj().T).dot(W), Wi.dot(C.conj().T), self.c['sa']))
        return X, Y

    def weights(self, weighted):
        return modal.wts(self.c) if weighted and self.c['wform'] is not None else None


def era(M, sy, r):
    mk = response(sy.A, sy.B, sy.C, sy.c['sd'] + sy.c['sa'])
    t, sam = M['modred.era'].make_sampled_format(np.arange(len(mk)), mk)
    return M['modred.era'].ERA(mc=sy.c['sd'], mo=sy.c['sa'], verbosity=0).compute_model(sam, r['order'])


def era_function(M, sy, r):
    mk = response(sy.A, sy.B, sy.C, 2 * max(sy.c['sd'], sy.c['sa']))
    return M['modred.era'].compute_ERA_model(M['modred.era'].make_sampled_format(np.arange(len(mk)), mk)[1], r['order'])


def okid(M, sy, r):
    y = simulate(sy.A, sy.B, sy.C, modal.arr(r['D']), modal.arr(r['U']))
    mk = M['modred.okid'].OKID(modal.arr(r['U']), y, r['k'])
    sam = M['modred.era'].make_sampled_format(np.arange(len(mk) - 1), mk[1:])[1]
    return M['modred.era'].ERA(mc=sy.c['sd'], mo=sy.c['sa'], verbosity=0).compute_model(sam, r['order'])


def balanced(M, sy, r):
    return M['modred.util'].balanced_truncation(sy.A, sy.B, sy.C, order=r['order'])


def bpod_arrays(M, sy, r):
    X, Y = sy.snaps(r['weighted'])
    kw = {}
    if sy.weights(r['weighted']) is not None:
        kw['inner_product_weights'] = sy.weights(r['weighted'])
    idx = range(r['order'])
    b = M['modred.bpod'].compute_BPOD_arrays(
        X, Y, num_inputs=sy.B.shape[1], num_outputs=len(sy.C), direct_mode_indices=idx, adjoint_mode_indices=idx,
        rtol=1e-9, **kw)
    g = M['modred.ltigalerkinproj'].LTIGalerkinProjectionArrays(
        b.direct_modes, adjoint_basis_vecs=b.adjoint_modes, is_basis_orthonormal=r['orth'], **kw)
    return g.compute_model(sy.A.dot(b.direct_modes), sy.B, sy.C.dot(b.direct_modes))


def pod_arrays(M, sy, r):
    X, Y = sy.snaps(r['weighted'])
    kw = {}
    if sy.weights(r['weighted']) is not None:
        kw['inner_product_weights'] = sy.weights(r['weighted'])
    b = M['modred.pod'].compute_POD_arrays_snaps_method(X, mode_indices=range(r['order']), rtol=1e-9, **kw)
    g = M['modred.ltigalerkinproj'].LTIGalerkinProjectionArrays(b.modes, is_basis_orthonormal=r['orth'], **kw)
    return g.compute_model(sy.A.dot(b.modes), sy.B, sy.C.dot(b.modes))


def files(M, sy, r):
    """In serial, with modred's own vector handles and file names."""
    d = tempfile.mkdtemp(prefix='c30-', dir=os.getcwd())
    try:
        v = M['modred.vectors']
        X, Y = sy.snaps(r['weighted'])
        W = sy.W if r['weighted'] else np.eye(len(sy.A))
        cplx = any(np.iscomplexobj(a) for a in (X, Y, sy.A, W))
        H = v.VecHandlePickle if r['orth'] else lambda name: v.VecHandleArrayText(name, is_complex=cplx)
        ip = lambda a, b: np.vdot(a, W.dot(b))
        if not np.any(W - np.eye(len(W))) and r['limit'] is None:
            ip = v.inner_product_array_uniform
        names = lambda pre, k: [H(os.path.join(d, '%s_%02d.vec' % (pre, i))) for i in range(k)]

        def put(pre, a):
            hs = names(pre, a.shape[1])
            for h, x in zip(hs, a.T):
                h.put(x.astype(complex) if cplx else x)
            return hs
        b = M['modred.bpod'].BPODHandles(ip, verbosity=0)
        b.compute_decomp(put('x', X), put('y', Y), num_inputs=sy.B.shape[1], num_outputs=len(sy.C), rtol=1e-9)
        k = r['order']
        dm, am = names('d', k), names('a', k)
        b.compute_direct_modes(range(k), dm)
        b.compute_adjoint_modes(range(k), am)
        g = M['modred.ltigalerkinproj'].LTIGalerkinProjectionHandles(
            ip, dm, adjoint_basis_vec_handles=am, is_basis_orthonormal=r['orth'], verbosity=0)
        Phi = np.array([np.ravel(h.get()) for h in dm]).T
        return g.compute_model(put('A', sy.A.dot(Phi)), put('B', sy.B), list(sy.C.dot(Phi).T))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def handles(sy, r, pod):
    X, Y = sy.snaps(r['weighted'])
    k = r['order']
    A, B, C = sy.A, sy.B, sy.C

    def target(rank, mods, w):
        kw = {'verbosity': 0}
        if r['limit'] is not None:
            kw['max_vecs_per_node'] = r['limit']
        ip = vs.wip(sy.c['W'] if r['weighted'] else modal.jarr(np.eye(len(A))))
        x, y = modal.hs(w, 'X', X.shape[1]), modal.hs(w, 'Y', Y.shape[1])
        dm, am = modal.hs(w, 'd', k), modal.hs(w, 'a', k)
        gk = dict(kw, is_basis_orthonormal=r['orth'])
        if pod:
            o = mods['modred.pod'].PODHandles(ip, **kw)
            o.compute_decomp(x, rtol=1e-9)
            o.compute_modes(range(k), dm)
        else:
            o = mods['modred.bpod'].BPODHandles(ip, **kw)
            o.compute_decomp(x, y, num_inputs=B.shape[1], num_outputs=len(C), rtol=1e-9)
            o.compute_direct_modes(range(k), dm)
            o.compute_adjoint_modes(range(k), am)
            gk['adjoint_basis_vec_handles'] = am
        mods['modred.parallel'].barrier()
        if rank == 0:
            Phi = modal.stored(w, [h.h for h in dm])
            for pre, a in (('AX', A.dot(Phi)), ('B', B), ('CX', C.dot(Phi))):
                for j in range(a.shape[1]):
                    w.store['%s.%d' % (pre, j)] = tuple(a[:, j].tolist())
        mods['modred.parallel'].barrier()
        g = mods['modred.ltigalerkinproj'].LTIGalerkinProjectionHandles(ip, dm, **gk)
        return g.compute_model(modal.hs(w, 'AX', k), modal.hs(w, 'B', B.shape[1]),
                               [np.array(w.store['CX.%d' % j]) for j in range(k)])
    got, w, tail = modal.handles_run({'lay': r['lay'], 'X': modal.jarr(X), 'Y': modal.jarr(Y)}, target)
    bad = [e for e in tail if e['e'] == 'error' or e.get('problem', 'none') != 'none']
    if bad or got is None:
        raise RuntimeError(str(bad)[:150])
    return got


def eigs(M, sy, r):
    X = sy.snaps(False)[0]
    Y = sy.A.dot(X)
    tls = r['route'] == 'tls'
    d = M['modred.dmd']
    if r['how'] != 'handles':
        return getattr(d, 'compute_%s_arrays_%s_method' % ('TLSqrDMD' if tls else 'DMD', r['how']))(
            X, adv_vecs=Y, mode_indices=[0], rtol=1e-9).eigvals

    def target(rank, mods, w):
        kw = {'verbosity': 0}
        if r['limit'] is not None:
            kw['max_vecs_per_node'] = r['limit']
        d = mods['modred.dmd']
        o = (d.TLSqrDMDHandles if tls else d.DMDHandles)(vs.wip(modal.jarr(np.eye(len(sy.A)))), **kw)
        o.compute_decomp(modal.hs(w, 'X', X.shape[1]), adv_vec_handles=modal.hs(w, 'Y', X.shape[1]), rtol=1e-9)
        return o.eigvals
    got, w, tail = modal.handles_run({'lay': r['lay'], 'X': modal.jarr(X), 'Y': modal.jarr(Y)}, target)
    return got


def one(c):
    M = S.load(1)[0]
    sy = Sys(c)
    ev = [{'e': 'begin', 'A': modal.mat(sy.A), 'B': modal.mat(sy.B), 'C': modal.mat(sy.C), 'steps': 2 * len(sy.A) + 2}]
    how = {'era': era, 'era function': era_function, 'okid': okid, 'balanced': balanced, 'bpod arrays': bpod_arrays,
           'pod arrays': pod_arrays, 'bpod files': files,
           'bpod handles': lambda M, sy, r: handles(sy, r, False), 'pod handles': lambda M, sy, r: handles(sy, r, True)}
    for r in c['runs']:
        if r['route'] in ('dmd', 'tls'):
            e = {'e': 'eigs', 'route': r['route'] + ' ' + r['how'], 'vals': [], 'err': ''}
        else:
            e = {'e': 'model', 'route': r['route'], 'order': r['order'], 'A': [], 'B': [], 'C': [], 'err': ''}
        try:
            if e['e'] == 'eigs':
                e['vals'] = modal.cvec(eigs(M, sy, r))
            else:
                got = how[r['route']](M, sy, r)
                if r['order'] == len(sy.A) and r['route'] != 'okid':
                    fine.note('model', M=list(response(sy.A, sy.B, sy.C, 2 * len(sy.A) + 2)), **dict(zip('ABC', got)))
                e.update(zip('ABC', [modal.mat(x) for x in got]))
        except Exception as ex:
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:150])
        ev.append(e)
    return {'ev': ev}


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    cases = []
    if ck.replay is None:
        for r in ck.map(make, [{'seed': ck.rng.randrange(10 ** 9), 'n': 20} for _ in range(ck.pick(40, 500))], timeout=300,
                        what='generators'):
            cases += r['ok']
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), cases, 'systems')
    for c, rec in traces:
        for e in rec['ev'][1:]:
            ck.count(e['route'] + (' below the order' if e['e'] == 'model' and e['order'] < len(c['A']) else ''))
    fine.judge(ck, traces, ck.pick(150, 1500))
    ck.judge('PipeTrace', traces)
    ck.assumptions += ['systems are minimal, stable, and have clearly different Hankel singular values '
                       '(the smallest at least 1/40 of the largest)',
                       'models are compared by their impulse responses, in fixed point, to 1/25']
