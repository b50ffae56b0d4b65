"""Modal decompositions (C13-C16): data with known properties, runs of the array and handle
versions, records for ModalTrace.tla (fixed point, 1/8192)."""
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import mpisim as S
from mrv import realmpi, scen, vs

SC = 8192.
BAD = 1000000001


def fx(x):
    try:
        y = float(x) * SC
    except Exception:
        return BAD
    return BAD if y != y or abs(y) > 1e9 else int(round(y))


def cx(z):
    try:
        z = complex(z)
    except Exception:
        return [BAD, BAD]
    return [fx(z.real), fx(z.imag)]


def mat(a):
    """A 2D array as rows of [re, im]; anything else gets an impossible shape."""
    if a is None:
        return []
    a = np.asarray(a)
    if a.ndim != 2 or a.dtype == object:
        return [[[BAD, a.ndim], [BAD, 0]], [[BAD, 0]]]
    return [[cx(z) for z in r] for r in a.tolist()]


def vec(a):
    """A 1D real array."""
    a = np.asarray(a)
    if a.ndim != 1:
        return [BAD] * 50
    if np.iscomplexobj(a) and np.abs(a.imag).max() > 1e-9:
        return [BAD] * len(a)
    return [fx(z.real) for z in a.astype(complex).tolist()]


def cvec(a):
    a = np.asarray(a)
    return [cx(z) for z in a.tolist()] if a.ndim == 1 else [[BAD, BAD]] * 50


def arr(rows):
    """JSON rows of [re, im] to an array, real if it can be."""
    if rows is None:
        return None
    a = np.array([[complex(*z) for z in r] for r in rows])
    return a if np.any(a.imag) else a.real.copy()


def jarr(a):
    return None if a is None else [[[float(z.real), float(z.imag)] for z in r] for r in np.asarray(a).tolist()]


# ---------------------------------------------------------------- data
def weights(rng, n, cplx):
    """(form, W): form is None, 1 or 2."""
    form = rng.choice([None, None, 1, 1, 2, 2])
    if form is None:
        return form, np.eye(n)
    d = np.array([rng.choice([.5, 1, 2, 3, 1, .25]) for _ in range(n)])
    if form == 1:
        return form, np.diag(d)
    L = np.eye(n, dtype=complex if cplx else float)
    for i in range(n):
        for j in range(i):
            L[i, j] = rng.choice([0, 1, -1] + ([1j, -1j] if cplx else []))
    return form, L.dot(np.diag([rng.choice([1, 1, 2]) for _ in range(n)])).dot(L.conj().T)


def spectrum(G):
    e = np.linalg.eigvalsh(G)[::-1]
    return np.where(e < 1e-9 * max(1, e[0]), 0., e)


def apart(e, gap=.05):
    """Positive values of a descending list are clearly different."""
    p = e[e > 0]
    return np.all(p[:-1] - p[1:] > gap * p[:-1])


def kept(e, tol):
    n = int(np.sum((e > tol['atol']) & (e > tol['rtol'] * e[0])))
    return min(n, tol['max']) if tol.get('max') is not None else n


def clear(e, tol):
    """No value is near a threshold."""
    for t in (tol['atol'], tol['rtol'] * e[0]):
        if t > 0 and np.any((e > .8 * t) & (e < 1.25 * t)):
            return False
    return True


def tolerances(rng, e, maxn=False):
    """Tolerances for the spectrum e; None stands for the defaults."""
    tol = {'atol': 1e-6, 'rtol': 0., 'max': None}
    p = e[e > 0]
    how = rng.choice(['none', 'none', 'atol', 'rtol', 'both'])
    k = rng.randint(1, len(p))
    if how in ('atol', 'both') and k < len(p):
        tol['atol'] = float((p[k] * p[k - 1]) ** .5)
    if how in ('rtol', 'both') and k < len(p):
        tol['rtol'] = float((p[k] * p[k - 1]) ** .5 / p[0])
    if how == 'both' and k > 1 and rng.random() < .5:
        tol['atol'] = float((p[k - 1] * p[k - 2]) ** .5)
    if maxn and rng.random() < .4:
        tol['max'] = rng.randint(1, len(p) + 1)
    return tol


def both_same(e, tol):
    """The direct methods compare square roots; the verdict must be the same."""
    r = np.sqrt(e)
    return clear(r, tol) and kept(e, tol) == kept(r, tol)


def tiny(rng, X):
    """Scale a row down so far that any sensible tolerance removes what is left of it."""
    X = X.copy()
    X[rng.randrange(X.shape[0])] *= 2. ** -rng.choice([8, 9, 10])
    return X


def tiny_tol(rng, maxn=False):
    how = rng.choice(['rtol', 'rtol', 'atol'])
    t = {'atol': 1e-6 if how == 'rtol' else rng.choice([.05, .1]), 'rtol': rng.choice([.02, .03]) if how == 'rtol' else 0.,
         'max': None}
    if maxn and rng.random() < .2:
        t['max'] = rng.randint(1, 4)
    return t


def unit(rng, tol):
    """Now and then the data come in a small unit (2^-n), and the default absolute tolerance is used."""
    return rng.randint(6, 14) if tol['atol'] == 1e-6 and rng.random() < .3 else 0


def kw(case):
    tol = case['tol']
    k = {} if case.get('unit') else {'atol': tol['atol']}
    if tol['rtol']:
        k['rtol'] = tol['rtol']
    if tol.get('max') is not None:
        k['max_num_eigvals'] = tol['max']
    return k


def selection(rng, k, everything=.5):
    if rng.random() < everything:
        return list(range(k)), rng.choice(['none', 'list', 'range'])
    idx = rng.sample(range(k), rng.randint(1, k)) if rng.random() < .9 else []     # no modes at all
    if idx and rng.random() < .25:
        idx.append(rng.choice(idx))
    return idx, rng.choice(['list', 'list', 'array', 'tuple'])


def sel(idx, form):
    return {'none': None, 'list': list(idx), 'range': range(len(idx)), 'array': np.array(idx, dtype=int),
            'tuple': tuple(idx)}[form]


def pod_case(rng):
    while True:
        cplx = rng.random() < .4
        n, m = rng.randint(1, 5), rng.randint(1, 5)
        r = rng.randint(1, min(n, m)) if rng.random() < .4 else min(n, m)
        if rng.random() < .1:                     # many snapshots of few kinds
            n, m, r = rng.randint(3, 10), rng.randint(6, 14), rng.randint(1, 3)
        X = D.rint(rng, n, m, 3, cplx) if r == min(n, m) else \
            D.rint(rng, n, r, 2, cplx).dot(D.rint(rng, r, m, 1, cplx))
        if rng.random() < .3:                     # something small, to be truncated
            X = X * np.array([1] + [rng.choice([1, .25, .125]) for _ in range(n - 1)])[:, None]
        small = n > 1 and rng.random() < .15
        if small:
            X = tiny(rng, X)
        form, W = weights(rng, n, cplx)
        e = spectrum(X.conj().T.dot(W).dot(X))
        if not np.any(e) or e[0] > 400 or not apart(e):
            continue
        tol = tiny_tol(rng) if small else tolerances(rng, e)
        k = kept(e, tol)
        if small and not both_same(e, tol):
            continue
        if k < 1 or not clear(e, tol) or e[k - 1] < max(.6, e[0] / 120.) or not np.any(e):
            continue
        idx, f = selection(rng, k)
        break
    hidx, hf = selection(rng, k, .3)
    return {'tall': form == 2 and len(X) > 1 and rng.random() < .08, 'unit': unit(rng, tol), 'again': rng.random() < .3, 'what': 'pod', 'X': jarr(X), 'W': jarr(W), 'wform': form, 'spec': [float(z) for z in e], 'tol': tol,
            'idx': idx, 'form': f, 'hidx': hidx, 'direct': bool(both_same(e, tol)), 'order': rng.choice('CFLM'),
            'lay': scen.layout(rng, rng.randint(1, 4)), 'limit': rng.choice([None, None, 3, 4, 100]),
            'defaults': bool(tol == {'atol': 1e-6, 'rtol': 0., 'max': None} and np.all(e > 0))}


def bpod_case(rng):
    while True:
        cplx = rng.random() < .4
        n, p, q = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        A, d = D.linmap(rng, n, cplx)
        A = A * .5
        if rng.random() < .3 and n > 1:           # not of full order
            A[:, -1] = 0
        B, C = D.rint(rng, n, p, 2, cplx), D.rint(rng, q, n, 2, cplx)
        form, W = weights(rng, n, cplx)
        Wi = np.linalg.inv(W)
        Aa = Wi.dot(A.conj().T).dot(W)
        X, Y = [B], [Wi.dot(C.conj().T)]
        for _ in range(rng.randint(1, 3)):
            X.append(A.dot(X[-1]))
        for _ in range(rng.randint(1, 3)):
            Y.append(Aa.dot(Y[-1]))
        sd, sa = len(X), len(Y)
        X, Y = np.hstack(X), np.hstack(Y)
        H = Y.conj().T.dot(W).dot(X)
        e = np.linalg.svd(H, compute_uv=False)
        e = np.where(e < 1e-9 * max(1, e[0]), 0., e)
        if not np.any(e) or e[0] > 300 or not apart(e) or max(np.abs(X).max(), np.abs(Y).max()) > 20:
            continue
        tol = tolerances(rng, e)
        k = kept(e, tol)
        if k < 1 or not clear(e, tol) or e[k - 1] < max(.5, e[0] / 60.):
            continue
        break
    full = bool(k == int(np.sum(e > 0)) and sd + sa - 1 >= 2 * n)
    di, f = selection(rng, k)
    ai, f2 = selection(rng, k) if rng.random() < .5 else (di, f)
    hd, _ = selection(rng, k, .4)
    ha, _ = selection(rng, k, .4)
    return {'unit': unit(rng, tol), 'again': rng.random() < .3, 'what': 'bpod', 'X': jarr(X), 'Y': jarr(Y), 'W': jarr(W), 'wform': form, 'p': p, 'q': q,
            'A': jarr(A), 'B': jarr(B), 'C': jarr(C), 'steps': sd + sa - 1, 'full': full,
            'spec': [float(z) for z in e], 'tol': tol, 'di': di, 'ai': ai, 'form': f, 'form2': f2, 'hd': hd, 'ha': ha,
            'order': rng.choice('CFLM'), 'lay': scen.layout(rng, rng.randint(1, 4)),
            'limit': rng.choice([None, None, 3, 4, 100])}


def lowmap(X, Y, W, k):
    e, V = np.linalg.eigh(X.conj().T.dot(W).dot(X))
    e, V = e[::-1][:k], V[:, ::-1][:, :k]
    s = np.diag(e ** -.5)
    return s.dot(V.conj().T).dot(X.conj().T.dot(W).dot(Y)).dot(V).dot(s)


def dmd_case(rng, tls):
    while True:
        cplx = rng.random() < .4
        r = rng.randint(1, 3)
        n = r + rng.randint(0, 2)
        seq = rng.random() < .5
        m = max(1, r + rng.choice([-1, 0, 0, 1, 2]))
        if tls:
            m = r + rng.randint(0, 3)
        if rng.random() < .1:
            n, m = r + rng.randint(0, 6), r + rng.randint(2, 9)
        try:
            X, Y, A, d = D.dmd_data(rng, n, r, m, cplx, seq, limit=25., maxval=15)
        except RuntimeError:
            continue
        noise = rng.random() < (.5 if tls else .35)
        Z = np.hstack([X, Y[:, -1:]])
        if noise:
            if seq:
                Z = Z + np.array([[rng.choice([0, 0, .5, -.5, 1, -1]) for _ in range(m + 1)] for _ in range(n)])
                X, Y = Z[:, :-1], Z[:, 1:]
            else:
                X = X + np.array([[rng.choice([0, 0, .5, -.5]) for _ in range(m)] for _ in range(n)])
                Y = Y + np.array([[rng.choice([0, 0, .5, -.5]) for _ in range(m)] for _ in range(n)])
        small = n > 1 and not seq and rng.random() < .2
        if small:
            X, noise = tiny(rng, X), True
        form, W = weights(rng, n, cplx)
        G = X.conj().T.dot(W).dot(X)
        Ga = Y.conj().T.dot(W).dot(Y)
        e = spectrum(G)
        if not np.any(e) or e[0] > 2000:
            continue
        case = {}
        if tls:
            es = spectrum(G + Ga)
            if es[0] > 3000 or not apart(es):
                continue
            tol = tiny_tol(rng, True) if small else tolerances(rng, es, True)
            if noise and not small and tol['max'] is None and rng.random() < .7:
                tol['max'] = r
            ks = kept(es, tol)
            if ks < 1 or not clear(es, tol):
                continue
            V = np.linalg.eigh(G + Ga)[1][:, ::-1][:, :ks]
            P = V.dot(V.conj().T)
            Xp, Yp = X.dot(P), Y.dot(P)
            ep = spectrum(Xp.conj().T.dot(W).dot(Xp))
            case['sum'] = [float(z) for z in es]
        else:
            es = None
            ep = e
            tol = tiny_tol(rng, True) if small else tolerances(rng, e, True)
            Xp, Yp = X, Y
        k = kept(ep, tol)
        if small and not (both_same(ep, tol) and (not tls or both_same(es, tol))):
            continue
        if k < 1 or not clear(ep, tol) or not apart(ep) or ep[k - 1] < max(.5, ep[0] / 150.):
            continue
        M = lowmap(Xp, Yp, W, k)
        ev, R = np.linalg.eig(M)
        if np.min(np.abs(ev)) < .2 or np.max(np.abs(ev)) > 12 or D.cond(R) > 12 or \
                any(abs(ev[i] - ev[j]) < .2 for i in range(k) for j in range(i)):
            continue
        # exact modes: Y c / eigenvalue must be moderate
        full = bool(not noise and k == r and np.linalg.matrix_rank(X) == r)
        break
    same = both_same(ep, tol) and (es is None or both_same(es, tol))
    idx, f = selection(rng, k)
    hx = [selection(rng, k, .4)[0] for _ in range(3)]
    if rng.random() < .4:
        hx = [hx[0]] * 3
    F = Y.dot(np.linalg.pinv(X)) if full else None
    small_unit = unit(rng, tol)
    if tol['max'] == k and (es is None or ks == k) and tol['atol'] == 1e-6 and not tol['rtol'] and rng.random() < .6:
        # a large unit: round-off exceeds the default tolerance, and only the maximal number cuts it off
        small_unit = -rng.randint(6, 14)
    case.update({'tall': form == 2 and len(X) > 1 and rng.random() < .08, 'unit': small_unit, 'again': rng.random() < .3, 'what': 'tls' if tls else 'dmd', 'X': jarr(X), 'Y': jarr(Y), 'seq': seq, 'W': jarr(W), 'wform': form,
                 'F': jarr(F), 'eigs': jarr(np.array([d])) if full else None, 'full': full,
                 'spec': [float(z) for z in ep], 'tol': tol, 'idx': idx, 'form': f, 'hx': hx, 'direct': bool(same),
                 'order': rng.choice('CFLM'), 'lay': scen.layout(rng, rng.randint(1, 4)),
                 'limit': rng.choice([None, None, 3, 4, 100])})
    return case


def finding(what):
    """The direct methods compare singular values, not eigenvalues, with the tolerances."""
    X = np.array([[2., 0.], [0., .5]])
    c = {'tag': 'direct method applies atol to singular values, ' + what, 'what': what, 'X': jarr(X),
         'W': jarr(np.eye(2)), 'wform': None, 'tol': {'atol': .3, 'rtol': 0., 'max': None}, 'idx': [0], 'form': 'list',
         'hidx': [0], 'direct': True, 'order': 'C', 'limit': None, 'defaults': False,
         'lay': {'P': 1, 'nodes': 1, 'sched': 0, 'policy': 'random', 'eager': None}}
    if what == 'pod':
        return dict(c, spec=[4., .25])
    Y = np.array([[1., 0.], [0., .25]]) if what == 'dmd' else np.array([[1., 0.], [0., .125]])
    c.update(Y=jarr(Y), seq=False, full=False, hx=[[0]] * 3, spec=[4., .25])
    if what == 'tls':
        c['sum'] = [5., .265625]
        c['spec'] = [4., 0.]
    return c


# ---------------------------------------------------------------- runs
def given(a, order):
    if order == 'F':
        return np.asfortranarray(a)
    if order == 'L':
        return a.tolist()
    if order == 'M':
        return np.matrix(a)
    return a


def first(case, k):
    """The tolerances of a decomposition which is truncated again afterwards."""
    return {'rtol': 1e-10} if case.get('again') else k


def wts(case):
    W = arr(case['W'])
    return {None: None, 1: np.diag(W).copy(), 2: W}[case['wform']]


def tall(case, a):
    """The same data in a space of more than 500 dimensions: 256 copies of every vector, one below the other."""
    return np.vstack([a / 16] * 256) if case.get('tall') else a


def tall_weights(case, W):
    return np.kron(np.eye(256), W) if case.get('tall') else W


def untall(case, a):
    """Back to one copy; all of them have to be alike."""
    if not case.get('tall'):
        return a
    b = np.asarray(a)
    n = b.shape[0] // 256
    r = b[:n] * 16
    if b.shape[0] != 256 * n or not np.allclose(b, np.vstack([r / 16] * 256), rtol=1e-9, atol=1e-9 * np.max(np.abs(r), initial=0.)):
        return r + 1000.
    return r


def one(idx):
    return [i + 1 for i in idx]


def begin(case):
    t = case['tol']
    F = case.get('F')
    b = {'e': 'begin', 'X': mat(arr(case['X'])), 'Y': mat(arr(case['Y'])) if case.get('Y') else [],
         'W': mat(arr(case['W'])), 'spec': [fx(z) for z in case['spec']], 'sum': [fx(z) for z in case.get('sum', [])],
         'atol': fx(t['atol']), 'rtol': fx(t['rtol']), 'max': -1 if t.get('max') is None else t['max'],
         'F': mat(arr(F)) if F else [], 'A': [], 'B': [], 'C': [], 'full': case.get('full', False),
         'eigs': [cx(z) for z in arr(case['eigs'])[0]] if case.get('eigs') else [], 'steps': case.get('steps', 0)}
    for k in 'ABC':
        if case.get(k):
            b[k] = mat(arr(case[k]))
    return b


def guarded(ev, f, case):
    if case.get('real'):          # the array versions are for one worker
        return
    try:
        ev.append(f())
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        ev.append({'e': 'error', 'what': type(ex).__name__, 'msg': str(ex)[:200],
                   'at': '%s:%d' % (tb.filename.split('/')[-1], tb.lineno)})


def handles_run(case, target):
    """Runs target(rank, modules, world) on the simulated workers of the case; returns the
    value of one worker and the error/end events."""
    lay = case['lay']
    w = vs.world(lay)
    M = S.load(lay['P'], lay['nodes'])
    w.arrays = {}
    got = {}

    def f(r):
        got[r] = target(r, M[r], w)
        M[r]['modred.parallel'].barrier()
        return True
    for part in ('X', 'Y'):
        a = case.get(part)
        if a:
            a = arr(a) * 2. ** -case.get('unit', 0)
            for i in range(a.shape[1]):
                w.store['%s.%d' % (part, i)] = tuple(a[:, i].tolist())
    w.run(f, M)
    vs.finish(w)
    tail = [e for e in w.events if e['e'] in ('error', 'end')]
    return got.get(case['lay']['sched'] % lay['P']), w, tail


def stored(w, names):
    if not names:               # nothing asked for: no columns
        return np.zeros((len(w.store['X.0']), 0))
    try:
        return np.array([w.store[h] for h in names]).T
    except KeyError:
        return None


def hs(w, pre, n, start=0):
    return [vs.H(w, '%s.%d' % (pre, i)) for i in range(start, n)]


def note_pod(case, X, e, V, modes, idx, co, H):
    if case.get('real') or case.get('tall') or not len(idx):
        return
    e, co, W = np.asarray(e), np.asarray(co), arr(case['W'])
    idx = list(idx)
    m = dict(X=X, W=W, V=V, E=np.diag(e), G=fine.root(e, idx), U=modes, K=co[idx], Eu=np.diag(e[idx]))
    has = ['distinct'] if len(set(idx)) == len(idx) else []
    if H is not None:
        m['H'] = H
        has.append('H')
    fine.note('pod', has, **m)


def note_bpod(case, X, Y, H, sv, L, R, D, A, di, ai, Kd, Ka):
    """Kd: coefficients of the advanced (direct) data, on the adjoint modes."""
    if case.get('real') or not len(di) or not len(ai):
        return
    sv = np.asarray(sv)
    fine.note('bpod', X=X, Y=Y, W=arr(case['W']), H=H, S=np.diag(sv), L=L, R=R, D=D, A=A, Gd=fine.root(sv, di),
              Ga=fine.root(sv, ai), Ka=np.asarray(Kd)[list(ai)], Kd=np.asarray(Ka)[list(di)])


def note_dmd(case, r, xi, pi, ai, exact, proj, adj, u):
    if case.get('real') or case.get('tall') or not (len(xi) and len(pi) and len(ai)):
        return
    tls = case['what'] == 'tls'
    g = lambda a: getattr(r, a, None)
    pre = 'proj_' if tls else ''
    X, Y = arr(case['X']), arr(case['Y'])
    e = np.asarray(g(pre + 'correlation_array_eigvals')) * u ** 2
    R, L = np.asarray(r.R_low_order_eigvecs), np.asarray(r.L_low_order_eigvecs)
    xi, pi, ai = list(xi), list(pi), list(ai)
    G = fine.root(e)
    m = dict(X=X, Y=Y, W=arr(case['W']), Q=np.eye(X.shape[1]), V=g(pre + 'correlation_array_eigvecs'), E=np.diag(e),
             R=R, L=L, Pr=proj, Ad=adj, Ex=exact, Gp=G.dot(R)[:, pi], Ga=G.dot(L)[:, ai], Gx=G.dot(R)[:, xi],
             Lx=np.diag(np.asarray(r.eigvals)[xi]), Ka=np.asarray(r.proj_coeffs)[ai] * u,
             Kb=np.asarray(r.adv_proj_coeffs)[ai] * u)
    has = []
    if g('correlation_array') is not None:
        m['H'] = g('correlation_array') * u ** 2
        has.append('H')
    if g('cross_correlation_array') is not None:
        m['Hc'] = g('cross_correlation_array') * u ** 2
        has.append('Hc')
    if tls:
        V = np.asarray(g('sum_correlation_array_eigvecs'))
        m.update(Vs=V, Es=np.diag(np.asarray(g('sum_correlation_array_eigvals')) * u ** 2), Q=V.dot(V.conj().T))
        has.append('tls')
    if case.get('F'):
        m['F'] = arr(case['F'])
        has.append('F')
    fine.note('dmd', has, **m)
    fine.note('same', M=[np.abs(np.asarray(r.proj_coeffs)[:, 0]) * u], N=[np.asarray(r.spectral_coeffs) * u])


def quietly(f, *args):
    """What cannot be noted is for the other specification to judge."""
    try:
        f(*args)
    except Exception:
        pass


def run_pod(case):
    ev = [begin(case)]
    M = S.load(1)[0]['modred.pod']
    X, W = tall(case, arr(case['X']) * 2. ** -case.get('unit', 0)), tall_weights(case, wts(case))
    u = 2. ** case.get('unit', 0)
    k = kw(case)
    if case['defaults']:
        k = {}
    for name, fn in (('snaps', M.compute_POD_arrays_snaps_method), ('direct', M.compute_POD_arrays_direct_method)):
        if name == 'direct' and not case['direct']:
            continue

        def f():
            a = dict(k)
            if case['form'] != 'none':
                a['mode_indices'] = sel(case['idx'], case['form'])
            if W is not None:
                a['inner_product_weights'] = W
            res = fn(given(X, case['order']), **a)
            quietly(note_pod, case, X * u, res.eigvals * u ** 2, res.eigvecs, res.modes, case['idx'], res.proj_coeffs * u,
                    None if getattr(res, 'correlation_array', None) is None else res.correlation_array * u ** 2)
            return {'e': 'pod', 'm': name, 'eigvals': vec(res.eigvals * u ** 2), 'eigvecs': mat(res.eigvecs),
                    'modes': mat(untall(case, res.modes)), 'idx': one(case['idx']), 'coeffs': mat(res.proj_coeffs * u),
                    'corr': times(getattr(res, 'correlation_array', None), u ** 2)}
        guarded(ev, f, case)

    def target(r, mods, w):
        o = mods['modred.pod'].PODHandles(vs.wip(case['W']), max_vecs_per_node=case['limit'], verbosity=0)
        eigvals, eigvecs = o.compute_decomp(hs(w, 'X', X.shape[1]), **first(case, k))
        if case.get('again'):                     # from the correlation array it already has
            o.compute_eigendecomp(**k)
            eigvals, eigvecs = o.eigvals, o.eigvecs
        o.compute_modes(case['hidx'], [vs.H(w, 'm.%d' % i) for i in range(len(case['hidx']))])
        return eigvals, eigvecs, o.compute_proj_coeffs(), o.correlation_array
    got, w, tail = handles_run(case, target)
    if got:
        modes = stored(w, ['m.%d' % i for i in range(len(case['hidx']))])
        quietly(lambda: note_pod(case, X * u, got[0] * u ** 2, got[1], modes, case['hidx'], got[2] * u, got[3] * u ** 2))
        ev.append({'e': 'pod', 'm': 'handles', 'eigvals': vec(got[0] * u ** 2), 'eigvecs': mat(got[1]),
                   'modes': mat(modes), 'idx': one(case['hidx']), 'coeffs': mat(got[2] * u),
                   'corr': mat(got[3] * u ** 2)})
    return {'ev': ev + tail}


def run_bpod(case):
    ev = [begin(case)]
    M = S.load(1)[0]['modred.bpod']
    u = 2. ** case.get('unit', 0)
    X, Y, W = arr(case['X']) / u, arr(case['Y']) / u, wts(case)
    k = kw(case)

    def f():
        a = dict(k, num_inputs=case['p'], num_outputs=case['q'])
        if case['form'] != 'none':
            a['direct_mode_indices'] = sel(case['di'], case['form'])
        if case['form2'] != 'none':
            a['adjoint_mode_indices'] = sel(case['ai'], case['form2'])
        if W is not None:
            a['inner_product_weights'] = W
        if case['p'] == case['q'] == 1:
            a.pop('num_inputs')
        r = M.compute_BPOD_arrays(given(X, case['order']), given(Y, case['order']), **a)
        quietly(lambda: note_bpod(case, X * u, Y * u, r.Hankel_array * u ** 2, r.sing_vals * u ** 2, r.L_sing_vecs,
                                  r.R_sing_vecs, r.direct_modes, r.adjoint_modes, case['di'], case['ai'],
                                  r.direct_proj_coeffs * u, r.adjoint_proj_coeffs * u))
        return {'e': 'bpod', 'm': 'arrays', 'sv': vec(r.sing_vals * u ** 2), 'L': mat(r.L_sing_vecs), 'R': mat(r.R_sing_vecs),
                'dmodes': mat(r.direct_modes), 'amodes': mat(r.adjoint_modes), 'didx': one(case['di']),
                'aidx': one(case['ai']), 'dco': mat(r.direct_proj_coeffs * u),
                'aco': mat(r.adjoint_proj_coeffs * u), 'H': mat(r.Hankel_array * u ** 2)}
    guarded(ev, f, case)

    def target(r, mods, w):
        o = mods['modred.bpod'].BPODHandles(vs.wip(case['W']), max_vecs_per_node=case['limit'], verbosity=0)
        sv, L, R = o.compute_decomp(hs(w, 'X', X.shape[1]), hs(w, 'Y', Y.shape[1]), num_inputs=case['p'],
                                    num_outputs=case['q'], **first(case, k))
        if case.get('again'):
            o.compute_SVD(**k)
            sv, L, R = o.sing_vals, o.L_sing_vecs, o.R_sing_vecs
        o.compute_direct_modes(case['hd'], [vs.H(w, 'd.%d' % i) for i in range(len(case['hd']))])
        o.compute_adjoint_modes(case['ha'], [vs.H(w, 'a.%d' % i) for i in range(len(case['ha']))])
        return sv, L, R, o.compute_direct_proj_coeffs(), o.compute_adjoint_proj_coeffs(), o.Hankel_array
    got, w, tail = handles_run(case, target)
    if got:
        quietly(lambda: note_bpod(case, X * u, Y * u, got[5] * u ** 2, got[0] * u ** 2, got[1], got[2],
                                  *([stored(w, ['%s.%d' % (p, i) for i in range(len(case['h' + p]))]) for p in 'da'] +
                                    [case['hd'], case['ha'], got[3] * u, got[4] * u])))
        ev.append({'e': 'bpod', 'm': 'handles', 'sv': vec(got[0] * u ** 2), 'L': mat(got[1]), 'R': mat(got[2]),
                   'dmodes': mat(stored(w, ['d.%d' % i for i in range(len(case['hd']))])),
                   'amodes': mat(stored(w, ['a.%d' % i for i in range(len(case['ha']))])),
                   'didx': one(case['hd']), 'aidx': one(case['ha']), 'dco': mat(got[3] * u),
                   'aco': mat(got[4] * u), 'H': mat(got[5] * u ** 2)})
    return {'ev': ev + tail}


def times(a, k):
    return mat(a) if a is None else mat(np.asarray(a) * k)


def dmd_event(r, name, tls, xi, pi, ai, exact, proj, adj, u):
    g = lambda a: getattr(r, a, None)
    pre = 'proj_' if tls else ''
    e = {'e': 'dmd', 'm': name, 'tls': tls, 'eigs': cvec(r.eigvals), 'cev': vec(g(pre + 'correlation_array_eigvals') * u ** 2),
         'cvec': mat(g(pre + 'correlation_array_eigvecs')), 'R': mat(r.R_low_order_eigvecs),
         'L': mat(r.L_low_order_eigvecs), 'exact': mat(exact), 'proj': mat(proj), 'adj': mat(adj), 'xidx': one(xi),
         'pidx': one(pi), 'aidx': one(ai), 'co': mat(r.proj_coeffs * u), 'adv': mat(r.adv_proj_coeffs * u),
         'spec': vec(r.spectral_coeffs * u), 'corr': times(g('correlation_array'), u ** 2), 'cross': times(g('cross_correlation_array'), u ** 2)}
    if tls:
        e.update(acorr=times(g('adv_correlation_array'), u ** 2), sumc=times(g('sum_correlation_array'), u ** 2),
                 projc=times(g('proj_correlation_array'), u ** 2), sev=vec(g('sum_correlation_array_eigvals') * u ** 2),
                 svec=mat(g('sum_correlation_array_eigvecs')))
    return e


def run_dmd(case):
    ev = [begin(case)]
    tls = case['what'] == 'tls'
    M = S.load(1)[0]['modred.dmd']
    u = 2. ** case.get('unit', 0)
    X, Y, W = tall(case, arr(case['X']) / u), tall(case, arr(case['Y']) / u), tall_weights(case, wts(case))
    m = X.shape[1]
    k = kw(case)
    pre = 'compute_TLSqrDMD' if tls else 'compute_DMD'
    for name in ('snaps', 'direct'):
        if name == 'direct' and not case['direct']:
            continue
        fn = getattr(M, '%s_arrays_%s_method' % (pre, name))

        def f():
            a = dict(k)
            if case['form'] != 'none':
                a['mode_indices'] = sel(case['idx'], case['form'])
            if W is not None:
                a['inner_product_weights'] = W
            if case['seq']:
                r = fn(given(np.hstack([X, Y[:, -1:]]), case['order']), **a)
            else:
                r = fn(given(X, case['order']), adv_vecs=given(Y, case['order']), **a)
            i = case['idx']
            quietly(note_dmd, case, r, i, i, i, r.exact_modes, r.proj_modes, r.adjoint_modes, u)
            return dmd_event(r, name, tls, i, i, i, untall(case, r.exact_modes), untall(case, r.proj_modes), untall(case, r.adjoint_modes), u)
        guarded(ev, f, case)

    def target(r, mods, w):
        d = mods['modred.dmd']
        o = (d.TLSqrDMDHandles if tls else d.DMDHandles)(vs.wip(case['W']), max_vecs_per_node=case['limit'], verbosity=0)
        if case['seq']:
            w.store['X.%d' % m] = w.store['Y.%d' % (m - 1)]
            o.compute_decomp(hs(w, 'X', m + 1), **first(case, k))
        else:
            o.compute_decomp(hs(w, 'X', m), adv_vec_handles=hs(w, 'Y', m), **first(case, k))
        if case.get('again'):
            o.compute_eigendecomp(**k)
        for kind, pre2, idx in zip(('exact', 'proj', 'adjoint'), 'xpa', case['hx']):
            getattr(o, 'compute_%s_modes' % kind)(idx, [vs.H(w, '%s.%d' % (pre2, i)) for i in range(len(idx))])
        ret = (o.compute_spectrum(),) + o.compute_proj_coeffs()
        if case['lay']['sched'] % 2:               # what is returned, or the attributes
            o.spectral_coeffs, o.proj_coeffs, o.adv_proj_coeffs = ret
        return o
    got, w, tail = handles_run(case, target)
    if got:
        ms = [stored(w, ['%s.%d' % (p, i) for i in range(len(idx))]) for p, idx in zip('xpa', case['hx'])]
        quietly(note_dmd, case, got, *(case['hx'] + ms + [u]))
        try:
            ev.append(dmd_event(got, 'handles', tls, *(case['hx'] + ms + [u])))
        except Exception as ex:
            ev.append({'e': 'error', 'what': type(ex).__name__, 'msg': str(ex)[:200], 'r': -1})
    return {'ev': ev + tail}


# ---------------------------------------------------------------- widely spread singular values
H4 = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]) / 2.


def graded_case(rng, what):
    """X = Q1 diag(2^-k) Q2: exact in floating point, and the direct methods find every digit of its singular values
    (not those of the eigenvalues of DMD: modred squares the data for them)."""
    def q(n):
        Q = H4 if n == 4 else np.kron(H4, H4)
        Q = Q[rng.sample(range(n), n)] * np.array([rng.choice([1, -1] + ([1j] if cplx else [])) for _ in range(n)])[:, None]
        return Q[:, rng.sample(range(n), n)]
    cplx = rng.random() < .4
    n = rng.choice([4, 4, 16])
    Q1, Q2 = q(n)[:, :4], q(4)
    d = 2. ** -np.array(sorted([0] + rng.sample(range(1, 14), 2) + [rng.randint(14, 17)]))
    X = Q1.dot(np.diag(d)).dot(Q2)
    lam = np.array(rng.sample([2., 1., .5, .25, -.5, -1., -2., .75, 1.5], 4))
    return {'what': 'graded', 'fn': what, 'X': jarr(X), 'Y': jarr(Q1.dot(np.diag(lam * d)).dot(Q2)), 'd': d.tolist(),
            'order': rng.choice('CFL'), 'w': rng.choice([None, 1, 2]), 'unit': 0}


def run_graded(case):
    X, Y, d = arr(case['X']), arr(case['Y']), np.array(case['d'])
    n = len(X)
    kw = {'atol': 1e-9}
    if case['w']:                        # weights, undone by the units of the data
        w = 4. ** (np.arange(n) % 3)
        X, Y = X / np.sqrt(w)[:, None], Y / np.sqrt(w)[:, None]
        kw['inner_product_weights'] = w if case['w'] == 1 else np.diag(w)
    W = np.diag(w) if case['w'] else np.eye(n)
    try:
        x, y = given(X, case['order']), given(Y, case['order'])
        if case['fn'] == 'pod':
            r = S.load(1)[0]['modred.pod'].compute_POD_arrays_direct_method(x, **kw)
            U, e, ref = r.modes, r.eigvals, d ** 2
            fine.note('same', M=[r.proj_coeffs], N=[np.asarray(U).conj().T.dot(W).dot(X)])
        else:
            M = S.load(1)[0]['modred.dmd']
            fn = M.compute_DMD_arrays_direct_method if case['fn'] == 'dmd' else M.compute_TLSqrDMD_arrays_direct_method
            r = fn(x, adv_vecs=y, **kw)
            e = r.correlation_array_eigvals if case['fn'] == 'dmd' else r.proj_correlation_array_eigvals
            ref = d ** 2
        if len(e) != len(ref):
            raise RuntimeError('%d of %d kept' % (len(e), len(ref)))
        fine.note('same', M=[np.asarray(e) / ref], N=[np.ones(len(ref))])
        if case['fn'] == 'pod':
            fine.note('ortho', U=U, W=W)
    except Exception as ex:
        return {'ev': [{'e': 'error', 'what': type(ex).__name__, 'msg': str(ex)[:200], 'at': ''}]}
    return {'ev': []}


def run_case(case):
    return fine.taken({'pod': run_pod, 'bpod': run_bpod, 'dmd': run_dmd, 'tls': run_dmd, 'graded': run_graded}[case['what']](case))


def many(b):
    return [run_case(c) for c in b['batch']] if 'batch' in b else run_case(b)


def check(ck, gen, n, size=8, extra=()):
    cases = [gen(ck.rng) for _ in range(n)]
    graded = [graded_case(ck.rng, cases[0]['what']) for _ in range(ck.pick(60, 600))] if cases[0]['what'] != 'bpod' else []
    ck.count('singular values from 1 to 2^-17', len(graded))
    for c in cases:
        ck.count('in a small unit', int(c['unit'] > 0))
        ck.count('in a large unit', int(c['unit'] < 0))
        ck.count('in more than 500 dimensions', int(c.get('tall', False)))
        ck.count('%s %s, weights %s' % (c['what'], 'complex' if any(z[1] for r in c['X'] for z in r) else 'real',
                                        c['wform']))
        if c.get('direct', True) is False:
            ck.count('without the direct method')
    got = ck.observe(many, [{'batch': cases[i:i + size]} for i in range(0, n, size)] +
                     [{'batch': graded[i:i + 20]} for i in range(0, len(graded), 20)] + list(extra),
                     what='batches of decompositions')
    flat = []
    for b, t in got:
        flat.extend(zip(b['batch'], t) if 'batch' in b else [(b, t)])
    fine.judge(ck, flat, ck.pick(90, 900))
    flat += realmpi.several(ck, 'mrv.modal:run_case', cases, each=ck.pick(8, 60))
    ck.judge('ModalTrace', flat, timeout=3000)
