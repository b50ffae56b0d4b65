"""C19  OKID recovers Markov parameters from input/output data."""
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S


def simulate(A, B, C, Dd, U):
    x = np.zeros(len(A), dtype=np.result_type(A, B, U))
    out = []
    for u in U.T:
        out.append(C.dot(x) + Dd.dot(u))
        x = A.dot(x) + B.dot(u)
    return np.array(out).T


def markov(A, B, C, Dd, k):
    out, X = [Dd], B
    for _ in range(k - 1):
        out.append(C.dot(X))
        X = A.dot(X)
    return np.array(out)


def reference(u, y, k, rcond, noise=None):
    """The recursion of the design model, for filtering the data only."""
    m, N = u.shape
    q = len(y)
    V = np.zeros((m + (m + q) * k, N), dtype=np.result_type(u, y))
    V[:m] = u
    for i in range(1, k + 1):
        V[m + (i - 1) * (m + q):m + i * (m + q), i:] = np.vstack([u, y])[:, :N - i]
    if noise is not None:
        V = V * (1 + 1e-14 * noise.standard_normal(V.shape))
        y = y * (1 + 1e-14 * noise.standard_normal(y.shape))
    Y = np.linalg.lstsq(V.conj().T, y.conj().T, rcond=rcond)[0].conj().T
    out = [Y[:, :m]]
    for j in range(1, k):
        blk = Y[:, m + (j - 1) * (m + q):m + j * (m + q)]
        M = blk[:, :m].copy()
        for i in range(1, j + 1):
            M = M + Y[:, m + (i - 1) * (m + q) + m:m + i * (m + q)].dot(out[j - i])
        out.append(M)
    return np.array(out)


def case(rng):
    while True:
        cplx = rng.random() < .3
        n, m, q = rng.randint(1, 4), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        how = rng.choice(['map', 'nilpotent', 'any'])
        if how == 'map' and n < 4:
            A = D.linmap(rng, n, cplx)[0] * .5
        elif how == 'nilpotent':
            A = np.triu(D.rint(rng, n, n, 1, cplx), 1)
        else:
            A = D.rint(rng, n, n, 1, cplx) * .5
        if np.abs(np.linalg.eigvals(A)).max() > 1.01:
            continue
        B, C = D.rint(rng, n, m, 2, cplx), D.rint(rng, q, n, 2, cplx)
        Dd = D.rint(rng, q, m, 2, cplx) if rng.random() < .5 else np.zeros((q, m))
        k = rng.randint(1, n + 3)
        rows = m + (m + q) * k
        N = rng.choice([rows + 2, 2 * rows, 2 * rows + 5, 3 * rows + 10, 60])
        U = D.rint(rng, m, N, rng.choice([1, 3]), cplx and rng.random() < .7)
        if rng.random() < .3:
            U[:, N // 2:] = 0
        if rng.random() < .1 and m == 1:          # an impulse
            U[:] = 0
            U[0, 0] = 1
        y = simulate(A, B, C, Dd, U)
        M = markov(A, B, C, Dd, k)
        if np.abs(y).max() > 1e3 or np.abs(M).max() > 60 or not np.any(U):
            continue
        nz = np.random.default_rng(rng.randrange(10 ** 6))
        # outputs in a unit of their own
        h = rng.choice([0, 0, 0, 20, -20, 10, -10])
        err = [np.abs(reference(U, y * g, k, rc, z) / g - M).max()
               for rc in (None, -1) for z in (None, nz, nz, nz) for g in set([1., 2. ** h])]
        if max(err) < 1e-6:
            break
    bad = rng.random() < .06
    return {'A': modal.jarr(A), 'B': modal.jarr(B), 'C': modal.jarr(C), 'D': modal.jarr(Dd), 'U': lti.pairs(U), 'k': k,
            'form': rng.choice('CFLIM'), 'form2': rng.choice('CFLM'), 'flat': rng.random() < .4,
            'fine': bool(max(err) < 1e-11),
            'cut': rng.choice([[1, 0], [0, 1], [0, 3], [2, 0]]) if bad else [0, 0],
            # inputs and outputs in another unit: the same Markov parameters
            'pow': rng.choice([0, 0, 0, -30, 20]), 'out': h, 'call': rng.choice(['pos', 'kw'])}


def make(batch):
    import random
    rng = random.Random(batch['seed'])
    return [case(rng) for _ in range(batch['n'])]


def one(c):
    f = S.load(1)[0]['modred.okid'].OKID
    A, B, C, Dd = (modal.arr(c[k]) for k in 'ABCD')
    U = lti.carr(c['U'])
    y = simulate(A, B, C, Dd, U)
    u2, y2 = U[:, :U.shape[1] - c['cut'][0]], y[:, :y.shape[1] - c['cut'][1]]
    e = {'e': 'okid', 'A': modal.mat(A), 'B': modal.mat(B), 'C': modal.mat(C), 'D': modal.mat(Dd), 'k': c['k'],
         'nu': u2.shape[1], 'ny': y2.shape[1], 'err': '', 'shape': [], 'M': []}
    if c['flat'] and len(U) == 1:
        u2 = u2[0]
    if c['flat'] and len(y) == 1:
        y2 = y2[0]
    if c['pow']:
        u2, y2 = u2 * 2. ** c['pow'], y2 * 2. ** c['pow']
    g = 2. ** c.get('out', 0)
    if c.get('out'):
        y2 = y2 * g
    a, b = lti.given(u2, c['form']), lti.given(y2, c['form2'])
    try:
        r = f(a, b, c['k']) if c['call'] == 'pos' else f(num_Markovs=c['k'], outputs=b, inputs=a)
        r = np.asarray(r) / g
        e['shape'] = list(r.shape)
        if r.ndim == 3:
            e['M'] = [modal.mat(x) for x in r]
            if c.get('fine'):
                fine.note('same', M=list(markov(A, B, C, Dd, c['k'])), N=list(r))
    except Exception as ex:
        e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
    return {'ev': [e]}


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    cases = []
    if ck.replay is None:
        ck.design('Lti', 'Lti.cfg', name='Lti (observer recursion)')
        n = ck.pick(100, 900)
        for r in ck.map(make, [{'seed': ck.rng.randrange(10 ** 9), 'n': 30} for _ in range(n)], timeout=300, what='generators'):
            cases += r['ok']
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), cases, 'data sets')
    for case, rec in traces:
        ck.count('k=%d' % case['k'])
    fine.judge(ck, traces, ck.pick(600, 6000))
    ck.judge('OkidTrace', traces)
