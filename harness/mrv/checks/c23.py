"""C23  Matrix decompositions are correct and truncated exactly at the tolerances."""
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S


def signed(rng, n, cplx):
    """A unitary array with entries 0 and units: products with it are exact."""
    p = rng.sample(range(n), n)
    Q = np.zeros((n, n), dtype=complex)
    for i in range(n):
        Q[i, p[i]] = rng.choice([1, -1] + ([1j, -1j] if cplx else []))
    return Q


def clean(a):
    return a if np.any(np.asarray(a).imag) else np.asarray(a).real.copy()


def far(vals, t):
    """No value is near the threshold t."""
    return all(abs(abs(v) - t) > .05 * t + .02 for v in vals)


def tols(rng, vals, exact, atols):
    """Tolerances for a spectrum: (atol, rtol), None: not given; 'd': the default."""
    vals = sorted([abs(v) for v in vals], reverse=True)
    big = vals[0]
    for _ in range(200):
        a = rng.choice(atols)
        r = rng.choice([None, None, 'x', 'x'])
        if a == 'x':
            if exact and rng.random() < .6:
                a = rng.choice(vals + [vals[-1] / 2, big * 2])
                if a == 0:
                    continue
            else:
                a = rng.uniform(.05, 1.2) * big
        if r == 'x':
            if exact and rng.random() < .6:
                r = rng.choice([1., .5, .25, .125, 2.])
            else:
                r = rng.uniform(.02, 1.1)
        if not exact and not all(far(vals, t) for t in (a if a not in (None, 'd') else 0, (r or 0) * big) if t):
            continue
        if big == 0 and r is not None:
            continue
        return a, r
    return 'd', None


def spectral(rng, kind):
    cplx = rng.random() < .45
    how = rng.choice(['exact', 'exact', 'random', 'random', 'lowrank', 'graded', 'degenerate'])
    n = rng.randint(1, 5)
    m = n if kind == 'eigh' else rng.randint(1, 5)
    if how == 'degenerate' and kind == 'svd':
        A = rng.choice([np.zeros((n, m)), np.ones((n, m)), np.eye(n, m)])
    elif how in ('exact', 'degenerate'):
        d = [rng.choice([8., 4., 2., 2., 1., 1., .5, .25, 0.]) for _ in range(min(n, m))]
        if kind == 'eigh':
            d = [x * rng.choice([1, 1, 1, -1]) for x in d]
        Dm = np.zeros((n, m))
        for i, x in enumerate(d):
            Dm[i, i] = x
        Q = signed(rng, n, cplx)
        A = Q.dot(Dm).dot(Q.conj().T if kind == 'eigh' else signed(rng, m, cplx))
        how = 'exact'
    elif how == 'lowrank':
        k = rng.randint(1, min(n, m))
        L = D.rint(rng, n, k, 2, cplx)
        A = L.dot(np.diag([rng.choice([1, 1, -1]) for _ in range(k)])).dot(L.conj().T) if kind == 'eigh' \
            else L.dot(D.rint(rng, k, m, 2, cplx))
    else:
        A = D.rint(rng, n, m, 3, cplx)
        if how == 'graded':
            A = A * np.array([[rng.choice([1., .5, .25])] for _ in range(n)])
        if kind == 'eigh':
            A = A + A.conj().T if rng.random() < .5 else A.dot(A.conj().T) / 2.
    if np.abs(A).max() > 40:
        return spectral(rng, kind)
    A = clean(A)
    vals = np.linalg.svd(A, compute_uv=False) if kind == 'svd' else np.linalg.eigvalsh(A)
    vals = np.where(np.abs(vals) < 1e-9, 0, vals)
    shift = rng.choice([0, 0, 0, 0, -30, 20, -45, -46, -200, 100])
    cuts = []
    for _ in range(rng.randint(2, 5)):
        pd = kind == 'eigh' and rng.random() < .5
        a, r = tols(rng, vals, how == 'exact', ['d', 'd', 'x', 'x', None])
        if pd:
            neg = -min(0., vals.min())
            if (neg > 0 and how != 'exact' and not all(far([v], neg) for v in vals if v > 0)) or \
                    (np.any(vals == 0) and neg == 0 and a is None):
                continue
        if a is None and r is None and not pd:
            continue
        if a == 'd':
            t = 1e-13 / 2. ** shift
            if not all(far([v], t) for v in vals if v) or (np.any(vals == 0) and np.abs(A).max() * 2e-15 > t):
                continue
        if a is None and r is not None and r < .01:
            continue
        cuts.append({'a': a, 'r': r, 'pd': pd, 'call': rng.choice(['kw', 'kw', 'pos'])})
    return {'e': kind, 'A': modal.jarr(A), 'cuts': cuts, 'shift': shift, 'form': rng.choice('CFLIM')}


def biorth(rng):
    while True:
        cplx = rng.random() < .4
        n = rng.randint(1, 4)
        A, d = D.linmap(rng, n, cplx)
        R = np.linalg.eig(A)[1]
        if D.cond(R) < 20 and np.abs(A).max() < 30 and \
                min([9] + [abs(a - b) for i, a in enumerate(d) for b in d[:i]]) > .2:
            break
    return {'e': 'biorth', 'A': modal.jarr(A), 'side': rng.choice(['left', 'right', 'left', 'right', 'LEFT', 'Right', None]),
            'form': rng.choice('CFLIM'), 'call': rng.choice(['kw', 'pos'])}


def steep(rng):
    """Singular values from 1 down to 2^-17: all of them to many digits (LAPACK's are, relative to the largest)."""
    c = modal.graded_case(rng, 'svd')
    return {'e': 'steep', 'A': c['X'], 'd': c['d'], 'form': c['order'], 't': rng.random() < .4}


def gen(ck):
    rng = ck.rng
    return [spectral(rng, 'svd') for _ in range(ck.pick(1200, 12000))] + \
        [spectral(rng, 'eigh') for _ in range(ck.pick(1200, 12000))] + \
        [steep(rng) for _ in range(ck.pick(100, 1000))] + \
        [biorth(rng) for _ in range(ck.pick(500, 6000))]


def sized(a, n):
    """An n x 0 array has rows without entries."""
    m = modal.mat(a)
    return m if len(m) else [[]] * (np.asarray(a).shape[0] if np.asarray(a).ndim == 2 else 0)


def one(case):
    u = S.load(1)[0]['modred.util']
    ev = []
    A = modal.arr(case['A'])
    try:
        if case['e'] == 'biorth':
            a = lti.given(A, case['form'])
            side = case['side']
            w, R, L = u.eig_biorthog(a) if side is None else u.eig_biorthog(a, side) if case['call'] == 'pos' else \
                u.eig_biorthog(a, scale_choice=side)
            if D.cond(R) < 30:
                fine.note('biorth', A=A, S=np.diag(w), R=R, L=L)
            return {'ev': [{'e': 'biorth', 'A': modal.mat(A), 'w': modal.cvec(w), 'R': modal.mat(R), 'L': modal.mat(L),
                            'side': (side or 'left').lower()}]}
        if case['e'] == 'steep':
            X = A.conj().T if case['t'] else A
            U, d, V = u.svd(lti.given(X, case['form']), atol=1e-9)
            fine.note('svd', A=X, U=U, V=V, S=np.diag(d))
            fine.note('same', M=[np.asarray(d) / case['d']], N=[np.ones(len(case['d']))])
            return {'ev': []}
        k = 2. ** case['shift']
        x = lti.given(A * k, case['form'])
        f = getattr(u, case['e'])

        def out(name, r, **more):
            if case['e'] == 'svd':
                U, d, V = r
            else:
                d, V = r
                U = V
            if len(d):
                if case['e'] == 'svd':
                    fine.note('svd', A=A, U=U, V=V, S=np.diag(np.asarray(d) / k))
                else:
                    fine.note('eigh', A=A, V=V, S=np.diag(np.asarray(d) / k))
            ev.append(dict(more, e=name, kind=case['e'], A=modal.mat(A), U=sized(U, len(A)), V=sized(V, A.shape[1]),
                           d=modal.vec(np.asarray(d) / k)))
        out('full', f(x, atol=None, rtol=None))
        for c in case['cuts']:
            kw = {}
            atol = 1e-13 / k if c['a'] == 'd' else c['a']
            if c['a'] != 'd':
                kw['atol'] = None if c['a'] is None else c['a'] * k
            if c['r'] is not None:
                kw['rtol'] = c['r']
            if c['call'] == 'pos' and c['a'] != 'd':
                r = f(x, kw['atol'], c['r'], True) if c['pd'] else f(x, kw['atol'], c['r'])
            else:
                if c['pd']:
                    kw['is_positive_definite'] = True
                r = f(x, **kw)
            out('cut', r, atol=-1 if atol is None else min(modal.fx(atol), 1000000000),
                rtol=-1 if c['r'] is None else modal.fx(c['r']), pd=c['pd'])
    except Exception as ex:
        ev.append({'e': 'error', 'what': '%s: %s' % (type(ex).__name__, str(ex)[:160])})
    return {'ev': ev}


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), gen(ck) if ck.replay is None else [], 'arrays', size=40)
    for case, rec in traces:
        ck.count(case['e'])
    fine.judge(ck, traces, ck.pick(400, 3000))
    ck.judge('MatrixTrace', [x for x in traces if x[0]['e'] != 'steep' or x[1]['ev']])
