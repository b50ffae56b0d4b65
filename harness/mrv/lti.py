"""Linear systems with exact data (C18, C19, C21)."""
import numpy as np
from mrv import data as D

NOTINT = 1000000007


def pairs(a):
    return [[[int(z.real), int(z.imag)] for z in r] for r in np.asarray(a).astype(complex).tolist()]


def vpairs(a):
    return pairs([a])[0]


def carr(rows):
    a = np.array([[complex(*z) for z in r] for r in rows])
    return a if np.any(a.imag) else a.real.copy()


def given(a, form):
    if form == 'F':
        return np.asfortranarray(a)
    if form == 'L':
        return a.tolist()
    if form == 'M' and np.ndim(a) == 2:
        return np.matrix(a)
    if form == 'I' and not np.iscomplexobj(a) and np.all(a == np.round(a)) and np.all(np.abs(a) < 2. ** 50):
        return a.astype(int)
    return a


def ints(v):
    """Complex numbers to Gaussian integers; NOTINT if they are none (up to rounding)."""
    out = []
    for z in np.asarray(v).astype(complex).tolist():
        r = []
        for x in (z.real, z.imag):
            y = x if x == x and abs(x) < 1e9 else .5
            r.append(int(round(y)) if abs(y - round(y)) <= 1e-9 * max(1., abs(y)) else NOTINT)
        out.append(r)
    return out


def system(rng, n, m, p, cplx, big=2):
    q = rng.choice([1, 1, 2])
    A = D.rint(rng, n, n, rng.choice([1, 1, 2]), cplx)
    if rng.random() < .3:                     # sparse: shift-like
        A = A * np.array([[rng.random() < .4 for _ in range(n)] for _ in range(n)])
    return {'A': pairs(A), 'B': pairs(D.rint(rng, n, m, big, cplx)), 'C': pairs(D.rint(rng, p, n, big, cplx)), 'q': q}


def lasting(rng, s):
    """The system with a state array whose powers stay small: a signed permutation, or nilpotent."""
    n = len(s['A'])
    p = rng.sample(range(n), n)
    kill = rng.random() < .4
    A = np.zeros((n, n), dtype=complex)
    for i in range(n):
        if kill and p[i] <= i:
            continue
        A[i, p[i]] = rng.choice([1, -1, 1j if np.any(carr(s['B']).imag) else 1])
    return dict(s, A=pairs(A), q=1)


def bounded(A, B, C, q, steps, limit):
    x = np.abs(B).sum(axis=1) * 4 + 4.
    a = np.abs(A)
    for k in range(steps + 1):
        if (np.abs(C).dot(x)).max() * 4 > limit or x.max() * 4 > limit:
            return False
        x = a.dot(x) + 4. * q ** (k + 1) * np.abs(B).sum(axis=1)
    return True


def batched(ck, many, one, cases, what, size=25, timeout=120):
    """Runs the cases in batches; one trace per case."""
    if ck.replay is not None:
        return ck.observe(one, cases, what=what, timeout=timeout)
    bs = [{'batch': cases[i:i + size]} for i in range(0, len(cases), size)]
    traces = []
    for b, r in ck.observe(many, bs, what='batches of ' + what, timeout=timeout):
        traces += list(zip(b['batch'], r))
    return traces
