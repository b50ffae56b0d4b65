"""Test data: small well-conditioned integer data and linear systems."""
import numpy as np


def rint(rng, n, m, hi=3, cplx=False):
    a = np.array([[rng.randint(-hi, hi) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
    if cplx:
        a = a + 1j * np.array([[rng.randint(-hi, hi) for _ in range(m)] for _ in range(n)]).reshape(n, m)
    return a


def cond(a):
    s = np.linalg.svd(a, compute_uv=False)
    return np.inf if s.size == 0 or s[-1] <= 1e-9 * max(1, s[0]) else s[0] / s[-1]


def well(rng, n, m, hi=3, cplx=False, limit=15., gap=0.0, tries=400):
    """Random integer n x m array of full rank min(n, m), condition number below limit, and
    (gap > 0) singular values separated by that relative gap."""
    for t in range(tries):
        a = rint(rng, n, m, hi, cplx)
        if cond(a) > limit:
            continue
        s = np.linalg.svd(a, compute_uv=False)
        if gap and np.any(-np.diff(s ** 2) < gap * s[:-1] ** 2):
            continue
        return a
    if limit < 1e5:
        return well(rng, n, m, hi, cplx, limit * 2, gap / 2, tries)
    raise RuntimeError('no well-conditioned array %dx%d' % (n, m))


def unimodular(rng, n, cplx=False, steps=3):
    s = np.eye(n, dtype=complex if cplx else float)
    for _ in range(steps if n > 1 else 0):
        i, j = rng.sample(range(n), 2)
        k = rng.choice([1, -1]) * (rng.choice([1, 1j]) if cplx else 1)
        s[i] = s[i] + k * s[j]
    return s


def linmap(rng, n, cplx=False, eigs=None):
    """A = S D S^-1 with unimodular S; D has distinct moderate eigenvalues (complex pairs as
    rotation blocks when A is real).  Returns A, eigenvalues."""
    S = unimodular(rng, n, cplx)
    if cplx:
        pool = [1, -1, 1j, -1j, .5, -.5, .5j, 1 + .5j, 1 - .5j, 1.5]
        d = rng.sample(pool, n)
        D = np.diag(np.array(d, dtype=complex))
    else:
        D = np.zeros((n, n))
        d = []
        k = 0
        pool = [1., -1., .5, -.5, 1.5, -1.5, .25]
        rng.shuffle(pool)
        rots = [(1, 1), (.5, 1), (0, 1), (1, .5)]
        rng.shuffle(rots)
        while k < n:
            if k + 1 < n and rng.random() < .4 and rots:
                a, b = rots.pop()
                D[k:k + 2, k:k + 2] = [[a, -b], [b, a]]
                d += [complex(a, b), complex(a, -b)]
                k += 2
            else:
                D[k, k] = pool.pop()
                d.append(D[k, k])
                k += 1
    Sinv = np.linalg.inv(S)
    Sinv = np.round(Sinv.real) + (1j * np.round(Sinv.imag) if cplx else 0)
    A = S.dot(D).dot(Sinv)
    return A, np.array(d)


def dmd_data(rng, n, r, m, cplx=False, seq=True, limit=40., maxval=60):
    """Data of dimension n advanced by a linear map whose range on the data has dimension
    r <= n; m snapshots pairs.  Returns (X, Y): Y = A X.  If seq, Y = X shifted."""
    for t in range(3000):
        A, d = linmap(rng, r, cplx)
        lift = well(rng, n, r, 1, cplx, 8.)
        if seq:
            x = rint(rng, r, 1, 2, cplx)
            cols = [x]
            for _ in range(m):
                cols.append(A.dot(cols[-1]))
            Z = np.hstack(cols)
        else:
            X0 = rint(rng, r, m, 2, cplx)
            Z = None
        if seq:
            X, Y = Z[:, :-1], Z[:, 1:]
        else:
            X, Y = X0, A.dot(X0)
        if np.linalg.matrix_rank(X) < min(r, m):
            continue
        X, Y = lift.dot(X), lift.dot(Y)
        s = np.linalg.svd(X, compute_uv=False)
        k = min(r, m)
        if s[k - 1] < s[0] / limit or np.abs(X).max() > maxval or np.abs(Y).max() > maxval:
            continue
        return X, Y, A, d
    raise RuntimeError('no DMD data')


def tolist(a):
    """Array columns to JSON vectors of [re, im] pairs."""
    a = np.asarray(a)
    return [[[float(z.real), float(z.imag)] for z in a[:, j]] for j in range(a.shape[1])]


def bpod_data(rng, n, p, q, steps_d, steps_a, cplx=False):
    """Direct and adjoint impulse response snapshots of a random system."""
    for t in range(500):
        A, d = linmap(rng, n, cplx)
        A = A * 0.5
        B, C = rint(rng, n, p, 2, cplx), rint(rng, q, n, 2, cplx)
        X = [B]
        for _ in range(steps_d - 1):
            X.append(A.dot(X[-1]))
        Y = [C.conj().T]
        for _ in range(steps_a - 1):
            Y.append(A.conj().T.dot(Y[-1]))
        X, Y = np.hstack(X), np.hstack(Y)
        H = Y.conj().T.dot(X)
        s = np.linalg.svd(H, compute_uv=False)
        r = int(np.sum(s > 1e-9 * s[0])) if s[0] > 0 else 0
        if r == 0 or s[r - 1] < s[0] / 200. or np.abs(X).max() > 40 or np.abs(Y).max() > 40:
            continue
        return X, Y, A, B, C, r
    raise RuntimeError('no BPOD data')
