"""C26  Balanced truncation balances the discrete-time system."""
import numpy as np
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S

DY = [0., .5, -.5, .25, -.25, .75, -.75, .625, .125]


def gramians(A, B, C):
    """For the choice of cases only."""
    X, Y = np.zeros(A.shape, dtype=complex), np.zeros(A.shape, dtype=complex)
    P, Q = B.dot(B.conj().T).astype(complex), C.conj().T.dot(C).astype(complex)
    F = A.astype(complex)
    for _ in range(14):                       # doubling
        X, Y = (P + F.dot(P).dot(F.conj().T), Q + F.conj().T.dot(Q).dot(F))
        P, Q, F = X, Y, F.dot(F)
    return P, Q


def unimodular(rng, n, cplx):
    T = np.eye(n, dtype=complex if cplx else float)
    Ti = T.copy()
    for _ in range(rng.randint(0, n)):
        i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
        if i == j:
            break
        E = np.eye(n, dtype=T.dtype)
        k = rng.choice([1, -1] + ([1j] if cplx else []))
        E[i, j] = k
        F = np.eye(n, dtype=T.dtype)
        F[i, j] = -k
        T, Ti = T.dot(E), F.dot(Ti)
    return T, Ti


def rand(rng, n, m, cplx, vals=(-2, -1, -1, 0, 1, 1, 2)):
    a = np.array([[rng.choice(vals) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
    if cplx:
        a = a + 1j * np.array([[rng.choice(vals) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
    return a


def gen(ck):
    rng = ck.rng
    out = []
    while len(out) < ck.pick(1500, 20000):
        cplx = rng.random() < .4
        how = rng.choice(['decoupled', 'fir', 'general', 'general', 'general', 'hidden', 'weak'])
        n = rng.randint(1, 5 if how != 'decoupled' else 4)
        hsv = None
        if how == 'decoupled':
            a = [rng.choice(DY) * (1 if not cplx else rng.choice([1, -1, 1j])) for _ in range(n)]
            b = [rng.choice([.5, 1, 1, 2]) * (1 if not cplx else rng.choice([1, 1j])) for _ in range(n)]
            cc = [rng.choice([.5, 1, -1, 2]) for _ in range(n)]
            A, B, C = np.diag(a), np.diag(b), np.diag(cc)
            m, p = n, n
            B = B.dot(np.eye(n)[rng.sample(range(n), n)])
            C = np.eye(n)[rng.sample(range(n), n)].dot(C)
            hsv = sorted([abs(x * y) / (1 - abs(z) ** 2) for x, y, z in zip(b, cc, a)], reverse=True)
        else:
            m, p = rng.randint(1, 3), rng.randint(1, 3)
            if how == 'fir':
                A = np.triu(rand(rng, n, n, cplx, (-1, 0, 1)), 1)
            else:
                A = np.triu(rand(rng, n, n, cplx, (-.5, 0, 0, .25, .5)), 1) + \
                    np.diag([rng.choice(DY) * (1 if not cplx else rng.choice([1, 1j])) for _ in range(n)])
                if not cplx and n > 1 and rng.random() < .5:          # a pair of complex eigenvalues
                    A[:2, :2] = rng.choice([[[.5, .5], [-.5, .5]], [[0, .75], [-.75, 0]], [[.25, -.5], [.5, .25]]])
            B, C = rand(rng, n, m, cplx), rand(rng, p, n, cplx)
            if how == 'hidden' and n > 1:
                # states which cannot be reached or observed
                h = rng.randint(1, n - 1)
                A[h:, :h] = 0
                if rng.random() < .5:
                    B[h:] = 0
                else:
                    A[:h, h:] = 0
                    C[:, h:] = 0
            if how == 'weak':
                # states which take little part (but more than rounding errors)
                z = rng.randint(1, 2)
                g = 2. ** rng.uniform(-8.5, -6.75)
                A = np.vstack([np.hstack([A, np.zeros((n, z))]),
                               np.hstack([np.zeros((z, n)), np.diag(rng.sample(DY[1:], z))])])
                B = np.vstack([B, g * rand(rng, z, m, cplx, (-1, 1))])
                C = np.hstack([C, g * rand(rng, p, z, cplx, (-1, 1))])
                n += z
        T, Ti = unimodular(rng, n, cplx)
        A, B, C = Ti.dot(A).dot(T), Ti.dot(B), C.dot(T)
        P, Q = gramians(A, B, C)
        if max(np.abs(P).max(), np.abs(Q).max()) > 300 or np.abs(A).max() > 8:
            continue
        s = np.sqrt(np.abs(np.sort(np.linalg.eigvals(P.dot(Q)).real)[::-1]))
        # the nonminimal part is numerically zero, the rest is clearly not
        if how == 'hidden':
            least = int(np.sum(s > 1e-4))
            if least == 0 or least == n or np.any(s[least:] > 1e-6):
                continue
        elif how == 'weak':
            least = int(np.sum(s > .01))
            # all of them clearly there: controllable and observable well above rounding errors
            if min(np.linalg.eigvalsh(P)[0], np.linalg.eigvalsh(Q)[0]) < 3e-7:
                continue
            if least == 0 or least == n or s[least] > 1.1e-4 or s[-1] < 4e-6:
                continue
        else:
            least = n
        s = s[:least]
        if s[-1] < .02 * s[0] or s[-1] < .05 or s[0] > 20 or np.any(s[:-1] - s[1:] < .06 * s[:-1] + .01):
            continue
        form = rng.choice('CCFLIM')
        calls = []
        for _ in range(rng.randint(1, 4)):
            calls.append({'order': rng.choice([-1] + list(range(1, least + 1))), 'sv': rng.random() < .5,
                          'call': rng.choice(['pos', 'kw'])})
        if rng.random() < .1:
            calls.append({'order': n + rng.randint(1, 3), 'sv': True, 'call': 'kw'})
        out.append({'A': modal.jarr(A), 'B': modal.jarr(B), 'C': modal.jarr(C), 'form': form, 'calls': calls, 'how': how,
                    'hsv': hsv, 'least': least, 'kept': n if how == 'weak' else least,
                    # the same model, in other units of its input (and output)
                    'shift': rng.choice([0, 0, rng.randint(-24, 24)]),
                    # and both in other units: the singular values are in the square of it
                    'pow': rng.choice([0, 0, 0, -24, -12, 10, 30])})
    return out


def one(case):
    u = S.load(1)[0]['modred.util']
    A, B, C = (modal.arr(case[k]) for k in 'ABC')
    ev = [{'e': 'begin', 'A': modal.mat(A), 'B': modal.mat(B), 'C': modal.mat(C), 'least': case['least'],
           'kept': case.get('kept', case['least']),
           'hsv': [modal.fx(x) for x in case['hsv'] or []], 'steps': 2 * len(A) + 1}]
    for k, call in enumerate([{'order': -1, 'sv': True, 'call': 'kw'}] + case['calls']):
        h, g = 2. ** case['shift'], 2. ** case['pow']
        a, b, c = (lti.given(x, case['form'] if x is A or case['shift'] == case['pow'] == 0 or case['form'] != 'I' else 'C')
                   for x in (A, B * h * g, C / h * g))
        e = {'e': 'model', 'order': call['order'], 'asked': call['sv'], 'A': [], 'B': [], 'C': [], 'sv': [], 'err': ''}
        try:
            order = None if call['order'] < 0 else call['order']
            if call['call'] == 'pos':
                r = u.balanced_truncation(a, b, c, order, call['sv'])
            else:
                kw = {} if order is None and k % 2 else {'order': order}
                if call['sv']:
                    kw['return_sing_vals'] = True
                r = u.balanced_truncation(A=a, B=b, C=c, **kw)
            if len(r) != (4 if call['sv'] else 3):
                e['err'] = '%d results' % len(r)
            else:
                if case['how'] in ('decoupled', 'fir', 'general') and np.shape(r[0]) == A.shape:
                    M, X = [], B
                    for _ in range(len(A) + 2):
                        M.append(C.dot(X))
                        X = A.dot(X)
                    if call['sv']:
                        fine.note('balanced', A=r[0], B=np.asarray(r[1]) / g, C=np.asarray(r[2]) / g,
                                  S=np.diag(np.asarray(r[3]) / g ** 2), M=M)
                e.update(A=modal.mat(r[0]), B=modal.mat(np.asarray(r[1]) / g), C=modal.mat(np.asarray(r[2]) / g))
                if call['sv']:
                    e['sv'] = modal.vec(np.asarray(r[3]) / g ** 2)
        except Exception as ex:
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
        ev.append(e)
    return {'ev': ev}


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), gen(ck) if ck.replay is None else [], 'systems')
    for case, rec in traces:
        ck.count(case['how'])
    fine.judge(ck, traces, ck.pick(120, 1500))
    ck.judge('BalTrace', traces)
    ck.assumptions += ['Hankel singular values are between 0.05 and 20 and clearly different from each other '
                       '(those of unreachable or unobservable states are zero)',
                       'results are compared in fixed point (1/8192) with relative tolerances of 1/60 to 1/15']
