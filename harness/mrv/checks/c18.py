"""C18  ERA models reproduce the impulse response."""
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S


def response(A, B, C, n):
    out, X = [], B
    for _ in range(n):
        out.append(C.dot(X))
        X = A.dot(X)
    return np.array(out)


def times_of(P, nt):
    """[0 1 P P+1 2P 2P+1 ...]"""
    return [P * (k // 2) + k % 2 for k in range(nt)]


def hankel(M, mo, mc):
    return np.vstack([np.hstack([M[2 * (i + j)] for j in range(mc)]) for i in range(mo)])


def order(A, B, C):
    n = len(A)
    M = response(A, B, C, 2 * n)
    H = np.vstack([np.hstack([M[i + j] for j in range(n)]) for i in range(n)])
    return int(np.linalg.matrix_rank(H, tol=1e-8))


def sizes(rng, nt):
    """Admissible sizes, mostly."""
    tot = (nt - nt % 2 + 2) // 2
    if rng.random() < .12:
        tot += rng.randint(1, 2)
        mo = rng.randint(1, max(1, tot - 1))
        return tot - mo, mo
    if tot < 2:
        return 1, 1
    t = tot if rng.random() < .5 else rng.randint(2, tot)
    mo = rng.randint(1, t - 1)
    return t - mo, mo


def effective(obj, call, nt):
    mc, mo = (c if c is not None else o for c, o in zip(call, obj))
    if mc is None and mo is None:
        return [(nt - nt % 2 + 2) // 4] * 2
    if mc is None or mo is None:
        return None
    return mc, mo


def session(rng):
    """One object, several models of one system."""
    while True:
        cplx = rng.random() < .35
        n = rng.randint(1, 3)
        m, p = rng.randint(1, 3), rng.randint(1, 3)
        A, d = D.linmap(rng, n, cplx)
        A = A * rng.choice([.5, .5, 1.])
        if n > 1 and rng.random() < .2:
            A[:, -1] = 0
        B, C = D.rint(rng, n, m, 2, cplx), D.rint(rng, p, n, 2, cplx)
        if np.abs(response(A, B, C, 12)).max() > 60 or not np.any(B) or not np.any(C):
            continue
        k = order(A, B, C)
        if k > 0:
            break
    obj = [None, None]
    calls = []
    for i in range(rng.randint(1, 4)):
        what = rng.choice(['model', 'model', 'model', 'func', 'sampled'])
        P = rng.choice([0, 0, 2, 3])               # 0: 0 1 1 2 2 3 ... by make_sampled_format
        nt = rng.choice([2, 3, 4, 6, 7, 8, 10, 12, 14, 18])
        if what == 'sampled':
            calls.append(sampled(rng, m, p, cplx))
            continue
        calls.append({'what': what, 'P': P, 'nt': nt, 'ndim': rng.choice([1, 2, 3, 3]), 'form': rng.choice('CFLM'),
                      'mc': None, 'mo': None, 'ns': k})
    full = [c for c in calls if c['what'] != 'sampled']
    if full and rng.random() < .5:
        obj = list(sizes(rng, rng.choice(full)['nt']))
        if rng.random() < .15:
            obj[rng.randrange(2)] = None
    for c in full:
        if c['what'] == 'model' and rng.random() < .4:
            c['mc'], c['mo'] = sizes(rng, c['nt'])
            if rng.random() < .15:
                c[rng.choice(['mc', 'mo'])] = None
        z = effective([None, None] if c['what'] == 'func' else obj, [c['mc'], c['mo']], c['nt'])
        c['exact'] = False
        M = samples(response(A, B, C, 40), c)
        if c['what'] == 'model' and rng.random() < .1:       # too few samples
            c['nt'] = rng.choice([0, 1, 2])
        elif z is not None and z[0] > 0 and z[1] > 0 and 2 * sum(z) - 2 <= len(M):
            sv = np.linalg.svd(hankel(M, z[1], z[0]), compute_uv=False)
            r = int(np.sum(sv > 1e-9 * max(1., sv[0])))
            if r < 1 or (r < len(sv) and sv[r] > 1e-11) or sv[r - 1] < .3 or sv[0] > 400:
                return session(rng)
            c['ns'] = rng.choice([r, k]) if r == k else rng.randint(1, r)
            if rng.random() < .2:
                c['ns'] = rng.randint(1, r)
            c['exact'] = bool(c['ns'] == k == r and sv[r - 1] > sv[0] / 40. and sv[r - 1] > .5)
        elif z is None:
            c['ns'] = 1
        if c['what'] == 'func' and not c['exact']:
            return session(rng)
        if c['what'] == 'model' and rng.random() < .4:
            c['put'] = rng.choice(['model', 'decomp', 'sing'])
    return {'A': lti2(A), 'B': lti2(B), 'C': lti2(C), 'obj': obj, 'calls': calls, 'verb': rng.choice([0, 1]),
            # the outputs in another unit, a power of four
            'pow': rng.choice([0, 0, 0, -8, -12])}


def lti2(a):
    return modal.jarr(a)


def sampled(rng, m, p, cplx):
    nt = rng.choice([0, 1, 2, 2, 3, 4, 5, 9])
    dt = rng.choice([1., 1., 2., .5, .1, .01, 3])
    t0 = rng.choice([0, 0, 0, 5., -2.])
    M = D.rint(rng, nt * p, m, 5, cplx)
    off = [0.] * nt
    how = rng.choice(['even', 'even', 'jitter', 'uneven', 'length'])
    tol = rng.choice([None, None, 1e-3])
    if nt > 1 and how == 'jitter':
        off = [rng.choice([0, 2e-8, -2e-8]) for _ in range(nt)]
    if nt > 2 and how == 'uneven':
        off[rng.randrange(nt)] = rng.choice([1., -1.]) * dt * rng.choice([.5, .1])
        if tol and dt == .01:                      # not at the tolerance itself
            off = [x * 3 for x in off]
        if rng.random() < .3:                      # beyond the default tolerance, but not by much
            off = [0.] * nt
            off[-1] = 5e-5
    return {'what': 'sampled', 'M': modal.jarr(M), 'nt': nt, 'p': p, 'm': m, 'dt': dt, 't0': t0, 'off': off, 'tol': tol,
            'extra': rng.choice([-1, 1, 2]) if how == 'length' and nt > 1 else 0, 'form': rng.choice('CFLIM')}


def samples(M, c):
    """The samples of a call, from the impulse response M."""
    if c['P'] == 0:
        nt = c['nt'] // 2 + 1
        M = M[:nt]
        return np.array([M[k // 2 + k % 2] for k in range(2 * (nt - 1))]).reshape((-1,) + M.shape[1:])
    return M[times_of(c['P'], c['nt'])]


def structure(rng):
    """Any arrays in place of Markov parameters; sizes and Hankel arrays."""
    m, p, nt = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 14)
    cplx = rng.random() < .35
    obj = [None, None]
    if rng.random() < .5:
        obj = list(sizes(rng, nt))
        if rng.random() < .2:
            obj[rng.randrange(2)] = None
    calls = []
    for _ in range(rng.randint(1, 3)):
        nt = rng.choice([nt, nt, rng.randint(1, 14)])
        c = {'what': 'model', 'M': modal.jarr(D.rint(rng, nt * p, m, 3, cplx) * rng.choice([1, .5, .125])), 'nt': nt,
             'p': p, 'm': m, 'ndim': rng.choice([1, 2, 3, 3]), 'form': rng.choice('CFLIM'), 'mc': None, 'mo': None,
             'exact': False, 'ns': 1}
        if rng.random() < .5:
            c['mc'], c['mo'] = sizes(rng, nt)
        if rng.random() < .4:
            c['put'] = rng.choice(['model', 'decomp', 'sing'])
        calls.append(c)
    return {'A': None, 'B': None, 'C': None, 'obj': obj, 'calls': calls, 'verb': 0, 'pow': 0}


def ok(case):
    """The singular values are clear of the truncation level and of each other's noise."""
    for c in case['calls']:
        if c.get('M') is not None and c['what'] == 'model':
            z = effective(case['obj'], [c['mc'], c['mo']], c['nt'])
            a = modal.arr(c['M']).reshape(c['nt'], c['p'], c['m'])
            tot = (c['nt'] - c['nt'] % 2 + 2) // 2
            if z is None:
                mc, mo = (x if x is not None else y for x, y in zip([c['mc'], c['mo']], case['obj']))
                zs = [(mc or j, mo or j) for j in range(1, tot + 1)]
            else:
                zs = [z]
            for z in zs:
                if min(z) < 1 or sum(z) > tot:
                    continue
                sv = np.linalg.svd(hankel(a, z[1], z[0]), compute_uv=False)
                r = int(np.sum(sv > 1e-9 * max(1., sv[0])))
                if r < 1 or sv[r - 1] < .3 or sv[0] > 100 or (r < len(sv) and sv[r] > 1e-11):
                    return False
                c['ns'] = min(c['ns'], r)
    return True


def gen(ck):
    rng = ck.rng
    out = [session(rng) for _ in range(ck.pick(600, 9000))]
    n = ck.pick(400, 5000)
    while n:
        c = structure(rng)
        if ok(c):
            for x in c['calls']:
                x['ns'] = 1
            out.append(c)
            n -= 1
    return out


def three(a):
    return [modal.mat(x) for x in a]


def one(case):
    M = S.load(1)[0]['modred.era']
    A, B, C = (modal.arr(case[k]) if case[k] else None for k in 'ABC')
    size = lambda x: -1 if x is None else x
    ev = [{'e': 'begin', 'mc': size(case['obj'][0]), 'mo': size(case['obj'][1]), 'steps': 10 if A is not None else 0,
           'A': modal.mat(A), 'B': modal.mat(B), 'C': modal.mat(C)}]
    box = {}
    kw = {'verbosity': case['verb'], 'put_array': lambda a, d: box.__setitem__(d, np.array(a))}
    if case['obj'][0] is not None:
        kw['mc'] = case['obj'][0]
    if case['obj'][1] is not None:
        kw['mo'] = case['obj'][1]
    obj = M.ERA(**kw)
    resp = None if A is None else response(A, B, C, 40)
    for c in case['calls']:
        if c['what'] == 'sampled':
            ev.append(run_sampled(M, c))
            continue
        if 'M' in c:
            X = modal.arr(c['M']) if c['nt'] else np.zeros((0, c['m']))
            X = X.reshape(c['nt'], c['p'], c['m'])
        elif c['P'] == 0 and c['nt'] >= 2:
            nt = c['nt'] // 2 + 1
            X = samples(resp, c)
            try:
                X2 = M.make_sampled_format(np.arange(nt), resp[:nt])[1]
            except Exception:
                X2 = X
            X = X2 if X2.shape == X.shape else X     # what it returns is judged by the sampled events
        else:
            X = resp[times_of(max(c['P'], 2), c['nt'])]
        Y = X
        if c['ndim'] < 3 and X.shape[2] == 1 and (c['ndim'] == 2 or X.shape[1] == 1):
            Y = X[:, :, 0] if c['ndim'] == 2 else X[:, 0, 0]
        h = 2. ** case['pow']
        Y = lti.given(Y if h == 1 else Y * h ** 2, c['form'])
        if len(X) == 0:
            Y = np.zeros((0,) + X.shape[1:])
        e = {'e': c['what'], 'M': three(X), 'ns': c['ns'], 'exact': c['exact'], 'err': '', 'mc': size(c['mc']),
             'mo': size(c['mo']), 'rmc': -9, 'rmo': -9, 'H': [], 'H2': [], 'sv': [], 'L': [], 'R': [],
             'A': [], 'B': [], 'C': []}
        ev.append(e)
        try:
            if c['what'] == 'func':
                a, b, cc = M.compute_ERA_model(Y, c['ns'])
            else:
                k = {x: c[x] for x in ('mc', 'mo') if c[x] is not None}
                a, b, cc = obj.compute_model(Y, c['ns'], **k)
                e.update(rmc=int(obj.mc), rmo=int(obj.mo), H=modal.mat(inunit('H', obj.Hankel_array, h)),
                         H2=modal.mat(inunit('H2', obj.Hankel_array2, h)), sv=modal.vec(inunit('sv', obj.sing_vals, h)), L=modal.mat(obj.L_sing_vecs), R=modal.mat(obj.R_sing_vecs))
            note(c, case, e, X, obj if c['what'] == 'model' else None, a, b, cc, h, A, B, C)
            e.update(A=modal.mat(a), B=modal.mat(inunit('B', b, h)), C=modal.mat(inunit('C', cc, h)))
        except Exception as ex:
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
            continue
        if c.get('put'):
            ev.append(run_put(obj, c, e, box, h))
    return {'ev': ev}


def note(c, case, e, X, obj, a, b, cc, h, A, B, C):
    """The decomposition and the model; and that it reproduces the system, when it has to."""
    a, b, cc = np.asarray(a), np.asarray(b) / h, np.asarray(cc) / h
    if c['exact'] and A is not None:
        fine.note('model', A=a, B=b, C=cc, M=list(response(A, B, C, 8)))
    if obj is None or a.ndim != 2 or b.ndim != 2 or cc.ndim != 2:
        return
    sv = np.asarray(obj.sing_vals) / h ** 2
    if not len(sv) or sv[-1] < sv[0] * 1e-4 or sv[-1] < .01:
        return
    k = len(a)
    s = np.zeros((len(sv), k))
    s[:k] = np.diag(sv[:k] ** .5)
    t = np.zeros((len(sv), k))
    t[:k] = np.diag(sv[:k] ** -.5)
    L, R = np.asarray(obj.L_sing_vecs), np.asarray(obj.R_sing_vecs)
    fine.note('era', H=obj.Hankel_array / h ** 2, H2=obj.Hankel_array2 / h ** 2, S=np.diag(sv), L=L, R=R, T=t.T, G=t, Q=s.T, Qc=s,
              A=a, B=b, C=cc, Eb=np.eye(len(R))[:, :X.shape[2]], Ec=np.eye(len(L))[:X.shape[1]])


def inunit(name, a, h):
    """A result for outputs in another unit, in the first one."""
    k = {'H': 2, 'H2': 2, 'sv': 2, 'B': 1, 'C': 1}.get(name, 0)
    return a if h == 1 or k == 0 else np.asarray(a) / h ** k


def run_put(obj, c, e, box, h):
    box.clear()
    want = {'model': ['A', 'B', 'C'], 'decomp': ['sv', 'L', 'R', 'H', 'H2'], 'sing': ['sv']}[c['put']]
    out = {'e': 'put', 'want': [[k, e[k]] for k in sorted(want)], 'got': []}
    try:
        getattr(obj, {'model': 'put_model', 'decomp': 'put_decomp', 'sing': 'put_sing_vals'}[c['put']])(*want)
        out['got'] = [[k, (modal.vec if k == 'sv' else modal.mat)(inunit(k, a, h))] for k, a in sorted(box.items())]
    except Exception as ex:
        out['got'] = [[type(ex).__name__, []]]
    return out


def run_sampled(M, c):
    X = (modal.arr(c['M']) if c['nt'] else np.zeros((0, c['m']))).reshape(c['nt'], c['p'], c['m'])
    t = [c['t0'] + c['dt'] * k + c['off'][k] for k in range(c['nt'])]
    if c['extra'] < 0:
        t = t[:-1]
    t += [t[-1] + c['dt'] * (k + 1) for k in range(max(0, c['extra']))]
    e = {'e': 'sampled', 'times': [int(round(x * 1e7)) for x in t], 'tol': int(round((c['tol'] or 1e-6) * 1e7)),
         'M': three(X), 'out': [], 'steps': [], 'err': ''}
    try:
        tt = t if c['form'] == 'L' else np.array(t)
        if c['form'] == 'I' and all(x == int(x) for x in t):
            tt = np.array([int(x) for x in t])
        kw = {} if c['tol'] is None else {'dt_tol': c['tol']}
        if len(X):
            Y = lti.given(X, c['form'])
        else:
            Y = X
        r = M.make_sampled_format(tt, Y, **kw)
        e['steps'] = [int(x) for x in r[0]] if np.all(np.asarray(r[0]) == np.round(r[0])) else [-1]
        e['out'] = three(r[1])
    except Exception as ex:
        e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
    return e


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    if ck.replay is None:
        ck.design('Lti', 'Lti.cfg', name='Lti (one state, complex)')
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), gen(ck) if ck.replay is None else [], 'sessions')
    for case, rec in traces:
        for e in rec['ev']:
            ck.count(e['e'] + (' exact' if e.get('exact') else '') + (' refused' if e.get('err') else ''))
    fine.judge(ck, traces, ck.pick(150, 1500))
    ck.judge('EraTrace', traces)
