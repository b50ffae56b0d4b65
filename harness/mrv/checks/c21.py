"""C21  Simulation and impulse response follow the state recursion."""
import numpy as np
from mrv import data as D
from mrv import mpisim as S
from mrv import lti

LIMIT = 2e8


def gen(ck):
    rng = ck.rng
    out = []
    while len(out) < ck.pick(3000, 40000):
        cplx = rng.random() < .4
        n, m, p = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
        s = lti.system(rng, n, m, p, cplx)
        long = rng.random() < .1
        if long:
            s = lti.lasting(rng, s)
        c = dict(s, fn=rng.choice(['lsim', 'impulse']), form=rng.choice('CFLIM'),
                 call=rng.choice(['pos', 'kw']),
                 pow=rng.choice([0, 0, 0, -40, 30]))
        A, B, C = (lti.carr(s[k]) for k in 'ABC')
        if c['fn'] == 'lsim':
            rows = rng.choice([30, 60]) if long else rng.choice([1, 1, 2, 3, 5, 8, 12])
            U = D.rint(rng, rows, m, rng.choice([0, 1, 3]), cplx and rng.random() < .7)
            x0 = None if rng.random() < .4 else D.rint(rng, 1, n, 3, cplx and rng.random() < .7)[0]
            c.update(u=lti.pairs(U), x0=None if x0 is None else lti.vpairs(x0),
                     uform=rng.choice('CFLIM'), x0form=rng.choice(['array', 'list', 'tuple']))
        else:
            rows = rng.choice([40, 70]) if long else rng.choice([None, 0, 1, 1, 2, 3, 5, 9])
            c['rows'] = rows
        if not lti.bounded(A, B, C, s['q'], 70 if long else 12 if c['fn'] == 'lsim' else 9, LIMIT):
            continue
        out.append(c)
    return out


def one(case):
    u = S.load(1)[0]['modred.util']
    A, B, C = (lti.carr(case[k]) for k in 'ABC')
    # inputs and states (or the outputs) in another unit, a power of two: the results are reported in the first one
    q, h = case['q'], 2. ** case['pow']
    lsim = case['fn'] == 'lsim'
    a, b, cc = (lti.given(x, case['form']) for x in (A / q if q > 1 else A, B, C if lsim or h == 1 else C * h))
    n = A.shape[0]
    kw = {}
    begin = {'e': 'begin', 'fn': case['fn'], 'A': case['A'], 'B': case['B'], 'C': case['C'], 'q': q, 'err': '',
             'x0': [], 'shape': [], 'rows': -1}
    ev = [begin]
    try:
        if case['fn'] == 'lsim':
            U = lti.carr(case['u'])
            begin['x0'] = case['x0'] or [[0, 0]] * n
            begin['rows'] = len(U)
            if case['x0'] is not None:
                x0 = np.array([complex(*z) for z in case['x0']])
                x0 = x0 if np.any(x0.imag) else x0.real
                x0 = x0 if h == 1 else x0 * h
                kw['initial_condition'] = {'array': x0, 'list': x0.tolist(), 'tuple': tuple(x0.tolist())}[case['x0form']]
            V = U if h == 1 else U * h
            if case['call'] == 'pos':
                y = u.lsim(a, b, cc, lti.given(V, case['uform']), *kw.values())
            else:
                y = u.lsim(A=a, B=b, C=cc, inputs=lti.given(V, case['uform']), **kw)
            y = np.asarray(y)
            begin['shape'] = list(y.shape)
            if y.ndim == 2:
                for k in range(min(len(y), len(U))):
                    ev.append({'e': 'row', 'u': case['u'][k], 'y': lti.ints(y[k] / h * float(q) ** k)})
        else:
            if case['rows'] is not None:
                begin['rows'] = case['rows']
                kw['num_time_steps'] = case['rows']
            M = np.asarray(u.impulse(a, b, cc, *kw.values()) if case['call'] == 'pos' else
                           u.impulse(A=a, B=b, C=cc, **kw))
            begin['shape'] = list(M.shape)
            if M.ndim == 3:
                for k in range(len(M) if case['rows'] is not None else min(len(M), 9)):
                    ev.append({'e': 'row', 'y': [lti.ints(r) for r in M[k] / h * float(q) ** k]})
    except Exception as ex:
        begin['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
    return {'ev': ev}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    if ck.replay is None:
        ck.design('Lti', ck.pick('Lti.cfg', 'LtiDeep.cfg'), name='Lti (one state, complex)')
        if not ck.quick:
            ck.design('Lti', 'Lti2.cfg', name='Lti (two states)')
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'systems')
    ck.judge('LtiTrace', traces)
    ck.assumptions += ['values are integers or dyadic rationals, so that float64 arithmetic is exact up to rounding '
                       'to the nearest integer numerator']
