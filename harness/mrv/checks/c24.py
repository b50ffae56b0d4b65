"""C24  Signal files are read as time plus channels, consistently."""
import os
import shutil
import tempfile
import numpy as np
from mrv import lti
from mrv import mpisim as S


def name(x):
    return (float(x) + 0.).hex()


def val(rng):
    k = rng.random()
    return float(rng.randint(-5, 5)) if k < .4 else rng.uniform(-3, 3) if k < .8 else \
        rng.uniform(-1, 1) * 10. ** rng.randint(-100, 100)


def times(rng, n):
    how = rng.choice(['int', 'dt', 'uneven', 'offset', 'same', 'descend'])
    if how == 'int':
        return [float(i) for i in range(n)]
    if how == 'dt':
        dt = rng.choice([.1, .01, .25, 3.7])
        return [i * dt for i in range(n)]
    if how == 'offset':
        return [1000. + i for i in range(n)]
    if how == 'same':
        return [2.] * n
    if how == 'descend':
        return [-float(i) for i in range(n)]
    t = [rng.uniform(0, 2)]
    while len(t) < n:
        t.append(t[-1] + rng.uniform(.2, 2))
    return t


def gen(ck):
    rng = ck.rng
    out = []
    for _ in range(ck.pick(4000, 40000)):
        nf = rng.choice([1, 1, 2, 2, 3, 4, 5])
        nt = rng.choice([1, 1, 2, 3, 4, 6])
        nc = rng.choice([1, 1, 2, 3, 4])
        t = times(rng, nt)
        files = [{'t': list(t), 'nc': nc, 'tick': 0} for _ in range(nf)]
        odd = rng.choice([None] * 4 + ['times', 'rows', 'bare', 'channels', 'one', 'channels'])
        if odd == 'bare' and rng.random() < .3:
            for f in files:
                f['nc'] = 0
        elif odd:
            f = files[rng.randrange(nf)]
            if odd == 'times':
                i = rng.randrange(nt)
                f['t'][i] += rng.choice([.5, -.5, 1, .1]) * max(1, abs(f['t'][i]))
                f['tick'] = 1
            elif odd == 'rows':
                f['t'] = f['t'] + [f['t'][-1] + 1] * rng.randint(1, 2) if nt == 1 or rng.random() < .5 else f['t'][:rng.randint(1, nt - 1)]
                f['tick'] = 1
            elif odd == 'one':
                f['t'] = f['t'][:1]
                f['tick'] = 1 if nt > 1 else 0
            elif odd == 'channels':
                f['nc'] = rng.choice([k for k in (1, 2, 3, 4) if k != nc])
            else:
                f['nc'] = 0
        unit = 2. ** rng.choice([0, 0, 0, -40, 40])      # of the times
        out.append({'files': [dict(f, t=[(x * unit).hex() for x in f['t']],
                                   v=[[val(rng).hex() for _ in range(f['nc'])] for _ in f['t']]) for f in files],
                    'order': [rng.randrange(nf) for _ in range(rng.randint(1, 4))] if rng.random() < .25 else list(range(nf)),
                    'delim': rng.choice([None, None, None, ' ', ',', ';', '\t']), 'fmt': rng.choice(['%r', '%.17g', '%.18e', 'save']),
                    'paths': rng.choice(['list', 'tuple']), 'call': rng.choice(['kw', 'pos']), 'single': rng.random() < .6})
    return out


def arrays(x):
    return [[name(z) for z in r] for r in x.tolist()] if x.ndim == 2 and not np.iscomplexobj(x) else [['ndim %d' % x.ndim]]


def one(case):
    u = S.load(1)[0]['modred.util']
    d = tempfile.mkdtemp(dir='.')
    ev = []
    dl = case['delim']
    a, kw = ([dl], {}) if case['call'] == 'pos' else ([], {'delimiter': dl} if dl is not None else {})
    try:
        paths = []
        for i, f in enumerate(case['files']):
            p = os.path.join(d, 's%d.txt' % i)
            rows = [[float.fromhex(x) for x in [t] + v] for t, v in zip(f['t'], f['v'])]
            if case['fmt'] == 'save':
                u.save_array_text(np.array(rows), p, **({'delimiter': dl} if dl else {}))
            else:
                with open(p, 'w') as o:
                    for r in rows:
                        o.write((dl or ' ').join(case['fmt'] % x for x in r) + '\n')
            paths.append(p)
            ev.append({'e': 'write', 'f': 'f%d' % i, 'lines': [[name(x) for x in r] for r in rows], 'tick': f['tick']})
        if case['single']:
            for i, p in enumerate(paths):
                e = {'e': 'one', 'f': 'f%d' % i, 'err': '', 'time': [], 'sig': []}
                try:
                    t, x = u.load_signals(p, *a, **kw)
                    e['time'] = [name(z) for z in t] if np.ndim(t) == 1 else ['ndim']
                    e['sig'] = arrays(x)
                except Exception as ex:
                    e['err'] = type(ex).__name__
                ev.append(e)
        sel = case['order']
        e = {'e': 'many', 'fs': ['f%d' % i for i in sel], 'err': '', 'time': [], 'all': []}
        try:
            ps = [paths[i] for i in sel]
            t, x = u.load_multiple_signals(tuple(ps) if case['paths'] == 'tuple' else ps, *a, **kw)
            e['time'] = [name(z) for z in t] if np.ndim(t) == 1 else ['ndim']
            e['all'] = [arrays(y) for y in x] if x.ndim == 3 else [[['ndim %d' % x.ndim]]]
        except Exception as ex:
            e['err'] = type(ex).__name__
        ev.append(e)
        return {'ev': ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'sets of files', size=50)
    ck.judge('SignalTrace', traces)
