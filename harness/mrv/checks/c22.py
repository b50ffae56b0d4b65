"""C22  Hankel arrays have constant skew diagonals."""
import numpy as np
from mrv import mpisim as S
from mrv import lti


def val(rng, kind):
    if kind == 'int':
        return rng.randint(-9, 9)
    x = rng.choice([0., 1., rng.uniform(-3, 3), rng.uniform(-1, 1) * 10. ** rng.randint(-20, 20)])
    if kind == 'cplx':
        return complex(x, rng.choice([0., 1., rng.uniform(-3, 3)]))
    return x


def name(z):
    z = complex(z)
    return '%r %r' % (z.real + 0., z.imag + 0.)


def enc(v):
    return [[complex(z).real.hex(), complex(z).imag.hex()] for z in v]


def dec(v, kind):
    z = [complex(float.fromhex(a), float.fromhex(b)) for a, b in v]
    return [int(x.real) if kind == 'int' else x if kind == 'cplx' else x.real for x in z]


def gen(ck):
    rng = ck.rng
    out = []
    top = ck.pick(7, 10)
    for n in range(1, top):                    # every pair of lengths
        for m in [None] + list(range(1, top)):
            for rep in range(ck.pick(20, 200)):
                out.append(simple(rng, n, m))
    for n in range(1, ck.pick(5, 7)):
        for m in [None] + list(range(1, ck.pick(5, 7))):
            for rep in range(ck.pick(25, 250)):
                out.append(blocks(rng, n, m))
    for _ in range(ck.pick(150, 3000)):
        out.append(simple(rng, rng.randint(1, 30), rng.choice([None, rng.randint(1, 30)])))
        out.append(blocks(rng, rng.randint(1, 9), rng.choice([None, rng.randint(1, 9)])))
    return out


def simple(rng, n, m):
    k1, k2 = rng.choice(['int', 'real', 'real', 'cplx']), rng.choice(['int', 'real', 'real', 'cplx'])
    return {'e': 'hankel', 'k': [k1, k2], 'col': enc([val(rng, k1) for _ in range(n)]),
            'row': None if m is None else enc([val(rng, k2) for _ in range(m)]),
            'f': [rng.choice(['array', 'list', 'tuple', 'col2', 'row2', 'rev']) for _ in range(2)],
            'call': rng.choice(['pos', 'kw'])}


def blocks(rng, n, m):
    k1, k2 = rng.choice(['int', 'real', 'real', 'cplx']), rng.choice(['int', 'real', 'real', 'cplx'])
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    return {'e': 'chunks', 'k': [k1, k2], 'h': h, 'w': w,
            'col': [enc([val(rng, k1) for _ in range(h * w)]) for _ in range(n)],
            'row': None if m is None else [enc([val(rng, k2) for _ in range(h * w)]) for _ in range(m)],
            'f': [rng.choice(['C', 'F', 'T', 'same']) for _ in range(2)], 'call': rng.choice(['pos', 'kw'])}


def shaped(v, form):
    a = np.array(v)
    return {'array': a, 'list': list(v), 'tuple': tuple(v), 'col2': a.reshape(-1, 1), 'row2': a.reshape(1, -1),
            'rev': a[::-1].copy()[::-1]}[form]


def one(case):
    u = S.load(1)[0]['modred.util']
    k1, k2 = case['k']
    e = {'e': case['e'], 'err': '', 'zero': name(0), 'given': case['row'] is not None, 'row': [], 'shape': [], 'out': []}
    try:
        if case['e'] == 'hankel':
            col = dec(case['col'], k1)
            e['col'] = [name(z) for z in col]
            args = [shaped(col, case['f'][0])]
            if case['row'] is not None:
                row = dec(case['row'], k2)
                e['row'] = [name(z) for z in row]
                args.append(shaped(row, case['f'][1]))
            H = u.Hankel(*args) if case['call'] == 'pos' else u.Hankel(**dict(zip(['first_col', 'last_row'], args)))
        else:
            h, w = case['h'], case['w']
            e.update(h=h, w=w)

            def chunk(v, k, f):
                a = np.array(dec(v, k)).reshape(h, w)
                return {'C': a, 'F': np.asfortranarray(a), 'T': a.T.copy().T, 'same': a}[f]
            col = [chunk(v, k1, case['f'][0]) for v in case['col']]
            e['col'] = [[[name(z) for z in r] for r in a.tolist()] for a in col]
            args = [col]
            if case['row'] is not None:
                row = [chunk(v, k2, case['f'][1]) for v in case['row']]
                e['row'] = [[[name(z) for z in r] for r in a.tolist()] for a in row]
                args.append(row)
            H = u.Hankel_chunks(*args) if case['call'] == 'pos' else \
                u.Hankel_chunks(**dict(zip(['first_col_chunks', 'last_row_chunks'], args)))
        H = np.asarray(H)
        e['shape'] = list(H.shape)
        if H.ndim == 2:
            e['out'] = [[name(z) for z in r] for r in H.tolist()]
    except Exception as ex:
        e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
    return {'ev': [e]}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'arrays', size=40)
    ck.judge('HankelTrace', traces)
