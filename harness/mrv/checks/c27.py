"""C27  Weighted inner products and combinations of array data are exact."""
import numpy as np
from mrv import lti
from mrv import mpisim as S


def rand(rng, n, m, cplx, big=4):
    a = np.array([[rng.randint(-big, big) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
    if cplx:
        a = a + 1j * np.array([[rng.randint(-big, big) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
    return a


FORMS = ['C', 'C', 'F', 'I', 'T', 'S']


def gen(ck):
    rng = ck.rng
    out = []
    for _ in range(ck.pick(1500, 20000)):
        n = rng.choice([1, 1, 2, 3, 4, 5, 7])
        wdim = rng.choice([0, 1, 1, 2, 2])
        cplx = rng.random() < .5
        case = {'n': n, 'wdim': wdim, 'wq': rng.choice([1, 1, 2, 8]) if wdim else 1, 'W': [], 'wform': '', 'asks': []}
        if wdim == 1:
            case['W'] = [[rng.choice([0, 1, 1, 2, 3, 5, 10, -1]), 0] for _ in range(n)]
            if rng.random() < .1:
                case['W'] = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(n)]
            case['wform'] = rng.choice(['array', 'array', 'list', 'column', 'row', 'tuple', 'ints', 'strided'] + (['scalar'] if n == 1 else []))
        elif wdim == 2:
            how = rng.choice(['diag', 'herm', 'any'])
            W = np.diag([rng.randint(1, 5) for _ in range(n)]).astype(float) if how == 'diag' else rand(rng, n, n, cplx and rng.random() < .7, 3)
            if how == 'herm':
                W = W + W.conj().T
            case['W'] = lti.pairs(W)
            case['wform'] = rng.choice(['array', 'array', 'F', 'list', 'ints', 'matrix'])
        for _ in range(rng.randint(2, 5)):
            what = rng.choice(['ip', 'ip', 'symm', 'comb', 'comb', 'dot', 'trapz', 'trapz', 'vector'])
            cx, cy = cplx and rng.random() < .8, cplx and rng.random() < .8
            q = {'e': what, 'xf': rng.choice(FORMS), 'yf': rng.choice(FORMS)}
            k, j = rng.randint(1, 4), rng.randint(1, 4)
            if what in ('ip', 'symm', 'comb'):
                q['X'] = lti.pairs(rand(rng, n, k, cx))
            if what == 'ip':
                q['Y'] = lti.pairs(rand(rng, n, j, cy))
            elif what == 'comb':
                q['coef'] = lti.pairs(rand(rng, k, j, cy))
                q['cf'] = rng.choice(['C', 'F', 'list', 'I', 'flat' if j == 1 else 'C'])
                q['sel'] = None
                if rng.random() < .6 and q['cf'] != 'flat':
                    q['sel'] = [rng.randrange(j) for _ in range(rng.choice([0] + list(range(1, j + 2)) * 3))]
                    q['sf'] = rng.choice(['list', 'tuple', 'array', 'int' if len(q['sel']) == 1 else 'list'])
            elif what == 'dot':
                q['shape'] = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
                N = int(np.prod(q['shape']))
                q.update(x=lti.pairs(rand(rng, 1, N, cx))[0], y=lti.pairs(rand(rng, 1, N, cy))[0])
            elif what == 'trapz':
                d = rng.choice([1, 1, 2, 2, 3])
                grids = []
                for _ in range(d):
                    size = rng.choice([1, 2, 2, 3, 4, 5]) if d < 3 else rng.choice([1, 2, 3])
                    if d == 1 and rng.random() < .3:
                        size = rng.randint(5, 12)
                    g = [rng.randint(-5, 5)]
                    for _ in range(size - 1):
                        g.append(g[-1] + rng.choice([1, 1, 2, 3, 5]))
                    if rng.random() < .3:
                        g = g[::-1]
                    elif rng.random() < .1:
                        rng.shuffle(g)
                    grids.append(g)
                N = int(np.prod([len(g) for g in grids]))
                q.update(grids=grids, gq=rng.choice([1, 2, 4]), via=rng.choice(['call', 'method']),
                         gform=rng.choice(['float', 'float', 'int', 'strided']), gpow=rng.choice([0, 0, 0, -35, 20]))
                q.update(x=lti.pairs(rand(rng, 1, N, cx))[0], y=lti.pairs(rand(rng, 1, N, cy))[0])
            elif what == 'vector':
                q.update(x=lti.pairs(rand(rng, 1, n, cx))[0], y=lti.pairs(rand(rng, 1, n, cy))[0],
                         k=[rng.randint(-3, 3), rng.randint(-2, 2) if cplx else 0])
            wide = {'comb': 1000003, 'vector': 1000003, 'dot': 257, 'ip': 257, 'symm': 257}.get(what, 1)
            if wide > 1 and rng.random() < .25:        # more digits than single precision has
                for name in {'dot': 'xy', 'ip': 'XY', 'comb': 'X', 'symm': 'X', 'vector': 'xy'}[what]:
                    q[name] = [[x * wide for x in z] if name in 'xy' else [[x * wide for x in y] for y in z] for z in q[name]]
            case['asks'].append(q)
        out.append(case)
    return out


def form(a, f):
    """The same array in another memory layout or type."""
    if f == 'F':
        return np.asfortranarray(a)
    if f == 'I' and not np.iscomplexobj(a):
        return a.astype(int)
    if f == 'T':
        return np.ascontiguousarray(a.T).T
    if f == 'S':
        b = np.full(tuple(2 * x for x in a.shape), 77, dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def weights(case):
    w, n = case['W'], case['n']
    if case['wdim'] == 0:
        return None
    a = lti.carr([w])[0] if case['wdim'] == 1 else lti.carr(w)
    f = case['wform']
    a = a / case['wq']
    if f == 'list':
        return a.tolist()
    if f == 'tuple':
        return tuple(a.tolist())
    if f == 'column':
        return a.reshape(n, 1)
    if f == 'row':
        return a.reshape(1, n)
    if f == 'scalar':
        return a[0]
    if f == 'matrix':
        return np.matrix(a)
    if f == 'F':
        return np.asfortranarray(a)
    if f == 'strided':
        return form(a, 'S')
    if f == 'ints' and case['wq'] == 1 and not np.iscomplexobj(a):
        return a.astype(int)
    return a


def arr(rows, f):
    return form(lti.carr(rows), f)


def out2(a, scale=1):
    a = np.asarray(a)
    return [lti.ints(r) for r in a * scale] if a.ndim == 2 else [[[lti.NOTINT, a.ndim]]]


def one(case):
    M = S.load(1)[0]
    V = M['modred.vectors']
    ev = []
    begin = {'e': 'begin', 'wdim': case['wdim'], 'W': case['W'], 'wq': case['wq']}
    ev.append(begin)

    class Vec(V.Vector):
        def __init__(self, a):
            self.a = a

        def __add__(self, other):
            return Vec(self.a + other.a)

        def __mul__(self, k):
            return Vec(self.a * k)
    try:
        space = M['modred.vectorspace'].VectorSpaceArrays(weights=weights(case))
        for q in case['asks']:
            e = {k: v for k, v in q.items() if k not in ('xf', 'yf', 'cf', 'sf', 'shape', 'via', 'gform', 'sel')}
            what = q['e']
            if what == 'ip':
                e['out'] = out2(space.compute_inner_product_array(arr(q['X'], q['xf']), arr(q['Y'], q['yf'])), case['wq'])
            elif what == 'symm':
                e['out'] = out2(space.compute_symm_inner_product_array(arr(q['X'], q['xf'])), case['wq'])
            elif what == 'comb':
                co = lti.carr(q['coef'])
                co = co[:, 0] if q['cf'] == 'flat' else lti.given(co, 'L' if q['cf'] == 'list' else q['cf'])
                sel = q['sel']
                e['sel'] = [-1] if sel is None else sel
                if sel is None:
                    y = space.lin_combine(arr(q['X'], q['xf']), co)
                else:
                    sel = {'list': sel, 'tuple': tuple(sel), 'array': np.array(sel, dtype=int), 'int': sel[:1] and sel[0]}[q['sf']]
                    y = space.lin_combine(arr(q['X'], q['xf']), co, coeff_array_col_indices=sel)
                y = np.asarray(y)
                e['out'] = out2(y.reshape(-1, 1) if y.ndim == 1 else y)
            elif what == 'dot':
                x, y = (form(lti.carr([q[k]])[0].reshape(q['shape']), q[f]) for k, f in (('x', 'xf'), ('y', 'yf')))
                e['out'] = lti.ints([V.inner_product_array_uniform(x, y)])[0]
            elif what == 'trapz':
                g = [np.array(x) / float(q['gq']) if q['gform'] != 'int' or q['gq'] > 1 else np.array(x) for x in q['grids']]
                if q['gpow']:
                    # the same grid in another unit: powers of two leave every step exact
                    g = [x * 2. ** q['gpow'] for x in g]
                if q['gform'] == 'strided':
                    g = [form(x, 'S') for x in g]
                shape = [len(x) for x in g]
                x, y = (form(lti.carr([q[k]])[0].reshape(shape), q[f]) for k, f in (('x', 'xf'), ('y', 'yf')))
                t = V.InnerProductTrapz(*g)
                r = t(x, y) if q['via'] == 'call' else t.inner_product(x, y)
                e['out'] = lti.ints([r * (float(2 * q['gq']) * 2. ** -q['gpow']) ** len(g)])[0] if np.ndim(r) == 0 else [lti.NOTINT, np.ndim(r)]
            elif what == 'vector':
                x, y = Vec(lti.carr([q['x']])[0]), Vec(lti.carr([q['y']])[0])
                k = complex(*q['k']) if q['k'][1] else q['k'][0]
                e.update(minus=lti.ints((x - y).a), left=lti.ints((k * x).a), right=lti.ints((x * k).a))
            ev.append(e)
    except Exception as ex:
        ev.append({'e': 'error', 'err': '%s: %s' % (type(ex).__name__, str(ex)[:120])})
    return {'ev': ev}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'array requests')
    for case, rec in traces:
        for q in case['asks']:
            ck.count(q['e'])
    ck.judge('ArrayTrace', traces)
    ck.assumptions += ['entries, weights and grids are integers or dyadic rationals, so that float64 arithmetic is exact']
