"""Cases and runs of VectorSpaceHandles operations on the simulated workers (C02-C07)."""
import numpy as np
from mrv import mpisim as S
from mrv import vs

POLICIES = ['random', 'random', 'random', 'low', 'high', 'robin', 'fast0', 'fast1', 'slow0', 'slow1', 'slow2']


def gen(ck, n, ops=('ip', 'symm', 'lc'), nmax=10, pmax=6, kinds=None):
    out = []
    rng = ck.rng
    for i in range(n):
        P = [1, 2, 3, 4, 5, 6, 7, 8][:pmax][i % pmax]
        nodes = rng.choice([x for x in (1, 1, 2, 3, P) if x <= P])
        dim = rng.choice([1, 2, 3])
        kind = (kinds or ['int', 'complex', 'mixed', 'half', 'sparse', 'float'])[rng.randrange(len(kinds or 'abcdef'))]
        a = rng.choice([1, 2, P - 1, P, P + 1, 2 * P + 1, rng.randint(1, nmax)])
        b = rng.choice([1, 2, P - 1, P, P + 1, 2 * P + 1, rng.randint(1, nmax)])
        a, b = max(1, min(a, nmax + 4)), max(1, min(b, nmax + 4))
        big = rng.random() < .03
        if big:
            a, b, dim = rng.randint(1, 40), rng.randint(1, 40), 1
        op = ops[i % len(ops)] if pmax % len(ops) else ops[rng.randrange(len(ops))]
        pool = max(a, b) if op == 'ip' else a
        case = {'op': op, 'P': P, 'nodes': nodes, 'kind': kind, 'dim': dim,
                'limit': rng.choice([0, 1, 3, 3 * P // nodes, 3 * P // nodes + 1, 4 * P, 5 * P // nodes + 1,
                                     6, 100, rng.randint(1, 12)]),
                'sched': rng.randrange(10 ** 6), 'policy': rng.choice(POLICIES),
                'eager': rng.choice([None, None, True, False]),
                'cont': [rng.choice(['list', 'list', 'list', 'tuple', 'array']) for _ in 'ab'],
                'interval': rng.choice([0, 10, 10]), 'verb': rng.choice([0, 1])}
        if P == 1 and rng.random() < .3:
            case['nodes'] = 0           # no mpi4py
        # vectors and coefficients in other units: nothing may depend on magnitudes
        if kind not in ('int', 'mixed') and rng.random() < .3:
            case['unit'] = [rng.choice([24, 60, -24]), rng.choice([0, 24, 60, -24])]
        elif rng.random() < .15:
            case['unit'] = [-18, 0]
        vecs = [_vec(rng, kind, dim, k) for k in range(a + b)]
        # numbers with more digits: products and sums of them are exact in double precision only
        wide = 1
        if rng.random() < .2:
            wide = 1031 if op in ('ip', 'symm') else 1000003 if a <= 12 else 1
            vecs = [[t, [[x * wide, y * wide] for x, y in comp]] for t, comp in vecs]
        case['vecs'] = vecs
        if op == 'ip':
            case['rows'] = list(range(a))
            case['cols'] = list(range(a, a + b))
            if rng.random() < 0.25:       # shared vectors between rows and columns
                case['cols'] = [rng.randrange(a + b) for _ in range(b)]
            case['single'] = [a == 1 and rng.random() < 0.3, b == 1 and rng.random() < 0.3]
        elif op == 'symm':
            case['vecs'] = vecs[:a]
            case['rows'] = list(range(a))
            if rng.random() < 0.15:
                case['rows'] = [rng.randrange(a) for _ in range(a)]
            case['single'] = [a == 1 and rng.random() < 0.3]
        else:
            case['vecs'] = vecs[:a]
            case['basis'] = list(range(a))
            ncol = b
            ck_ = rng.choice(['int', 'half', 'complex']) if kind != 'int' else 'int'
            cform = rng.choice(['2d', '2d', 'sel', 'sel', '1d', 'list'])
            if cform == '1d' and not (a == 1 or b == 1):
                cform = '2d'
            case['coef'] = [[_num(rng, ck_) for _ in range(ncol)] for _ in range(a)]
            if a <= 6 and wide == 1 and rng.random() < .25:      # coefficients of 25 bits
                def long(x):
                    return (x > 0) * 16777217 - (x < 0) * 16777217
                case['coef'] = [[[long(x), long(y) if a <= 3 else y] for x, y in r] for r in case['coef']]
            case['cform'] = cform
            if cform == 'sel':
                m = rng.randint(1, ncol + 1) if rng.random() < .9 else 0
                case['sel'] = [rng.randrange(ncol) for _ in range(m)] if rng.random() < 0.5 \
                    else rng.sample(range(ncol), min(m, ncol))
                case['selform'] = rng.choice(['list', 'array', 'tuple', 'int' if len(case['sel']) == 1 else 'list',
                                              'range' if case['sel'] == list(range(m)) else 'list'])
            else:
                case['sel'] = list(range(ncol))
            case['nout'] = len(case['sel'])
            case['single'] = [a == 1 and rng.random() < 0.3, case['nout'] == 1 and rng.random() < 0.3]
        out.append(case)
    return out


def _num(rng, kind):
    """A number in units of 1/2, as [re, im]."""
    if kind == 'complex':
        return [2 * rng.randint(-2, 2), 2 * rng.randint(-2, 2)]
    if kind == 'half':
        return [rng.randint(-4, 4), 0]
    return [2 * rng.randint(-3, 3), 0]


def _vec(rng, kind, dim, k):
    """[type, components]; type int/float/complex."""
    if kind == 'mixed':
        # an integer vector first: later ones need wider types
        t = 'int' if k == 0 else rng.choice(['int', 'float', 'complex'])
    elif kind == 'half':
        t = 'float'
    elif kind == 'sparse':
        t = 'complex' if rng.random() < 0.5 else 'float'
    else:
        t = kind
    comp = []
    for _ in range(dim):
        if kind == 'sparse' and rng.random() < 0.6:
            comp.append([0, 0])
        elif t == 'int':
            comp.append([2 * rng.randint(-3, 3), 0])
        elif t == 'float':
            comp.append([rng.randint(-6, 6), 0])
        else:
            comp.append([rng.randint(-4, 4), rng.randint(-4, 4)])
    return [t, comp]


def scaled(x, u):
    """Numbers in units of 2^-u."""
    return tuple(a * (2 ** -u if u < 0 else 2. ** -u) for a in x) if u else x


def pyvec(v):
    t, comp = v
    if t == 'int':
        return tuple(a // 2 for a, b in comp)
    if t == 'float':
        return tuple(a / 2. for a, b in comp)
    return tuple(complex(a / 2., b / 2.) for a, b in comp)


def pynum(p):
    a, b = p
    if b:
        return complex(a / 2., b / 2.)
    return a // 2 if a % 2 == 0 else a / 2.


def objects(L):
    a = np.empty(len(L), dtype=object)
    a[:] = L
    return a


def run_case(case):
    """Run one operation; returns {'ev': events, 'prog': per worker programs}."""
    P = case['P']
    M = S.load(P, case['nodes'])
    w = vs.world(case)
    n = len(case['vecs'])
    u, cu = case.get('unit', [0, 0])
    store = {k + 1: scaled(pyvec(v), u) for k, v in enumerate(case['vecs'])}
    w.store.update(store)
    op = case['op']
    ev = {'e': 'begin', 'op': op, 'P': P, 'nodes': max(1, case['nodes']), 'limit': case['limit'],
          'store': [v[1] for v in case['vecs']]}
    if op == 'ip':
        ev['rows'] = [k + 1 for k in case['rows']]
        ev['cols'] = [k + 1 for k in case['cols']]
    elif op == 'symm':
        ev['rows'] = ev['cols'] = [k + 1 for k in case['rows']]
    else:
        ev['basis'] = [k + 1 for k in case['basis']]
        ev['coef'] = case['coef']
        ev['sel'] = [k + 1 for k in case['sel']]
        ev['outs'] = [n + 1 + k for k in range(case['nout'])]
        coef = [list(scaled([pynum(p) for p in row], cu)) for row in case['coef']]
        if case['cform'] in ('2d', 'sel'):
            coef = np.array(coef)
        elif case['cform'] != 'list':
            coef = np.array([z for row in coef for z in row])
    w.unit = 2. ** (u + cu)
    w.events.append(ev)
    rets, work = {}, {}

    def target(r):
        vsm = M[r]['modred.vectorspace']
        c = S.CUR.ctx
        lim = case['limit'] if case['limit'] else None
        sp = vsm.VectorSpaceHandles(vs.ip, max_vecs_per_node=lim, verbosity=case['verb'],
                                    print_interval=case['interval'])
        hs = lambda ids: [vs.H(w, k) for k in ids]
        # lists of handles are any sequences
        one = lambda L, s, k=0: L[0] if s else {'list': list, 'tuple': tuple, 'array': objects}[case.get('cont', ['list'] * 2)[k]](L)
        c.live = c.peak = 0
        if op == 'ip':
            a = sp.compute_inner_product_array(one(hs(ev['rows']), case['single'][0]),
                                               one(hs(ev['cols']), case['single'][1], 1))
        elif op == 'symm':
            a = sp.compute_symm_inner_product_array(one(hs(ev['rows']), case['single'][0]))
        else:
            args = [one(hs(ev['outs']), case['single'][1], 1), one(hs(ev['basis']), case['single'][0]), coef]
            if case['cform'] == 'sel':
                sel = case['sel']
                sel = {'list': list(sel), 'array': np.array(sel, dtype=int), 'int': sel[:1] and sel[0],
                       'tuple': tuple(sel), 'range': range(len(sel))}[case['selform']]
                a = sp.lin_combine(*args, coeff_array_col_indices=sel)
            else:
                a = sp.lin_combine(*args)
        rets[r] = a
        c.prog.append(['ret', 0, 0, 0])
        if op == 'lc':
            w.ev('ret')
        else:
            w.ev('ret', val=vs.matrix(a, 4 * 4. ** u), same=_same(a, rets))
        w.ev('mem', peak=c.peak)
        k = getattr(c, 'work', None) or {}
        work[r] = {'reads': k.get('reads', 0), 'scales': k.get('scales', 0), 'adds': k.get('adds', 0),
                   'pairs': [[x[0], x[1], n] for x, n in sorted((x, n) for x, n in k.items()
                                                                if isinstance(x, tuple))]}

    w.run(target, M)
    vs.finish(w)
    end = w.events[-1]
    end['store'] = [[vs.pair(x, 2 * 2. ** u) for x in w.store[k]] for k in sorted(store)]
    end['extra'] = len([k for k in w.store if k not in store and k not in ev.get('outs', [])])
    evs = [e for e in w.events if e['e'] != 'get']
    return {'ev': evs, 'prog': vs.programs(w), 'gets': len(w.events) - len(evs), 'steps': w.steps,
            'work': work}


def run_cost(case):
    """The same operation, as seen by CostTrace."""
    t = run_case(case)
    b = t['ev'][0]
    P = case['P']
    evs = [{'e': 'call', 'op': b['op'], 'P': P,
            'share': max(3, (b['limit'] or 10000) * b['nodes'] // P),
            'rows': b.get('rows', []), 'cols': b.get('cols', []),
            'basis': b.get('basis', []), 'ns': len(b.get('outs', []))}]
    for r, k in sorted(t['work'].items()):
        evs.append(dict(k, e='work', r=r))
    evs += [e for e in t['ev'] if e['e'] == 'error'][:1]
    evs.append({'e': 'end'})
    return {'ev': evs}


def _same(a, rets):
    """Bit for bit the array the other workers got so far."""
    try:
        return all(np.array_equal(a, b) and a.dtype == b.dtype for b in rets.values())
    except Exception:
        return False
