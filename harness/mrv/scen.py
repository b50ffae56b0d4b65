"""Random scenarios of high-level distributed calls."""
import numpy as np
from mrv import data as D
from mrv import hl
from mrv.vsdrive import POLICIES


def layout(rng, P):
    # nodes = 0: one process, and mpi4py is not installed
    return {'P': P, 'nodes': rng.choice([x for x in (1, 1, 2, P) if x <= P] + [0] * (P == 1)),
            'sched': rng.randrange(10 ** 6), 'policy': rng.choice(POLICIES),
            'eager': rng.choice([None, None, True, False])}


def dataset(rng, cls, cplx=None, big=False):
    cplx = rng.random() < .4 if cplx is None else cplx
    if cls == 'POD':
        m = rng.randint(1, 6)
        return {'vecs': D.tolist(D.well(rng, m + rng.randint(0, 2), m, 3, cplx, gap=.05))}, m
    if cls == 'BPOD':
        n = rng.randint(1, 3)
        p, q = rng.randint(1, 2), rng.randint(1, 3)
        X, Y, A, B, C, r = D.bpod_data(rng, n, p, q, rng.randint(2, 4), rng.randint(2, 4), cplx)
        return {'vecs': D.tolist(X), 'adv': D.tolist(Y), 'p': p, 'q': q, 'rank': r}, r
    if cls in ('DMD', 'TLSqrDMD'):
        r = rng.randint(1, 3)
        m = r + (rng.randint(1, 2) if cls == 'TLSqrDMD' else rng.randint(0, 1))
        seq = rng.random() < .5
        X, Y, A, d = D.dmd_data(rng, r + rng.randint(0, 2), r, m, cplx, seq)
        if seq:
            return {'vecs': D.tolist(np.hstack([X, Y[:, -1:]])), 'rank': r}, r
        return {'vecs': D.tolist(X), 'adv': D.tolist(Y), 'rank': r}, r
    raise ValueError(cls)


def decomp_op(obj, cls, name, d, r):
    op = {'op': 'decomp', 'obj': obj, 'data': name}
    if cls == 'BPOD':
        op.update(num_inputs=d['p'], num_outputs=d['q'])
    if cls != 'POD':
        op['atol'] = 1e-8 if cls == 'BPOD' else 1e-6
    return op


def scenario(rng, P, cls=None, nops=6):
    cls = cls or rng.choice(['POD', 'BPOD', 'DMD', 'TLSqrDMD', 'Galerkin', 'vs'])
    case = dict(layout(rng, P), cls=cls, data={}, objs={}, ops=[])
    ops = case['ops']
    lim = rng.choice([None, 3, 3 * P, 4 * P, 100])
    if cls == 'vs':
        a, b = rng.randint(1, 2 * P + 1), rng.randint(1, 2 * P + 1)
        case['data']['d'] = {'vecs': D.tolist(D.rint(rng, 2, a, 3)), 'adv': D.tolist(D.rint(rng, 2, b, 3))}
        case['data']['e'] = {'vecs': D.tolist(D.rint(rng, 2, a, 3)), 'adv': D.tolist(D.rint(rng, 2, a, 3))}
        for t in rng.sample(['ip', 'symm', 'lc', 'lc', 'derivs'], 3):
            op = {'op': t, 'data': 'e' if t == 'derivs' else 'd', 'limit': lim}
            if t == 'lc':
                op['coef'] = D.rint(rng, a, b, 2).tolist()
            if t == 'derivs':
                op['dt'] = .5
            ops.append(op)
        return case
    if cls == 'Galerkin':
        n = rng.randint(1, 4)
        sym = rng.random() < .5
        # the inverse factor: basis and adjoint basis with a well-conditioned product
        X = D.well(rng, n + 1, n, 2)
        Y = X if sym else X + D.rint(rng, n + 1, n, 0)
        case['data']['b'] = {'vecs': D.tolist(X)}
        if not sym:
            case['data']['b']['adv'] = D.tolist(Y)
        case['data']['AB'] = {'vecs': D.tolist(D.rint(rng, n + 1, n, 2)), 'adv': D.tolist(D.rint(rng, n + 1, 2, 2))}
        case['objs']['o'] = {'cls': 'Galerkin', 'basis': 'b', 'limit': lim or 100, 'orth': rng.random() < .3}
        ops.append({'op': 'model', 'obj': 'o', 'data': 'AB', 'C': D.rint(rng, n, 2, 2).tolist()})
        ops.append({'op': 'putmodel', 'obj': 'o', 'dest': 'm'})
        return case
    d, r = dataset(rng, cls)
    case['data']['d'] = d
    case['objs']['o'] = {'cls': cls, 'limit': lim}
    K = hl.CLASSES[cls]
    ops.append(decomp_op('o', cls, 'd', d, r))
    done = set()
    for _ in range(nops - 1):
        x = rng.random()
        if x < .35:
            kind = rng.choice(K['modes'])
            m = rng.randint(1, r)
            idx = rng.sample(range(r), m)
            if rng.random() < .2:
                idx.append(rng.choice(idx))
            ops.append({'op': 'modes', 'obj': 'o', 'kind': kind, 'idx': idx})
        elif x < .6:
            kind = rng.choice(K['coeffs'])
            done.add(kind)
            ops.append({'op': 'coeffs', 'obj': 'o', 'kind': kind})
        elif x < .75:
            ops.append({'op': 'putdecomp', 'obj': 'o', 'dest': 's%d' % len(ops)})
        elif x < .9:
            what = rng.choice([a for a in K['arrays'] if hl.NEEDS.get(a) in done or a not in hl.NEEDS])
            ops.append({'op': 'put', 'obj': 'o', 'what': what, 'dest': 's%d' % len(ops)})
        elif x < .95 and any(o['op'] == 'put' for o in ops):
            o = rng.choice([o for o in ops if o['op'] == 'put'])
            if o['what'] in K['load_one']:
                case['objs'].setdefault('q', {'cls': cls, 'limit': lim})
                ops.append({'op': 'get', 'obj': rng.choice(['o', 'q']), 'what': o['what'], 'src': o['dest']})
        else:
            ops.append({'op': 'putdecomp', 'obj': 'o', 'dest': 's%d' % len(ops)})
            case['objs']['p'] = {'cls': cls, 'limit': lim}
            ops.append({'op': 'getdecomp', 'obj': 'p', 'src': ops[-1]['dest']})
            kind = rng.choice(K['modes'])
            part = {'op': 'modes', 'obj': 'p', 'kind': kind, 'idx': [rng.randrange(r)], 'src': 'd'}
            ops.append(part)
    return case


def scenarios(ck, n, pmax=5, cls=None):
    out = []
    for i in range(n):
        out.append(scenario(ck.rng, 1 + i % pmax, cls=cls and cls[i % len(cls)], nops=ck.rng.randint(3, 6)))
    return out


def saving(rng, P, cls):
    """A decomposition; every array it can save is saved by itself, in some order."""
    case = dict(layout(rng, P), cls=cls, data={}, objs={'o': {'cls': cls, 'limit': rng.choice([None, 100])}}, ops=[])
    d, r = dataset(rng, cls)
    case['data']['d'] = d
    K = hl.CLASSES[cls]
    ops = case['ops']
    ops.append(decomp_op('o', cls, 'd', d, r))
    for kind in rng.sample(K['coeffs'], len(K['coeffs'])):
        ops.append({'op': 'coeffs', 'obj': 'o', 'kind': kind})
    for a in rng.sample(K['arrays'], len(K['arrays'])):
        ops.append({'op': 'put', 'obj': 'o', 'what': a, 'dest': 's.' + a})
    ops.append({'op': 'putdecomp', 'obj': 'o', 'dest': 'D'})
    return case
