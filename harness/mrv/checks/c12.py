"""C12  A decomposition can be saved and resumed elsewhere."""
import numpy as np
from mrv import hl, scen, sess

CLAUSES = ('SavesWhatItIsNamedFor', 'LoadsTheSameValues', 'ModesOfCurrentDecomposition',
           'CoefficientsOfCurrentDecomposition', 'DecompositionOfCurrentData', 'SessionModel', 'NoError',
           'NoDeadlock')


def selections(rng, r):
    m = rng.randint(1, r)
    idx = rng.sample(range(r), m)
    if rng.random() < .2:
        idx.append(rng.choice(idx))
    return idx


def case(rng, cls, P, storage, single=False):
    """o computes and saves everything; p loads in some order and resumes; both compute
    the same modes and coefficients."""
    for t in range(200):
        d, r = scen.dataset(rng, cls, cplx=False if storage == 'text' else None)
        if not single or r == 1 or (cls != 'POD' and rng.random() < .2):
            break
    K = hl.CLASSES[cls]
    lim = rng.choice([None, 3, 3 * P, 100])
    c = dict(scen.layout(rng, P), cls=cls, storage=storage, data={'d': d}, ops=[], watch=rng.randrange(P),
             objs={'o': {'cls': cls, 'limit': lim}, 'p': {'cls': cls, 'limit': lim}})
    ops = c['ops']
    dec = scen.decomp_op('o', cls, 'd', d, r)
    if cls != 'TLSqrDMD' and rng.random() < (1 if single else .25) and storage != 'text':
        # a single number is kept, or a few
        if cls in ('POD', 'BPOD'):
            if single:
                dec['rtol'] = .999999
                r = 1
        else:
            dec['max_num_eigvals'] = 1
            r = 1
    ops.append(dec)
    kinds = K['coeffs'][:]
    rng.shuffle(kinds)
    for kind in kinds:
        ops.append({'op': 'coeffs', 'obj': 'o', 'kind': kind})
    arrays = K['arrays'][:]
    rng.shuffle(arrays)
    for a in arrays:
        ops.append({'op': 'put', 'obj': 'o', 'what': a, 'dest': 's.' + a})
    ops.append({'op': 'putdecomp', 'obj': 'o', 'dest': 'dec'})
    load = K['load_one'][:]
    steps = [{'op': 'get', 'obj': 'p', 'what': a, 'src': 's.' + a} for a in load]
    steps.append({'op': 'getdecomp', 'obj': 'p', 'src': 'dec'})
    rng.shuffle(steps)
    if rng.random() < .35:
        # the object which loads has been used for other data (of the same size, if possible)
        for t in range(60):
            e, re_ = scen.dataset(rng, cls, cplx=False if storage == 'text' else None)
            if re_ == r and len(e['vecs']) == len(d['vecs']):
                break
        c['data']['e'] = e
        ops.append(scen.decomp_op('p', cls, 'e', e, re_))
        for kind in K['coeffs']:
            if rng.random() < .5:
                ops.append({'op': 'coeffs', 'obj': 'p', 'kind': kind})
    ops.extend(steps)
    idx = {k: selections(rng, r) for k in K['modes']}
    rest = [{'op': 'modes', 'kind': k, 'idx': idx[k]} for k in K['modes']] + \
           [{'op': 'coeffs', 'kind': k} for k in K['coeffs']]
    rng.shuffle(rest)
    for o in rest:
        ops.append(dict(o, obj='o'))
    rng.shuffle(rest)
    for o in rest:
        ops.append(dict(o, obj='p', **({'src': 'd'} if o['op'] == 'modes' else {})))
    # a second generation: saved by the one which loaded
    for a in rng.sample(arrays, min(3, len(arrays))):
        ops.append({'op': 'put', 'obj': 'p', 'what': a, 'dest': 't.' + a})
    ops.append({'op': 'putdecomp', 'obj': 'p', 'dest': 'dec2'})
    c['objs']['q'] = {'cls': cls, 'limit': lim}
    ops.append({'op': 'getdecomp', 'obj': 'q', 'src': 'dec2'})
    k = rng.choice(K['modes'])
    ops.append({'op': 'modes', 'obj': 'q', 'kind': k, 'idx': idx[k], 'src': 'd'})
    if storage == 'ctext':
        return c      # arrays loaded as complex: another factorisation of the same arrays
    # the loaded correlation arrays give the same decomposition again
    redo = {k: v for k, v in dec.items() if k in ('atol', 'rtol', 'max_num_eigvals')}
    ops.append(dict(redo, op='redo', obj='p'))
    k = rng.choice(K['modes'])
    ops.append({'op': 'modes', 'obj': 'p', 'kind': k, 'idx': idx[k]})
    return c


def finding(cls):
    """Real data with complex DMD eigenvalues, saved as text and loaded by default."""
    if cls == 'DMD':
        vecs = [[[1., 0.], [0., 0.]], [[0., 0.], [1., 0.]], [[-1., 0.], [0., 0.]]]
    else:
        vecs = [[[1., 0.], [0., 0.]], [[0., 0.], [1., 0.]], [[-1., 0.], [0., 0.]], [[0., 0.], [-1., 0.]]]
    return {'tag': 'default text storage of complex eigenvalues, ' + cls, 'P': 1, 'nodes': 1, 'sched': 0,
            'policy': 'random', 'eager': None, 'cls': cls, 'storage': 'text', 'data': {'d': {'vecs': vecs}},
            'objs': {'o': {'cls': cls}, 'p': {'cls': cls}},
            'ops': [{'op': 'decomp', 'obj': 'o', 'data': 'd', 'atol': 1e-6},
                    {'op': 'putdecomp', 'obj': 'o', 'dest': 'dec'},
                    {'op': 'getdecomp', 'obj': 'p', 'src': 'dec'}]}


def run(ck):
    ck.clauses = CLAUSES
    rng = ck.rng
    for cls in ('POD', 'BPOD', 'DMD', 'TLSqrDMD'):
        for seq in ([('d3',)] if 'DMD' in cls else [()]):
            ck.design('Session', sess.cfg(cls, ck.pick(3, 5), seq=seq), name='Session ' + cls)
    cases = []
    for i in range(ck.pick(160, 1600)):
        cls = ('POD', 'BPOD', 'DMD', 'TLSqrDMD')[i % 4]
        cases.append(case(rng, cls, 1 + (i // 4) % 4, rng.choice(['mem', 'mem', 'mem1', 'text' if i % 4 < 2 else 'mem', 'ctext']),
                          rng.random() < .25))
    cases += [finding('DMD'), finding('TLSqrDMD')]
    for c in cases:
        ck.count('%s %s' % (c['cls'], c['storage']))
    got = ck.observe(sess.run_case, cases, what='sessions', timeout=120)
    ck.judge('SessionTrace', got)
