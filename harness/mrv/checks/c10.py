"""C10  Vector handles return scale times (stored minus base), always current."""
import json
import os
import shutil
import tempfile
import numpy as np
from mrv import mpisim as S
from mrv import vs

KINDS = ['mem', 'text', 'pickle', 'user', 'mixed']
SHARED = ['text', 'pickle', 'user', 'mixed']
VTYPES = ['a1', 'a2', 'c1', 'c2', 'obj']
SCALES = [None, None, None, 2, -1, 3, 0, 0.5, 1j, 1]


class Vec(object):
    """Filled in per module set: a user vector derived from modred.Vector."""


def enc_scale(s):
    return [] if s is None else [int(round(4 * complex(s).real)), int(round(4 * complex(s).imag))]


def expand(v, vt):
    """A number of the model to vector components (pairs)."""
    if vt in ('c1', 'c2'):
        return [[v, -v], [2 * v + 0, v], [0, v]]
    return [[v, 0], [3 * v, 0], [-v, 0]]


def concrete(comp, vt, kind, mod):
    z = [complex(a, b) for a, b in comp]
    if vt in ('a1', 'a2'):
        a = np.array([x.real for x in z])
    elif vt in ('c1', 'c2'):
        a = np.array(z)
    else:
        return mod.UserVec([x.real for x in z])
    return a if vt in ('a1', 'c1') else a.reshape(-1, 1)


def observed(v, u):
    if hasattr(v, 'data_list'):
        v = np.array(v.data_list)
    v = np.asarray(v)
    return [vs.pair(x, u) for x in v.reshape(-1).tolist()]


def make(mod, case, d, store):
    """The handles of a case on the real code (of one worker)."""
    vv = mod['modred.vectors']
    if not hasattr(vv, 'UserVec'):
        class UserVec(vv.Vector):
            def __init__(self, x):
                self.data_list = list(x)

            def __add__(self, o):
                return UserVec([a + b for a, b in zip(self.data_list, o.data_list)])

            def __mul__(self, s):
                return UserVec([a * s for a in self.data_list])
        UserVec.__module__ = 'modred.vectors'
        UserVec.__qualname__ = 'UserVec'
        vv.UserVec = UserVec

        class UserHandle(vv.VecHandle):
            def __init__(self, store, key, base_vec_handle=None, scale=None):
                vv.VecHandle.__init__(self, base_vec_handle, scale)
                self.store, self.key = store, key

            def _get(self):
                return self.store[self.key]

            def _put(self, vec):
                self.store[self.key] = vec
        vv.UserHandle = UserHandle
    hs = []
    cx = case['vt'] in ('c1', 'c2')
    for i, cell in enumerate(case['cell']):
        kind = case['kinds'][cell - 1]
        b = case['base'][i]
        base = hs[b - 1] if b else None
        scale = case['scale'][i]
        if isinstance(scale, list):
            scale = complex(*scale)
        if kind == 'mem':
            h = vv.VecHandleInMemory(base_vec_handle=base, scale=scale)
        elif kind == 'text':
            h = vv.VecHandleArrayText(os.path.join(d, 'c%d.txt' % cell), base_vec_handle=base, scale=scale,
                                      is_complex=cx)
        elif kind == 'pickle':
            h = vv.VecHandlePickle(os.path.join(d, 'c%d.pkl' % cell), base, scale)
        else:
            h = vv.UserHandle(store, cell, base_vec_handle=base, scale=scale)
        hs.append(h)
    raw = {}
    for cell in set(case['cell']):
        kind = case['kinds'][cell - 1]
        if kind == 'mem':
            raw[cell] = lambda h=hs[case['cell'].index(cell)]: h.vec
        elif kind == 'text':
            raw[cell] = vv.VecHandleArrayText(os.path.join(d, 'c%d.txt' % cell), is_complex=cx).get
        elif kind == 'pickle':
            raw[cell] = vv.VecHandlePickle(os.path.join(d, 'c%d.pkl' % cell)).get
        else:
            raw[cell] = lambda cell=cell: store[cell]
    return hs, raw, vv


U = 4 ** 4     # scales are multiples of 1/4, at most four nested


def one_history(case, d, ev):
    # every worker has modules (so caches) and handles of its own; the store is common
    W = case.get('workers', 1)
    M = S.load(W, case.get('nodes', 1))
    store = {}
    workers = []
    for w in range(W):
        S._swap(M[w])
        workers.append(make(M[w], case, d, store))
    vt = case['vt']

    def on(w):
        S._swap(M[w])
        return workers[w]

    try:
        history(case, ev, on)
    finally:
        S._swap(S.load(1)[0])


def history(case, ev, on):
    hs, raw, vv = on(0)
    vt = case['vt']
    n = len(case['cell'])
    cells = sorted(set(case['cell']))
    init = {}
    for cell in cells:
        h = hs[case['cell'].index(cell)]
        h.put(concrete(expand(5 + 6 * cell, vt), vt, None, vv))
        init[cell] = [[a * U, b * U] for a, b in expand(5 + 6 * cell, vt)]
    ev.append({'e': 'begin', 'cell': [cells.index(x) + 1 for x in case['cell']], 'base': case['base'],
               'scale': [scale_pair(s) for s in case['scale']], 'store': [init[x] for x in cells]})
    got = []
    for op, h, v, w in case['ops']:
        hs, raw, vv = on(w - 1)
        try:
            if op == 'put':
                comp = expand(v, vt)
                hs[h - 1].put(concrete(comp, vt, None, vv))
                ev.append({'e': 'put', 'h': h, 'v': [[a * U, b * U] for a, b in comp]})
            else:
                out = hs[h - 1].get()
                x = observed(out, U)
                got.append((out, x))
                ev.append({'e': 'get', 'h': h, 'v': x})
        except Exception as ex:
            ev.append({'e': 'error', 'what': repr(ex)[:200], 'op': op, 'h': h, 'w': w})
            return
    hs, raw, vv = on(0)
    for cell in cells:
        ev.append({'e': 'raw', 'cell': cells.index(cell) + 1, 'v': observed(raw[cell](), U)})
    for out, x in got:
        ev.append({'e': 'again', 'was': x, 'v': observed(out, U)})


def scale_pair(s):
    """Scales are Gaussian integers in the model; half scales are avoided there."""
    if s is None:
        return []
    z = complex(*s) if isinstance(s, list) else complex(s)
    return [int(z.real), int(z.imag)]


def one(case):
    d = tempfile.mkdtemp(dir='.')
    try:
        ev = []
        one_history(case, d, ev)
        return {'ev': ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def config(rng, case):
    n = max(case['cell'])
    kind = case['kind']
    case['kinds'] = [rng.choice(['mem'] * (case['workers'] == 1) + ['text', 'pickle', 'user']) if kind == 'mixed' else kind for _ in range(n)]
    vt = rng.choice(VTYPES)
    if any(k == 'text' for k in case['kinds']):
        vt = rng.choice(['a2', 'c2']) if len(set(case['kinds'])) > 1 else rng.choice(['a1', 'a2', 'c1', 'c2'])
    case['vt'] = vt
    # handles in memory have a store of their own
    seen = {}
    cell = []
    m = n
    for c in case['cell']:
        if c in seen and case['kinds'][c - 1] == 'mem':
            m += 1
            case['kinds'].append('mem')
            cell.append(m)
        else:
            seen[c] = 1
            cell.append(c)
    case['cell'] = cell
    cx = vt in ('c1', 'c2')
    case['scale'] = [None if s is None else ([0, 1] if cx and s == 3 and rng.random() < .5 else s)
                     for s in case['scale']]
    return case


def run(ck):
    rng = ck.rng
    cases = []
    if ck.replay is None:
        t = ck.pick('HandleCache.cfg', 'HandleCacheBig.cfg')
        r = ck.design('HandleCache', t, workers=1)
        hist = [json.loads(json.loads('"%s"' % line[6:-1])) for line in r.out.splitlines()
                if line.startswith('"HIST ')]
        ck.count('generated_histories', len(hist))
        ck.design('HandleCache', 'HandleCacheDeep.cfg', name='HandleCache(deep)')
        # several workers with a common store (vectors in memory are not common)
        r = ck.design('HandleCache', ck.pick('HandleCacheDist.cfg', 'HandleCacheDistBig.cfg'), workers=1,
                      name='HandleCache(workers)')
        dist = [json.loads(json.loads('"%s"' % line[6:-1])) for line in r.out.splitlines()
                if line.startswith('"HIST ')]
        dist = [h for h in dist if len(set(o[3] for o in h['ops'])) == h['workers']
                and any(o[0] == 'put' for o in h['ops'])]
        dist = rng.sample(dist, min(len(dist), ck.pick(3000, 40000)))
        ck.count('generated_histories_workers', len(dist))
        for i, h in enumerate(hist + dist):
            kinds = KINDS if h['workers'] == 1 else SHARED
            for kind in (kinds if not ck.quick else rng.sample(kinds, 1)):
                case = {'cell': list(h['cell']), 'base': h['base'], 'kind': kind, 'workers': h['workers'],
                        'scale': [None if s == 99 else s for s in h['scale']], 'ops': h['ops']}
                cases.append(config(rng, case))
        # longer random histories over larger families
        for i in range(ck.pick(1500, 20000)):
            n = rng.randint(2, 6)
            base = [0] + [rng.choice([0, rng.randint(1, k), rng.randint(1, k)]) for k in range(1, n)]
            cell = [rng.randint(1, n) if rng.random() < .3 else k + 1 for k in range(n)]
            m = sorted(set(cell))
            W = rng.choice([1, 1, 2, 3, 4])
            case = {'cell': [m.index(x) + 1 for x in cell], 'base': base,
                    'kind': rng.choice(KINDS if W == 1 else SHARED), 'workers': W,
                    'nodes': rng.randint(1, W),
                    'scale': [rng.choice([None, None, None, 2, -1, 3, 0, 1]) for _ in range(n)], 'ops': []}
            for _ in range(rng.randint(6, 24)):
                h = rng.randint(1, n)
                w = rng.randint(1, W)
                case['ops'].append(['put', h, rng.randint(-90, 90), w] if rng.random() < .35 else ['get', h, 0, w])
            cases.append(config(rng, case))
        for c in cases:
            ck.count('kind ' + c['kind'])
            ck.count('workers %d' % c['workers'])
    got = ck.observe(many, chunks(cases, 50) if ck.replay is None else cases, what='batches of histories')
    flat = []
    for b, t in got:
        flat.extend(zip(b['batch'], t) if 'batch' in b else [(b, t)])
    ck.judge('HandleTrace', flat)


def chunks(cases, n):
    return [{'batch': cases[i:i + n]} for i in range(0, len(cases), n)]


def many(b):
    return [one(c) for c in b['batch']] if 'batch' in b else one(b)
