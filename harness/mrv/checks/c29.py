"""C29  The sanity check accepts exactly the well-behaved vectors."""
import copy
import numpy as np
from mrv import hl
from mrv import lti
from mrv import mpisim as S
from mrv import scen
from mrv import vs

GOOD = {'gm': 1, 'om': 0, 'am': 1, 'bm': 0, 'ga': 1, 'oa': 0, 'aa': 1, 'ba': 0, 'ao': 1, 'ad': 1}
FAULTS = [{'gm': 2}, {'gm': 0}, {'gm': -1}, {'om': 1}, {'om': -2}, {'am': 2}, {'am': 0}, {'am': -1}, {'bm': 1},
          {'ga': 0}, {'ga': 2}, {'ga': -1}, {'ga': -3}, {'oa': 1}, {'oa': -1}, {'aa': 2}, {'aa': 0}, {'ba': 1}, {'ao': 2}, {'ao': 0}, {'ao': 3},
          {'gm': 2, 'am': 2}, {'ga': 1, 'aa': 2}, {'ga': 3, 'gm': -1}, {'ga': -3, 'gm': -1}, {'gm': -1, 'aa': -1},
          {'gm': -2}, {'gm': 3, 'ga': -3}, {'gm': 0, 'ga': -3}, {'ga': -5}, {'gm': -1, 'ga': 5}, {'gm': -1, 'ga': -1},
          {'ad': 2}, {'ad': 0}, {'ad': 2}, {'ad': -1}]


def gen(ck):
    rng = ck.rng
    out = []
    for _ in range(ck.pick(1500, 15000)):
        P = rng.choice([1, 1, 2, 3])
        case = {'lay': scen.layout(rng, P), 'kind': 'class' if rng.random() < .8 else 'floats',
                'owner': rng.choice(['VectorSpaceHandles', 'POD', 'BPOD', 'DMD', 'TLSqrDMD']),
                'hasip': rng.random() < .93, 'cplx': rng.random() < .45, 'seed': rng.randrange(10 ** 6),
                'ip': rng.choice(['dot'] * 6 + ['bilinear', 'cubic', 'affine', 'taxi']), 'exp': 0}
        n = rng.randint(1, 4)
        f = dict(GOOD)
        if rng.random() < .55:
            f.update(rng.choice(FAULTS))
        v = [[rng.randint(-4, 4), rng.randint(-4, 4) if case['cplx'] else 0] for _ in range(n)]
        if rng.random() < .05:
            v = [[0, 0]] * n
        case.update(f, v=v, w=[rng.choice([1, 1, 2, 3]) for _ in range(n)])
        if case['kind'] == 'floats':
            case['size'] = rng.choice([1, 2, 5, 50, 400])
            case['real'] = rng.choice(['array', 'array2', 'trapz'])
            case['exp'] = rng.choice([0, 0, rng.randint(-10, 10), rng.randint(-120, 120)])
            case['ip'] = 'dot'
        else:
            case['exp'] = rng.choice([0, 0, 0, rng.randint(-6, 30), 100])
            if f == GOOD and case['ip'] in ('dot', 'bilinear', 'taxi'):
                case['exp'] = rng.choice([0, rng.randint(-250, 250)])
            case['store'] = rng.choice(['list', 'array'])
        case['small'] = 0
        if case['kind'] == 'class' and rng.random() < .3:
            # one small fault
            case.update(GOOD, exp=0, ip=rng.choice(['dot', 'dot', 'bilinear']), small=rng.randint(4, 24), hasip=True)
            name = rng.choice(sorted(GOOD))
            case[name] += rng.choice([1, -1])
        out.append(case)
    return out


def classes(case, vectors):
    u = 2. ** case['exp']
    h = 2. ** -case['small']
    case = dict(case, **{k: GOOD[k] + (case[k] - GOOD[k]) * h for k in GOOD})

    class Vec(vectors.Vector):
        def __init__(self, x):
            self.x = x

        def __mul__(self, k):
            r = Vec(case['gm'] * k * self.x + case['om'] * u)
            if case['am'] != 1 or case['bm'] != 0:
                self.x = case['am'] * self.x + case['bm'] * u
            return r

        def __add__(self, o):
            r = Vec(self.x + case['ga'] * o.x + case['oa'] * u)
            if o is self:
                # both operands are one object
                x = self.x
                if case['aa'] != 1 or case['ba'] != 0:
                    self.x = case['aa'] * x + case['ba'] * u
                if case['ao'] != 1:
                    self.x = case['ao'] * x
                return r
            if case['aa'] != 1 or case['ba'] != 0:
                self.x = case['aa'] * self.x + case['ba'] * u
            if case['ao'] != 1 or case['ad'] != 1:
                o.x = case['ao'] * case['ad'] * o.x
            return r

    w = np.array(case['w'], dtype=float)

    def ip(a, b):
        x, y = a.x, b.x
        if case['ip'] == 'dot':
            return (x.conj() * w * y).sum()
        if case['ip'] == 'bilinear':
            return (x * y).sum()
        if case['ip'] == 'cubic':
            return (x.conj() * y * y).sum() / u
        if case['ip'] == 'affine':
            return (x.conj() * y).sum() + u * u
        return (np.abs(x.real) + np.abs(x.imag)).sum() * (np.abs(y.real) + np.abs(y.imag)).sum()
    return Vec, ip


def one(case):
    lay = case['lay']
    P = lay['P']
    w = vs.world(lay)
    M = S.load(P, lay['nodes'])
    floats = case['kind'] == 'floats'
    begin = {k: case[k] for k in list(GOOD) + ['small', 'hasip', 'kind', 'v', 'w', 'ip']}
    begin.update(e='begin', P=P)
    clean = case['kind'] == 'floats' or all(case[k] == GOOD[k] for k in GOOD)

    def target(r):
        mods = M[r]
        V = mods['modred.vectors']
        if floats:
            rng = np.random.RandomState(case['seed'])
            n = case['size']
            shape = (n,) if case['real'] != 'array2' else (n, 2)
            x = rng.randn(*shape)
            if case['cplx']:
                x = x + 1j * rng.randn(*shape)
            vec = x * 2. ** case['exp']
            ip = V.inner_product_array_uniform if case['real'] != 'trapz' else V.InnerProductTrapz(np.cumsum(rng.rand(n)))
            raw = lambda: vec
        else:
            Vec, ip = classes(case, V)
            a = np.array([complex(*z) for z in case['v']])
            vec = Vec((a if case['cplx'] else a.real) * 2. ** case['exp'])
            raw = lambda: vec.x
        before = copy.deepcopy(raw())
        K = hl.CLASSES.get(case['owner'])
        make = getattr(mods[K['mod']], K['cls']) if K else mods['modred.vectorspace'].VectorSpaceHandles
        o = make(ip if case['hasip'] else None, verbosity=0, max_vecs_per_node=100)
        err = ''
        try:
            o.sanity_check(V.VecHandleInMemory(vec))
        except S.SimAbort:
            raise
        except Exception as ex:
            err = type(ex).__name__
        if clean:
            w.ev('kept', ok=bool(np.array_equal(before, raw())))
        w.ev('out', err=err)
        return True
    w.run(target, M)
    vs.finish(w)
    return {'ev': [begin] + [e for e in w.events if e['e'] in ('out', 'kept', 'error', 'end')]}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'vector classes')
    for case, rec in traces:
        ck.count('%s %s' % (case['kind'], case['ip']))
        if case['small']:
            ck.count('small fault')
    ck.judge('SanityTrace', traces)
    ck.assumptions += ['faults are at least of relative size 2 ^ -24, magnitudes of faulty vectors at least 2^-6',
                       'alterations which leave the inner product of the vector with itself unchanged are not judged',
                       'double precision']
