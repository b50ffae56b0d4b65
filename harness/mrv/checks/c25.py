"""C25  Invalid requests are refused before any output is written."""
import os
import shutil
import tempfile
import numpy as np
from mrv import data as D
from mrv import hl
from mrv import lti
from mrv import mpisim as S
from mrv import scen
from mrv import vs

FNS = ['compute_POD_arrays_snaps_method', 'compute_POD_arrays_direct_method', 'compute_BPOD_arrays',
       'compute_DMD_arrays_snaps_method', 'compute_DMD_arrays_direct_method',
       'compute_TLSqrDMD_arrays_snaps_method', 'compute_TLSqrDMD_arrays_direct_method', 'LTIGalerkinProjectionArrays']


def near(rng, n, p=.35):
    """n, or sometimes something else."""
    return n if rng.random() > p else max(1, n + rng.choice([-2, -1, 1, 2]))


def local(rng):
    """A request which involves no vector handles."""
    op = rng.choice(['arrays', 'arrays', 'arrays', 'weights', 'scale', 'sampled', 'era', 'okid', 'save', 'loadcomplex',
                     'signals', 'trapz', 'trapzcall', 'abstract', 'channel'])
    q = {'op': op}
    if op == 'arrays':
        q.update(fn=rng.choice(FNS), mismatch=False, wdim=rng.choice([0, 0, 1, 2, 2, 3]), n=rng.randint(2, 3), m=rng.randint(2, 3))
        if rng.random() < .35 and ('DMD' in q['fn'] or 'LTI' in q['fn']):
            q['mismatch'] = True
    elif op == 'weights':
        q.update(wdim=rng.choice([0, 1, 2, 3, 4]))
    elif op == 'scale':
        q.update(choice=rng.choice(['left', 'LEFT', 'Left', 'right', 'RIGHT', 'Right', 'both', '', 'lef', 'up', 'leftright', 'l']))
    elif op == 'sampled':
        q.update(nt=rng.randint(2, 6), even=rng.random() < .6)
        q['nm'] = near(rng, q['nt'])
        if q['nt'] == 2:
            q['even'] = True
    elif op == 'era':
        q.update(ndim=rng.choice([1, 2, 3, 3, 4]), nt=rng.randint(2, 12), mo=rng.randint(0, 5), mc=rng.randint(0, 5))
        if rng.random() < .5:
            q['mo'] = max(0, q['nt'] // 2 + 1 - q['mc'] + rng.choice([-1, 0, 0, 1]))
    elif op == 'okid':
        q['ni'] = rng.randint(6, 9)
        q['no'] = near(rng, q['ni'], .5)
    elif op == 'save':
        q['ndim'] = rng.choice([1, 2, 3, 4])
    elif op == 'loadcomplex':
        q['cols'] = rng.randint(1, 5)
    elif op == 'signals':
        q['cols'] = rng.randint(1, 3)
    elif op == 'trapz':
        q.update(grids=rng.choice([0, 1, 2, 3]), list=rng.random() < .4)
        if q['grids'] == 0:
            q['list'] = False
    elif op == 'trapzcall':
        q['grid'] = [rng.randint(2, 3) for _ in range(rng.randint(1, 2))]
        sh = [list(q['grid']), list(q['grid'])]
        how = rng.choice(['ok', 'ok', 'one', 'flat', 'swap', 'both'])
        if how != 'ok':
            i = rng.randrange(2)
            if how == 'one':
                sh[i][-1] += 1
            elif how == 'flat':
                sh[i] = sh[i] + [1]
            elif how == 'swap':
                sh[i] = sh[i][::-1]
            else:
                sh = [[n + 1 for n in sh[0]]] * 2
        q.update(shape1=sh[0], shape2=sh[1])
    elif op == 'abstract':
        q['what'] = rng.choice(['get', 'put', 'vector', 'add', 'mul', 'rmul'])
    elif op == 'channel':
        q['name'] = rng.choice(['stdout', 'STDOUT', 'Stdout', 'stderr', 'STDERR', 'out', 'stdoutput', '', 'file'])
    return q


def vector(rng):
    op = rng.choice(['lc', 'lc', 'lc', 'ip', 'symm', 'sanity', 'derivs', 'galnew', 'galreduce'])
    q = {'op': op, 'limit': rng.choice([None, 3, 100])}
    if op in ('ip', 'symm', 'sanity'):
        q.update(ip=rng.random() < .6, n=rng.randint(1, 4), a=rng.randint(1, 4))
    elif op == 'derivs':
        n = rng.randint(1, 4)
        q.update(n=n, a=near(rng, n), d=near(rng, n))
    elif op == 'galnew':
        n = rng.randint(1, 4)
        q.update(n=n, a=rng.choice([-1, near(rng, n, .5)]))
    elif op == 'galreduce':
        n = rng.randint(1, 3)
        q.update(n=n, ip=rng.random() < .5, what=rng.choice('AB'))
    else:
        nb, ns = rng.randint(1, 4), rng.randint(1, 4)
        q.update(nb=nb, ns=ns, sel=rng.random() < .5, idx=[], bare=rng.random() < .3)
        q['ndim'] = 2
        if rng.random() < .3:
            q['ndim'] = 1
            q['shape'] = [near(rng, max(nb, ns) if rng.random() < .5 else nb)]
            cols = q['shape'][0] if nb == 1 else 1
        else:
            cols = ns if not q['sel'] else rng.randint(1, 5)
            q['shape'] = [near(rng, nb, .25), near(rng, cols, .25)]
            cols = q['shape'][1]
        if q['sel']:
            q['idx'] = [rng.randrange(cols + (1 if rng.random() < .2 else 0)) for _ in range(near(rng, ns, .25))]
    return q


def sessions(rng, asks, data):
    """Requests to one or two decomposition objects."""
    cls = rng.choice(['POD', 'BPOD', 'DMD', 'TLSqrDMD'])
    K = hl.CLASSES[cls]
    d, m = scen.dataset(rng, cls)
    name = 'd%d' % len(data)
    data[name] = d
    n = len(d['vecs'])
    a = len(d['adv']) if d.get('adv') is not None else -1
    o = 'o%d' % len(asks)
    asks.append({'op': 'new', 'obj': o, 'cls': cls, 'ip': rng.random() < .85, 'limit': rng.choice([None, 3, 100])})
    objs = [o]
    saved = None
    for _ in range(rng.randint(3, 7)):
        x = rng.random()
        o = rng.choice(objs)
        if x < .3 or not any(q['op'] in ('decomp', 'load') and q['obj'] == o for q in asks):
            q = {'op': 'decomp', 'obj': o, 'cls': cls, 'data': name, 'n': n, 'a': a, 'm': m, 'bad': False}
            if cls in ('DMD', 'TLSqrDMD') and a > 1 and rng.random() < .35:
                q['a'] = a - 1
            asks.append(q)
        elif x < .4 and saved is None and any(q['op'] == 'decomp' and q['obj'] == o and q['a'] == a for q in asks) and \
                not any(q['op'] == 'new' and q['obj'] == o and not q['ip'] for q in asks):
            saved = o
            asks.append({'op': 'putdecomp', 'obj': o, 'cls': cls, 'dest': 's'})
            p = 'p%d' % len(asks)
            asks.append({'op': 'new', 'obj': p, 'cls': cls, 'ip': rng.random() < .8, 'limit': 100})
            asks.append({'op': 'load', 'obj': p, 'from': o, 'cls': cls, 'src': 's'})
            objs.append(p)
        elif x < .45 and cls == 'TLSqrDMD':
            asks.append({'op': 'unavail', 'obj': o, 'cls': cls, 'what': rng.choice(['eigvals', 'eigvecs'])})
        else:
            kind = rng.choice(K['modes'])
            part = 'adv' if (kind == 'adjoint_modes' and cls == 'BPOD') or (kind == 'exact_modes' and a >= 0) else 'vecs'
            full = len(d[part])
            cut = kind == 'exact_modes' and part == 'vecs'
            src = rng.choice([-1, -1, full - 1 if cut else full, full - 1, full - 2])
            if src == 0 or src < -1:
                src = -1
            idx = [rng.randrange(m + (1 if rng.random() < .15 else 0)) for _ in range(rng.randint(1, m))]
            asks.append({'op': 'modes', 'obj': o, 'cls': cls, 'kind': kind, 'idx': idx, 'nh': near(rng, len(idx), .25),
                         'src': src, 'data': name, 'part': part, 'cut': cut, 'bare': rng.random() < .3})


def gen(ck):
    rng = ck.rng
    out = []
    for i in range(ck.pick(900, 9000)):
        P = rng.choice([1, 1, 2, 3, 4])
        asks, data = [], {}
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < .35:
                sessions(rng, asks, data)
            elif x < .7:
                asks += [local(rng) for _ in range(rng.randint(2, 5))]
            else:
                asks += [vector(rng) for _ in range(rng.randint(1, 4))]
        out.append({'lay': scen.layout(rng, P), 'asks': asks, 'data': data, 'seed': rng.randrange(10 ** 6)})
    return out


def mro(ex):
    return [t.__name__ for t in type(ex).__mro__ if t is not object]


class Asker(object):
    def __init__(self, case, w, r, mods, path):
        self.case, self.w, self.r, self.m, self.path = case, w, r, mods, path
        self.objs = {}
        self.k = 0

    def hs(self, pre, n, start=0):
        return [vs.H(self.w, '%s.%d' % (pre, i)) for i in range(start, n)]

    def make(self, n):
        """n small vectors in the store."""
        return self.hs('v', n)

    def out(self, n):
        return self.hs('out%d' % self.k, n)

    def put_array(self, a, dest):
        self.w.yield_()
        self.w.ev('save', h=str(dest))
        self.w.arrays[dest] = np.array(a)

    def get_array(self, src):
        return np.array(self.w.arrays[src])

    def do(self, q):
        return getattr(self, 'do_' + q['op'])(q)

    def do_new(self, q):
        K = hl.CLASSES[q['cls']]
        kw = {} if q['limit'] is None else {'max_vecs_per_node': q['limit']}
        self.objs[q['obj']] = getattr(self.m[K['mod']], K['cls'])(
            vs.ip if q['ip'] else None, put_array=self.put_array, get_array=self.get_array, verbosity=0, **kw)

    def do_decomp(self, q):
        o = self.objs[q['obj']]
        v, a = self.hs(q['data'] + '.vecs', q['n']), self.hs(q['data'] + '.adv', q['a']) if q['a'] >= 0 else None
        d = self.case['data'][q['data']]
        if q['cls'] == 'POD':
            o.compute_decomp(v)
        elif q['cls'] == 'BPOD':
            o.compute_decomp(v, a, num_inputs=d['p'], num_outputs=d['q'], atol=1e-8)
        elif a is None:
            o.compute_decomp(v, atol=1e-6)
        else:
            o.compute_decomp(v, adv_vec_handles=a, atol=1e-6)

    def do_putdecomp(self, q):
        self.objs[q['obj']].put_decomp(*['%s.%s' % (q['dest'], a) for a in hl.CLASSES[q['cls']]['decomp']])

    def do_load(self, q):
        self.objs[q['obj']].get_decomp(*['%s.%s' % (q['src'], a) for a in hl.CLASSES[q['cls']]['decomp']])

    def do_modes(self, q):
        kw = {}
        if q['src'] >= 0:
            key = {'direct_modes': 'direct_vec_handles', 'exact_modes': 'adv_vec_handles'}.get(q['kind'], 'vec_handles')
            if q['kind'] == 'adjoint_modes' and q['cls'] == 'BPOD':
                key = 'adjoint_vec_handles'
            s = 1 if q['cut'] else 0
            full = len(self.case['data'][q['data']][q['part']])
            kw[key] = [vs.H(self.w, '%s.%s.%d' % (q['data'], q['part'], (i + s) % full)) for i in range(q['src'])]
        h = self.out(q['nh'])
        idx = list(q['idx'])
        if q['bare'] and len(idx) == 1 and len(h) == 1:
            idx, h = idx[0], h[0]
        getattr(self.objs[q['obj']], 'compute_' + q['kind'])(idx, h, **kw)

    def do_unavail(self, q):
        getattr(self.objs[q['obj']], 'put_correlation_array_' + q['what'])('x%d' % self.k)

    def space(self, q, ip=True):
        return self.m['modred.vectorspace'].VectorSpaceHandles(vs.ip if ip else None, max_vecs_per_node=q['limit'], verbosity=0)

    def do_lc(self, q):
        rng = np.random.RandomState(self.case['seed'] + self.k)
        coef = rng.randint(-3, 4, size=q['shape'])
        h, b = self.out(q['ns']), self.make(q['nb'])
        if q['bare'] and len(h) == 1:
            h = h[0]
        if q['bare'] and len(b) == 1:
            b = b[0]
        sp = self.space(q, self.k % 2 == 0)
        if q['sel']:
            sp.lin_combine(h, b, coef, coeff_array_col_indices=q['idx'])
        else:
            sp.lin_combine(h, b, coef)

    def do_ip(self, q):
        self.space(q, q['ip']).compute_inner_product_array(self.make(q['n']), self.make(q['a']))

    def do_symm(self, q):
        self.space(q, q['ip']).compute_symm_inner_product_array(self.make(q['n']))

    def do_sanity(self, q):
        K = hl.CLASSES[['POD', 'BPOD', 'DMD', 'TLSqrDMD'][self.k % 4]]
        if self.k % 5 == 0:
            o = self.space(q, q['ip'])
        else:
            o = getattr(self.m[K['mod']], K['cls'])(vs.ip if q['ip'] else None, max_vecs_per_node=100, verbosity=0)
        o.sanity_check(self.make(1)[0])

    def do_derivs(self, q):
        self.m['modred.ltigalerkinproj'].compute_derivs_handles(self.make(q['n']), self.make(q['a']), self.out(q['d']), .5)

    def gal(self, q, ip=True):
        kw = {'adjoint_basis_vec_handles': self.make(q['a'])} if q.get('a', -1) >= 0 else {}
        return self.m['modred.ltigalerkinproj'].LTIGalerkinProjectionHandles(
            vs.ip if ip else None, self.make(q['n']), put_array=self.put_array, verbosity=0, max_vecs_per_node=100,
            is_basis_orthonormal=True, **kw)

    def do_galnew(self, q):
        self.gal(q)

    def do_galreduce(self, q):
        o = self.gal(q, q['ip'])
        getattr(o, 'reduce_' + q['what'])(self.make(q['n']))

    # ---- without vector handles
    def weights(self, dim, n):
        if dim == 0:
            return None
        if dim == 1:
            return np.ones(n)
        if dim == 2:
            return np.eye(n)
        return np.ones((n,) * dim) if n > 1 else np.ones((2,) * dim)

    def do_arrays(self, q):
        fn, n, m = q['fn'], q['n'], q['m']
        mod = 'pod' if 'POD' in fn else 'dmd'
        if 'BPOD' in fn:
            mod = 'bpod'
        if 'LTI' in fn:
            mod = 'ltigalerkinproj'
        f = getattr(self.m['modred.' + mod], fn)
        rng = np.random.RandomState(self.case['seed'] + self.k)
        X = np.eye(n, m) + .1 * rng.randint(-1, 2, size=(n, m))
        Y = np.diag(np.arange(1., n + 1)).dot(X)
        bad = [Y[:, :-1], Y[:-1], np.hstack([Y, Y]), Y.T if n != m else Y[:, 1:]][self.case['seed'] % 4]
        kw = {}
        if q['wdim']:
            kw['inner_product_weights'] = self.weights(q['wdim'], n)
        if mod == 'pod':
            f(X, **kw)
        elif mod == 'bpod':
            f(X, Y, **kw)
        elif mod == 'dmd':
            f(X, adv_vecs=bad if q['mismatch'] else Y, **kw)
        else:
            f(X, adjoint_basis_vecs=bad if q['mismatch'] else Y, **kw)

    def do_weights(self, q):
        self.m['modred.vectorspace'].VectorSpaceArrays(weights=self.weights(q['wdim'], 2))

    def do_scale(self, q):
        self.m['modred.util'].eig_biorthog(np.array([[2., 1.], [0., 1.]]), scale_choice=q['choice'])

    def do_sampled(self, q):
        t = np.arange(q['nt']) * .5
        if not q['even']:
            t[-1] += .25
        self.m['modred.era'].make_sampled_format(t, np.ones((q['nm'], 2, 1)))

    def do_era(self, q):
        M = .5 ** np.arange(q['nt'])
        M = M.reshape((q['nt'],) + (1,) * (q['ndim'] - 1))
        self.m['modred.era'].ERA(verbosity=0, mo=q['mo'], mc=q['mc'], put_array=self.put_array).compute_model(M, 1)

    def do_okid(self, q):
        rng = np.random.RandomState(5)
        self.m['modred.okid'].OKID(rng.rand(1, q['ni']), rng.rand(1, q['no']), 2)

    def file(self, name):
        return os.path.join(self.path, '%s.%d.%d' % (name, self.k, self.r))

    def do_save(self, q):
        p = self.file('save')
        try:
            self.m['modred.util'].save_array_text(np.ones((2,) * q['ndim']), p)
        finally:
            if os.path.exists(p):
                self.w.ev('save', h=p)

    def do_loadcomplex(self, q):
        p = self.file('cplx')
        np.savetxt(p, np.ones((2, q['cols'])))
        self.m['modred.util'].load_array_text(p, is_complex=True)

    def do_signals(self, q):
        p = self.file('sig')
        np.savetxt(p, np.ones((2, q['cols'])))
        u = self.m['modred.util']
        (u.load_signals(p) if self.k % 2 else u.load_multiple_signals([p, p]))

    def do_trapz(self, q):
        g = [np.linspace(0, 1, 3) for _ in range(q['grids'])]
        if q['list']:
            g[self.k % len(g)] = [0., .5, 1.] if self.k % 3 else (0., 1.)
        self.m['modred.vectors'].InnerProductTrapz(*g)

    def do_trapzcall(self, q):
        t = self.m['modred.vectors'].InnerProductTrapz(*[np.linspace(0, 1, n) for n in q['grid']])
        (t if self.k % 2 else t.inner_product)(np.ones(q['shape1']), np.ones(q['shape2']))

    def do_abstract(self, q):
        v = self.m['modred.vectors']
        what = q['what']
        if what == 'get':
            v.VecHandle().get()
        elif what == 'put':
            v.VecHandle().put(1)
        elif what == 'vector':
            v.Vector()
        else:
            class X(v.Vector):
                def __init__(self):
                    pass
            x = X()
            {'add': lambda: x + x, 'mul': lambda: x * 2., 'rmul': lambda: 2. * x}[what]()

    def do_channel(self, q):
        self.m['modred.py2to3'].print_msg('-', output_channel=q['name'])


def one(case):
    lay = case['lay']
    P = lay['P']
    w = vs.world(lay)
    M = S.load(P, lay['nodes'])
    w.arrays = {}
    rng = np.random.RandomState(case['seed'])
    for i in range(6):
        w.store['v.%d' % i] = tuple(float(x) for x in rng.randint(-3, 4, size=6) + 4 * np.eye(6)[i])
    for name, d in case['data'].items():
        for part in ('vecs', 'adv'):
            for i, x in enumerate(d.get(part) or []):
                w.store['%s.%s.%d' % (name, part, i)] = hl.vec_of(x)
    path = tempfile.mkdtemp(dir='.')
    evs = [{'e': 'begin', 'P': P, 'asks': [{a: b for a, b in q.items() if a not in ('limit', 'data')} for q in case['asks']]}]

    def target(r):
        a = Asker(case, w, r, M[r], path)
        for k, q in enumerate(case['asks']):
            a.k = k
            n0 = len(w.events)
            err = []
            try:
                a.do(q)
            except S.SimAbort:
                raise
            except Exception as ex:
                err = mro(ex)
            wrote = sum(1 for e in w.events[n0:] if e['e'] in ('put', 'save') and e.get('r') == r)
            w.ev('out', k=k + 1, err=err, wrote=wrote)
        return True
    try:
        w.run(target, M)
        vs.finish(w)
    finally:
        shutil.rmtree(path, ignore_errors=True)
    evs += [e for e in w.events if e['e'] in ('out', 'error', 'end')]
    return {'ev': evs}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, one, gen(ck) if ck.replay is None else [], 'sequences of requests')
    for case, rec in traces:
        for q in case['asks']:
            ck.count(q['op'])
    ck.judge('GuardTrace', traces)
