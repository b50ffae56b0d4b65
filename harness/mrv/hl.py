"""High-level scenarios: sequences of calls of the decomposition and projection classes on the
simulated workers (C05, C06, C09, C12, C17, ...)."""
import numpy as np
from mrv import mpisim as S
from mrv import vs

PODs = dict(mod='modred.pod', cls='PODHandles', decomp=['eigvals', 'eigvecs'],
            arrays=['eigvals', 'eigvecs', 'correlation_array', 'proj_coeffs'],
            load_one=['correlation_array', 'proj_coeffs'], modes=['modes'], coeffs=['proj_coeffs'])
BPODs = dict(mod='modred.bpod', cls='BPODHandles', decomp=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
             arrays=['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'direct_proj_coeffs',
                     'adjoint_proj_coeffs'],
             load_one=['Hankel_array', 'direct_proj_coeffs', 'adjoint_proj_coeffs'],
             modes=['direct_modes', 'adjoint_modes'], coeffs=['direct_proj_coeffs', 'adjoint_proj_coeffs'])
DMDs = dict(mod='modred.dmd', cls='DMDHandles',
            decomp=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals',
                    'correlation_array_eigvecs'],
            arrays=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals',
                    'correlation_array_eigvecs', 'correlation_array', 'cross_correlation_array',
                    'spectral_coeffs', 'proj_coeffs'],
            load_one=['correlation_array', 'cross_correlation_array', 'spectral_coeffs', 'proj_coeffs'],
            modes=['exact_modes', 'proj_modes', 'adjoint_modes'], coeffs=['spectrum', 'proj_coeffs'])
TLSs = dict(mod='modred.dmd', cls='TLSqrDMDHandles',
            decomp=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                    'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals',
                    'proj_correlation_array_eigvecs'],
            arrays=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                    'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals',
                    'proj_correlation_array_eigvecs', 'correlation_array', 'cross_correlation_array',
                    'adv_correlation_array', 'sum_correlation_array', 'proj_correlation_array',
                    'spectral_coeffs', 'proj_coeffs'],
            load_one=['correlation_array', 'cross_correlation_array', 'adv_correlation_array',
                      'sum_correlation_array', 'proj_correlation_array', 'spectral_coeffs',
                      'proj_coeffs'],
            modes=['exact_modes', 'proj_modes', 'adjoint_modes'], coeffs=['spectrum', 'proj_coeffs'])
CLASSES = {'POD': PODs, 'BPOD': BPODs, 'DMD': DMDs, 'TLSqrDMD': TLSs}
# the coefficient computation which has to precede saving an array
NEEDS = {'proj_coeffs': 'proj_coeffs', 'direct_proj_coeffs': 'direct_proj_coeffs',
         'adjoint_proj_coeffs': 'adjoint_proj_coeffs', 'spectral_coeffs': 'spectrum'}


def vec_of(x):
    """JSON components ([re, im] pairs, real units) to a Python vector."""
    if all(b == 0 for a, b in x):
        return tuple(float(a) for a, b in x)
    return tuple(complex(a, b) for a, b in x)


class Runner(object):
    """Executes a scenario on one simulated world.

    case: P, nodes, limit, sched.., 'data': {name: {'vecs': [...], 'adv': [...]}} and 'ops': a list of
    calls; 'obj' selects the object (several may be used)."""

    def __init__(self, case, keep_events=True, world=None, storage='mem', path=None):
        self.case = case
        self.M = S.load(case['P'], case['nodes'])
        self.w = world or vs.world(case)
        self.w.arrays = {}
        self.storage, self.path = storage, path
        self.results = {}         # (k, r) -> list of arrays
        self.calls = []
        for name, d in case['data'].items():
            for part in ('vecs', 'adv'):
                for i, x in enumerate(d.get(part) or []):
                    self.w.store['%s.%s.%d' % (name, part, i)] = vec_of(x)

    def handles(self, name, part='vecs'):
        d = self.case['data'][name]
        if d.get(part) is None:
            return None
        return [vs.H(self.w, '%s.%s.%d' % (name, part, i)) for i in range(len(d[part]))]

    # -- user supplied storage
    def put_array(self, a, dest):
        w = self.w
        w.yield_()
        w.ev('save', h=str(dest))
        S.CUR.ctx.prog.append(['save', 0, dest, 0])
        w.arrays[dest] = np.array(a)

    def get_array(self, src):
        w = self.w
        w.yield_()
        w.ev('load', h=str(src))
        a = w.arrays[src]
        # a storage returns columns for 1D arrays, like text files do
        return np.array(a) if a.ndim != 1 else np.array(a).reshape(-1, 1)

    def get_array1(self, src):
        self.get_array(src)
        return np.array(self.w.arrays[src])

    def obj(self, objs, r, name):
        if name in objs:
            return objs[name]
        spec = self.case['objs'][name]
        K = CLASSES.get(spec['cls'])
        kw = dict(verbosity=spec.get('verb', 0))
        if spec.get('limit') is not None:
            kw['max_vecs_per_node'] = spec['limit']
        if K is not None:
            cls = getattr(self.M[r][K['mod']], K['cls'])
            if self.storage == 'mem':
                kw.update(put_array=self.put_array, get_array=self.get_array)
            elif self.storage == 'mem1':
                kw.update(put_array=self.put_array, get_array=self.get_array1)
            elif self.storage == 'ctext':
                u = self.M[r]['modred.util']
                kw.update(put_array=lambda a, d: u.save_array_text(np.array(a, dtype=complex), d),
                          get_array=lambda f: u.load_array_text(f, is_complex=True))
            o = cls(spec.get('ip_fn', vs.ip), **kw)
        else:
            g = self.M[r]['modred.ltigalerkinproj']
            o = g.LTIGalerkinProjectionHandles(
                vs.ip, self.handles(spec['basis']),
                adjoint_basis_vec_handles=self.handles(spec['basis'], 'adv'),
                is_basis_orthonormal=spec.get('orth', False), put_array=self.put_array, **kw)
        objs[name] = o
        return o

    def dest(self, d):
        if self.storage in ('mem', 'mem1'):
            return d
        import os
        return os.path.join(self.path, str(d).replace('/', '_'))

    def outputs(self, k, op):
        """Names of the vectors / arrays call k has to produce, and of those it loads."""
        t = op['op']
        outs, saves, loads = [], [], []
        if t == 'modes':
            outs = ['o%d.%d' % (k, i) for i in range(len(op['idx']))]
        elif t == 'derivs':
            outs = ['o%d.%d' % (k, i) for i in range(len(self.case['data'][op['data']]['vecs']))]
        elif t == 'lc':
            outs = ['o%d.%d' % (k, i) for i in range(len(op['coef'][0]))]
        elif t == 'put':
            saves = [op['dest']] if op['what'] != 'proj_coeffs' or not self._two(op) else \
                [op['dest'], op['dest'] + '.adv']
        elif t == 'putdecomp':
            saves = ['%s.%s' % (op['dest'], a) for a in CLASSES[self.case['objs'][op['obj']]['cls']]['decomp']]
        elif t == 'putmodel':
            saves = ['%s.%s' % (op['dest'], a) for a in 'ABC']
        elif t == 'get':
            loads = [op['src']] if op['what'] != 'proj_coeffs' or not self._two(op) else \
                [op['src'], op['src'] + '.adv']
        elif t == 'getdecomp':
            loads = ['%s.%s' % (op['src'], a) for a in CLASSES[self.case['objs'][op['obj']]['cls']]['decomp']]
        return outs, saves, loads

    def _two(self, op):
        return self.case['objs'][op['obj']]['cls'] in ('DMD', 'TLSqrDMD')

    def do(self, objs, r, k, op):
        """Perform call k on worker r; returns its results (list of arrays)."""
        t = op['op']
        mod = self.M[r]
        if t == 'ip':
            sp = mod['modred.vectorspace'].VectorSpaceHandles(vs.ip, max_vecs_per_node=op.get('limit'), verbosity=0)
            return [sp.compute_inner_product_array(self.handles(op['data']), self.handles(op['data'], 'adv'))]
        if t == 'symm':
            sp = mod['modred.vectorspace'].VectorSpaceHandles(vs.ip, max_vecs_per_node=op.get('limit'), verbosity=0)
            return [sp.compute_symm_inner_product_array(self.handles(op['data']))]
        if t == 'lc':
            sp = mod['modred.vectorspace'].VectorSpaceHandles(vs.ip, max_vecs_per_node=op.get('limit'), verbosity=0)
            sp.lin_combine([vs.H(self.w, h) for h in self.calls[k][0]], self.handles(op['data']),
                           np.array(op['coef']))
            return []
        if t == 'derivs':
            mod['modred.ltigalerkinproj'].compute_derivs_handles(
                self.handles(op['data']), self.handles(op['data'], 'adv'),
                [vs.H(self.w, h) for h in self.calls[k][0]], op['dt'])
            return []
        o = self.obj(objs, r, op['obj'])
        cls = self.case['objs'][op['obj']]['cls']
        K = CLASSES.get(cls)
        if t == 'decomp':
            kw = {a: op[a] for a in ('atol', 'rtol', 'num_inputs', 'num_outputs', 'max_num_eigvals') if a in op}
            h, a = self.handles(op['data']), self.handles(op['data'], 'adv')
            if cls == 'POD':
                out = o.compute_decomp(h, **kw)
            elif cls == 'BPOD':
                out = o.compute_decomp(h, a, **kw)
            else:
                out = o.compute_decomp(h, adv_vec_handles=a, **kw) if a is not None else o.compute_decomp(h, **kw)
            return list(out)
        if t == 'redo':
            kw = {a: op[a] for a in ('atol', 'rtol', 'max_num_eigvals') if a in op}
            (o.compute_SVD if cls == 'BPOD' else o.compute_eigendecomp)(**kw)
            return []
        if t == 'modes':
            hs = [vs.H(self.w, h) for h in self.calls[k][0]]
            kw = {}
            if op.get('src') is not None:
                part = 'vecs'
                key = 'vec_handles'
                if op['kind'] == 'adjoint_modes' and cls == 'BPOD':
                    part, key = 'adv', 'adjoint_vec_handles'
                elif op['kind'] == 'direct_modes':
                    key = 'direct_vec_handles'
                elif op['kind'] == 'exact_modes':
                    key = 'adv_vec_handles'
                    part = 'adv' if self.case['data'][op['src']].get('adv') is not None else 'vecs'
                hh = self.handles(op['src'], part)
                if key == 'adv_vec_handles' and part == 'vecs':
                    hh = hh[1:]
                kw[key] = hh
            getattr(o, 'compute_' + op['kind'])(list(op['idx']), hs, **kw)
            return []
        if t == 'coeffs':
            out = getattr(o, 'compute_' + op['kind'])()
            return list(out) if isinstance(out, tuple) else [out]
        if t == 'put':
            d = [self.dest(x) for x in self.calls[k][1]]
            getattr(o, 'put_' + op['what'])(*d)
            return []
        if t == 'putdecomp':
            o.put_decomp(*[self.dest(x) for x in self.calls[k][1]])
            return []
        if t == 'get':
            getattr(o, 'get_' + op['what'])(*[self.dest(x) for x in self.calls[k][2]])
            return [getattr(o, op['what'])] + ([o.adv_proj_coeffs] if len(self.calls[k][2]) == 2 else [])
        if t == 'getdecomp':
            o.get_decomp(*[self.dest(x) for x in self.calls[k][2]])
            return [getattr(o, a) for a in K['decomp']]
        if t == 'model':
            A = self.handles(op['data'])
            B = self.handles(op['data'], 'adv')
            return list(o.compute_model(A, B, [np.array(c) for c in op['C']]))
        if t == 'putmodel':
            o.put_model(*self.calls[k][1])
            return []
        raise ValueError(t)

    def run(self):
        case, w = self.case, self.w
        self.calls = [self.outputs(k, op) for k, op in enumerate(case['ops'])]

        def target(r):
            objs = {}
            c = S.CUR.ctx
            for k, op in enumerate(case['ops']):
                w.ev('call', k=k)
                out = self.do(objs, r, k, op)
                self.results[k, r] = out
                c.prog.append(['ret', k, 0, 0])
                w.ev('ret', k=k, res=quant(out))
            return True

        w.run(target, self.M)
        vs.finish(w)
        for e in w.events:
            if e['e'] == 'put':
                e.pop('v', None)
        outs = [h for o in self.calls for h in o[0]]
        w.events[-1]['final'] = quant([np.array(w.store[h]) for h in outs if w.store.get(h) is not None])
        return self

    def trace(self, ref=None):
        """The record for OutputsTrace.tla."""
        begin = {'e': 'begin', 'P': self.case['P'], 'ref': ref or [],
                 'calls': [{'outs': o, 'saves': s, 'loads': l} for o, s, l in self.calls]}
        return {'ev': [begin] + [e for e in self.w.events if e['e'] != 'get']}

    def ref(self):
        """The results of this run, as reference for other schedules."""
        n = len(self.calls)
        try:
            return [quant(self.results[k, 0]) for k in range(n)] + [self.w.events[-1]['final']]
        except KeyError:
            return []


def fx(x, s=10000.):
    """Float to fixed point, NOTNUM when it does not fit."""
    try:
        y = float(x) * s
    except Exception:
        return vs.NOTNUM
    if y != y or abs(y) > 1.0e9:
        return vs.NOTNUM
    return int(round(y))


def quant(arrays, s=10000.):
    """Arrays to one list of fixed-point integers (shape first)."""
    out = []
    for a in arrays:
        a = np.asarray(a)
        out.extend(int(n) for n in a.shape)
        for z in a.reshape(-1).tolist():
            z = complex(z)
            out.append(fx(z.real, s))
            out.append(fx(z.imag, s))
    return out
