"""Sessions of decomposition objects: histories of calls with the arrays each of them
produced, for SessionTrace.tla."""
import os
import shutil
import tempfile
import numpy as np
from mrv import hl, mpisim as S, vs

INPUTS = {'POD': ['correlation_array'], 'BPOD': ['Hankel_array'],
          'DMD': ['correlation_array', 'cross_correlation_array'],
          'TLSqrDMD': ['correlation_array', 'cross_correlation_array', 'adv_correlation_array']}
DERIVED = {'TLSqrDMD': ['sum_correlation_array', 'proj_correlation_array']}


def flat(a, s=1e4):
    a = np.asarray(a)
    if a.dtype == object or a.ndim > 2:
        return [vs.NOTNUM, a.ndim]
    if a.ndim < 2:
        a = a.reshape(-1, 1)
    out = list(a.shape)
    for z in a.reshape(-1).tolist():
        z = complex(z)
        out.append(hl.fx(z.real, s))
        out.append(hl.fx(z.imag, s))
    return out


def files(case, op):
    cls = case['objs'][op['obj']]['cls']
    if op['op'] in ('putdecomp', 'getdecomp'):
        d = op.get('dest') or op.get('src')
        return ['%s.%s' % (d, a) for a in hl.CLASSES[cls]['decomp']]
    d = op.get('dest') or op.get('src')
    if op['what'] == 'proj_coeffs' and cls in ('DMD', 'TLSqrDMD'):
        return [d, d + '.adv']
    return [d]


def params(op):
    return ';'.join('%s=%s' % (k, op[k]) for k in ('atol', 'rtol', 'max_num_eigvals') if op.get(k) is not None)


class Session(hl.Runner):
    """A Runner which records, on one worker, what every call produced."""

    def abstract(self, op):
        t = op['op']
        if t == 'write':
            return {'op': t, 'data': op['data'], 'with': op['with']}
        if t == 'pure':
            return {'op': 'pure', 'key': op['key'], 'data': op['data'], 'n': op['n']}
        a = {'op': t, 'obj': op['obj']}
        if t in ('put', 'get', 'putdecomp', 'getdecomp'):
            a['files'] = files(self.case, op)
        if t in ('put', 'get'):
            a['what'] = op['what']
        if t in ('decomp', 'redo'):
            a['p'] = params(op)
        if t == 'decomp':
            a['data'] = op['data']
            a['seq'] = self.case['objs'][op['obj']]['cls'] in ('DMD', 'TLSqrDMD') and \
                self.case['data'][op['data']].get('adv') is None
        if t == 'modes':
            a.update(kind=op['kind'], idx=list(op['idx']), src=op.get('src') or '')
        if t == 'coeffs':
            a['kind'] = op['kind']
        return a

    def stored(self, name, cplx=False):
        if self.storage in ('mem', 'mem1'):
            return self.w.arrays.get(name)
        with open(self.dest(name)) as f:
            a = np.array([[float(x) for x in ln.split()] for ln in f.read().split('\n') if ln])
        return a[:, ::2] + 1j * a[:, 1::2] if cplx or self.storage == 'ctext' else a

    def produced(self, objs, op, k, out):
        t = op['op']
        if t == 'write':
            return []
        if t == 'pure':
            return out
        o = objs[op['obj']]
        cls = self.case['objs'][op['obj']]['cls']
        K = hl.CLASSES[cls]
        if t == 'decomp':
            return out + [getattr(o, a) for a in INPUTS[cls] + DERIVED.get(cls, [])]
        if t == 'redo':
            return [getattr(o, a) for a in K['decomp'] + DERIVED.get(cls, [])]
        if t == 'modes':
            return [np.array(self.w.store[h]) if self.w.store.get(h) is not None else np.array([[[0]]])
                    for h in self.calls[k][0]]
        if t in ('put', 'putdecomp'):
            at = K['decomp'] if t == 'putdecomp' else [op['what'], 'adv_' + op['what']]
            return [self.stored(n, np.iscomplexobj(getattr(o, a)))
                    for n, a in zip(files(self.case, op), at)]
        return out

    def outputs(self, k, op):
        if op['op'] in ('write', 'pure'):
            return [], [], []
        return hl.Runner.outputs(self, k, op)

    def do(self, objs, r, k, op):
        if op['op'] == 'write':
            w = self.w
            par = self.M[r]['modred.parallel']
            par.barrier()
            if r == 0:
                src, dst = self.case['data'][op['with']], self.case['data'][op['data']]
                for part in ('vecs', 'adv'):
                    for i in range(len(dst.get(part) or [])):
                        self.w.store['%s.%s.%d' % (op['data'], part, i)] = \
                            self.w.store['%s.%s.%d' % (op['with'], part, i)]
            par.barrier()
            return []
        if op['op'] == 'pure':
            return self.pure(objs, r, k, op)
        return hl.Runner.do(self, objs, r, k, op)

    def pure(self, objs, r, k, op):
        """Objects whose every call depends only on its arguments."""
        mod = self.M[r]
        t = op['what']
        key = op['obj']
        if t in ('ip', 'symm', 'lc'):
            if key not in objs:
                objs[key] = mod['modred.vectorspace'].VectorSpaceHandles(
                    vs.ip, max_vecs_per_node=op.get('limit'), verbosity=0)
            sp = objs[key]
            d = op['data'][0]
            if t == 'ip':
                return [sp.compute_inner_product_array(self.handles(d), self.handles(d, 'adv'))]
            if t == 'symm':
                return [sp.compute_symm_inner_product_array(self.handles(d))]
            outs = ['t%d.%d' % (k, i) for i in range(len(op['coef'][0]))]
            sp.lin_combine([vs.H(self.w, h) for h in outs], self.handles(d), np.array(op['coef']))
            return [np.array(self.w.store[h]) for h in outs]
        if t in ('gA', 'gB', 'gC', 'gM'):
            if key not in objs:
                g = mod['modred.ltigalerkinproj']
                b = op['data'][0]
                objs[key] = g.LTIGalerkinProjectionHandles(
                    vs.ip, self.handles(b), adjoint_basis_vec_handles=self.handles(b, 'adv'),
                    is_basis_orthonormal=op.get('orth', False), verbosity=0, put_array=self.put_array)
            o = objs[key]
            d = op['data'][-1]
            C = [np.array(c) for c in op['C']] if 'C' in op else None
            if t == 'gA':
                return [o.reduce_A(self.handles(d))]
            if t == 'gB':
                return [o.reduce_B(self.handles(d, 'adv'))]
            if t == 'gC':
                return [o.reduce_C(C)]
            return list(o.compute_model(self.handles(d), self.handles(d, 'adv'), C))
        if t == 'era':
            if key not in objs:
                objs[key] = mod['modred.era'].ERA(verbosity=0, **op.get('ctor', {}))
            o = objs[key]
            A, B, C = o.compute_model(np.array(op['M']), op['nst'], **op.get('sizes', {}))
            return [A, B, C, o.sing_vals, o.Hankel_array, o.Hankel_array2]
        raise ValueError(t)

    def run(self, again=True):
        case, w = self.case, self.w
        self.calls = [self.outputs(k, op) for k, op in enumerate(case['ops'])]
        watch = case.get('watch', 0) % case['P']
        self.rec = []

        def target(r):
            objs = {}
            kept = []
            for k, op in enumerate(case['ops']):
                out = self.do(objs, r, k, op)
                self.M[r]['modred.parallel'].barrier()
                if r == watch:
                    vals = [flat(a) for a in self.produced(objs, op, k, out)]
                    self.rec.append({'e': 'op', 'op': self.abstract(op), 'vals': vals})
                    kept.append((k, op, out, [flat(a) for a in out]))
                self.M[r]['modred.parallel'].barrier()
            for k, op, out, was in kept:
                if out and op['op'] in ('decomp', 'coeffs', 'get', 'getdecomp', 'pure') and op.get('what') != 'lc':
                    n = [flat(a) for a in out]
                    v = self.rec[k]['vals']
                    self.rec.append({'e': 'again', 'k': k + 1, 'vals': n + v[len(n):]})
            return True

        w.run(target, self.M)
        vs.finish(w)
        begin = {'e': 'begin', 'objs': {k: o['cls'] for k, o in case['objs'].items()} or {'': 'POD'},
                 'ver': {d: case.get('ver', {}).get(d, d) for d in case['data']} or {'': ''}}
        tail = [e for e in w.events if e['e'] in ('error', 'end')]
        return {'ev': [begin] + self.rec + tail}


def run_case(case):
    storage = case.get('storage', 'mem')
    if storage in ('text', 'ctext'):
        d = tempfile.mkdtemp(dir='.')
        try:
            return Session(case, storage=storage, path=os.path.abspath(d)).run()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return Session(case, storage=storage).run()


def cfg(cls, maxlen, emit=False, seq=(), focus=False):
    """Model checking configuration of Session.tla."""
    return ('SPECIFICATION Spec\nCONSTANTS Cls = "%s"\n MaxLen = %d\n Emit = %s\n Focus = %s\n Sequential = {%s}\nCHECK_DEADLOCK FALSE\n'
            'INVARIANTS OnlyCurrentData%s\n%s' % (
                cls, maxlen, 'TRUE' if emit else 'FALSE', 'TRUE' if focus else 'FALSE', ', '.join('"%s"' % d for d in seq),
                ' Emitted' if emit else '',
                '' if emit else 'PROPERTIES Separate LoadedWasSaved\n'))
