"""C20  Galerkin projection gives the projected system."""
import numpy as np
from mrv import data as D
from mrv import fine
from mrv import lti
from mrv import modal
from mrv import mpisim as S
from mrv import scen
from mrv import vs


def gen(ck):
    rng = ck.rng
    out = [derivs(rng) for _ in range(ck.pick(250, 4000))]
    while len(out) < ck.pick(1250, 16000):
        cplx = rng.random() < .4
        k = rng.randint(1, 4)
        n = k + rng.randint(0, 2)
        form, W = modal.weights(rng, n, cplx)
        Phi = D.rint(rng, n, k, 2, cplx)
        sym = rng.random() < .4
        Psi = Phi if sym else D.rint(rng, n, k, 2, cplx and rng.random() < .8)
        orth = rng.random() < .3
        G = Psi.conj().T.dot(W).dot(Phi)
        if not orth and (D.cond(G) > 12 or np.abs(G).max() > 60 or np.abs(np.linalg.inv(G)).max() > 2):
            continue
        calls = []
        for i in range(rng.randint(1, 5)):
            m, q = rng.randint(1, 3), rng.randint(1, 3)
            calls.append({'what': rng.choice(['A', 'B', 'C', 'model', 'model']),
                          'A': modal.jarr(D.rint(rng, n, k, 3, cplx and rng.random() < .8)),
                          'B': modal.jarr(D.rint(rng, n, m, 3, cplx and rng.random() < .8)),
                          'C': modal.jarr(D.rint(rng, q, k, 3, cplx and rng.random() < .8)),
                          'form': rng.choice('CFLM'), 'put': rng.random() < .4, 'flat': rng.random() < .5})
        out.append({'what': 'proj', 'X': modal.jarr(Phi), 'Y': None if sym else modal.jarr(Psi), 'W': modal.jarr(W),
                    'wform': form, 'orth': orth, 'how': rng.choice(['array', 'handles']), 'calls': calls,
                    'order': rng.choice('CFLM'), 'lay': scen.layout(rng, rng.randint(1, 4)),
                    'limit': rng.choice([None, 3, 4, 100])})
    return out


def derivs(rng):
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    cplx = rng.random() < .4
    return {'what': 'derivs', 'X': modal.jarr(D.rint(rng, n, m, 4, cplx)), 'Y': modal.jarr(D.rint(rng, n, m, 4, cplx)),
            'dt': rng.choice([1, 2, .5, .25, .1, 3, -1, 10, .125]),
            'pow': rng.choice([0, 0, -40, 30]), 'how': rng.choice(['array', 'handles']),
            'order': rng.choice('CFLIM'), 'lay': scen.layout(rng, rng.randint(1, 4)), 'inplace': rng.random() < .2,
            'n': rng.randint(1, 6)}


def put_events(what, box):
    return [{'e': 'put', 'what': w, 'res': modal.mat(box[w]) if w in box else []} for w in what]


def call_object(o, c, A, B, C, out):
    """One call; out(what, result)."""
    w = c['what']
    if w == 'A':
        out('A', o.reduce_A(A))
    elif w == 'B':
        out('B', o.reduce_B(B))
    elif w == 'C':
        out('C', o.reduce_C(C))
    else:
        r = o.compute_model(A, B, C)
        for x, y in zip('ABC', r):
            out(x, y)


def note(case, what, on, res):
    if what == 'C':
        fine.note('same', M=[on], N=[res])
    else:
        X = modal.arr(case['X'])
        fine.note('galerkin', ['orth'] if case['orth'] else [], X=X, Y=X if case['Y'] is None else modal.arr(case['Y']),
                  W=modal.arr(case['W']), Z=on, R=res)


def run_arrays(case, ev):
    g = S.load(1)[0]['modred.ltigalerkinproj']
    box = {}
    kw = {'put_array': lambda a, d: box.__setitem__(d, np.array(a))}
    if case['Y'] is not None:
        kw['adjoint_basis_vecs'] = modal.given(modal.arr(case['Y']), case['order'])
    if case['wform'] is not None:
        kw['inner_product_weights'] = modal.wts(case)
    if case['orth']:
        kw['is_basis_orthonormal'] = True
    o = g.LTIGalerkinProjectionArrays(modal.given(modal.arr(case['X']), case['order']), **kw)
    n, have = 0, set()
    for c in case['calls']:
        A, B, C = (modal.arr(c[k]) for k in 'ABC')

        def out(what, res):
            note(case, what, {'A': A, 'B': B, 'C': C}[what], res)
            ev.append({'e': what, 'n': n, 'r': 0, 'on': modal.mat({'A': A, 'B': B, 'C': C}[what]), 'res': modal.mat(res)})
            have.add(what)
        n += 1
        given = [modal.given(x, c['form']) for x in (A, B, C)]
        if c['flat'] and len(C) == 1:          # a single output: 1D is a row
            given[2] = C[0] if c['form'] != 'L' else C[0].tolist()
        call_object(o, c, *given, out=out)
        if c['put']:
            box.clear()
            if len(have) == 3:
                o.put_model('A', 'B', 'C')
            else:
                for x in sorted(have):
                    getattr(o, 'put_%s_reduced' % x)(x)
            ev += put_events(sorted(have), box)
    ev.append({'e': 'calls', 'n': n})


def run_handles(case, ev):
    box = {}
    recs = []
    k = len(case['X'][0])

    def target(r, mods, w):
        g = mods['modred.ltigalerkinproj']
        kw = {'put_array': lambda a, d: box.setdefault(d, []).append(np.array(a)), 'verbosity': 0}
        if case['Y'] is not None:
            kw['adjoint_basis_vec_handles'] = modal.hs(w, 'Y', k)
        if case['limit'] is not None:
            kw['max_vecs_per_node'] = case['limit']
        if case['orth']:
            kw['is_basis_orthonormal'] = True
        o = g.LTIGalerkinProjectionHandles(vs.wip(case['W']), modal.hs(w, 'X', k), **kw)
        n, have = 0, set()
        for i, c in enumerate(case['calls']):
            A, B, C = (modal.arr(c[x]) for x in 'ABC')
            if r == 0:
                for x, a in (('A', A), ('B', B)):
                    for j in range(a.shape[1]):
                        w.store['%s%d.%d' % (x, i, j)] = tuple(a[:, j].tolist())
            mods['modred.parallel'].barrier()

            def out(what, res):
                if r == case['lay']['P'] - 1:
                    note(case, what, {'A': A, 'B': B, 'C': C}[what], res)
                recs.append((n, 0, r, {'e': what, 'n': n, 'r': r, 'on': modal.mat({'A': A, 'B': B, 'C': C}[what]),
                                       'res': modal.mat(res)}))
                have.add(what)
            n += 1
            call_object(o, c, modal.hs(w, 'A%d' % i, A.shape[1]), modal.hs(w, 'B%d' % i, B.shape[1]),
                        [C[:, j] if c['form'] != 'L' else C[:, j].tolist() for j in range(k)], out)
            if c['put']:
                names = [(x, '%s%d' % (x, i)) for x in sorted(have)]
                if len(have) == 3:
                    o.put_model(*[d for x, d in names])
                else:
                    for x, d in names:
                        getattr(o, 'put_%s_reduced' % x)(d)
                if r == 0:
                    for x, d in names:
                        got = box.get(d, [])
                        recs.append((n, 1, r, {'e': 'put', 'what': x, 'res': modal.mat(got[0]) if len(got) == 1 else []}))
        return n
    n, w, tail = modal.handles_run(case, target)
    # the workers' results of one call are adjacent, worker zero last (it is the one which puts)
    ev += [e for a, b, r, e in sorted(recs, key=lambda t: (t[0], t[1], -t[2]))]
    ev.append({'e': 'calls', 'n': n or 99})
    ev += tail


def run_derivs(case, ev):
    X, Y, dt = modal.arr(case['X']), modal.arr(case['Y']), case['dt']
    # the time step in another unit (a power of two: exact); the derivatives are reported in the first one
    unit = 2. ** case['pow']
    e = {'e': 'derivs', 'X': modal.mat(X), 'Y': modal.mat(Y), 'dt': modal.fx(dt)}
    dt = dt * unit if case['pow'] else dt
    b = {'e': 'basis', 'n': case['n']}
    if case['how'] == 'array':
        g = S.load(1)[0]['modred.ltigalerkinproj']
        res = g.compute_derivs_arrays(lti.given(X, case['order']), lti.given(Y, case['order']), dt) * unit
        fine.note('derivs', X=X, Y=Y, R=res, Dt=np.eye(X.shape[1]) * case['dt'])
        e['res'] = modal.mat(res)
        b['res'] = modal.mat(np.array(g.standard_basis(case['n'])))
        ev += [e, b]
        return

    def target(r, mods, w):
        d = modal.hs(w, 'Y' if case['inplace'] else 'd', X.shape[1])
        mods['modred.ltigalerkinproj'].compute_derivs_handles(modal.hs(w, 'X', X.shape[1]), modal.hs(w, 'Y', X.shape[1]), d, dt)
        # complete at return on every worker
        return modal.stored(w, [h.h for h in d])
    got, w, tail = modal.handles_run(case, target)
    e['res'] = modal.mat(got if got is None else np.array(got) * unit)
    if got is not None:
        fine.note('derivs', X=X, Y=Y, R=np.array(got) * unit, Dt=np.eye(X.shape[1]) * case['dt'])
    ev += [e] + tail


def one(case):
    ev = []
    try:
        if case['what'] == 'derivs':
            run_derivs(case, ev)
        else:
            X = modal.mat(modal.arr(case['X']))
            ev.append({'e': 'begin', 'Phi': X, 'Psi': X if case['Y'] is None else modal.mat(modal.arr(case['Y'])),
                       'W': modal.mat(modal.arr(case['W'])), 'orth': case['orth'],
                       'P': case['lay']['P'] if case['how'] == 'handles' else 1})
            (run_arrays if case['how'] == 'array' else run_handles)(case, ev)
    except Exception as ex:
        if type(ex).__name__ == 'Hang':
            raise
        ev.append({'e': 'error', 'what': '%s: %s' % (type(ex).__name__, str(ex)[:160])})
    return {'ev': ev}


def many(batch):
    return [fine.taken(one(c)) for c in batch['batch']]


def run(ck):
    traces = lti.batched(ck, many, lambda c: fine.taken(one(c)), gen(ck) if ck.replay is None else [], 'objects')
    for case, rec in traces:
        ck.count('%s %s' % (case['what'], case['how']))
    fine.judge(ck, traces, ck.pick(300, 3000))
    ck.judge('GalerkinTrace', traces)
