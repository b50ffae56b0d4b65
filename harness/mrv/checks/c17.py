"""C17  Results depend only on the current inputs, not on past use."""
import concurrent.futures as cf
import json
import numpy as np
from mrv import data as D
from mrv import hl, scen, sess

CLAUSES = ('DecompositionOfCurrentData', 'ModesOfCurrentDecomposition', 'CoefficientsOfCurrentDecomposition',
           'IndependentOfHistory', 'ResultKept', 'SavesWhatItIsNamedFor', 'LoadsTheSameValues', 'SessionModel',
           'NoError', 'NoDeadlock')
CLS = ('POD', 'BPOD', 'DMD', 'TLSqrDMD')


# which of the data sets are sequential
SEQS = {'POD': [()], 'BPOD': [()]}
ALLSEQ = [('d1', 'd2'), ('d3',), (), ('d1', 'd2', 'd3')]


def histories(ck, cls, seq, maxlen, simulate=0, focus=False):
    """Behaviours of Session.tla, as lists of operations."""
    args = ()
    if simulate:
        args = ('-simulate', 'num=%d' % simulate, '-depth', str(maxlen + 1), '-seed', str(ck.seed * 7 + maxlen + len(seq)))
    r = ck.tlc('Session', sess.cfg(cls, maxlen, True, seq, focus), workers=1, args=args, timeout=800)
    if r.rc != 0:
        raise Exception(r.out[-2000:])
    out, seen = [], set()
    for ln in r.out.split('\n'):
        if ln.startswith('"HIST '):
            h = json.loads(json.loads(ln)[5:])
            if h[0]['obj' if 'obj' in h[0] else 'op'] == 'p':
                continue                    # o and p are interchangeable
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(h)
    return out


def datasets(rng, cls, seqs):
    """d1, d2 of the same shape, d3 of another one; seqs: those given as one sequence."""
    for t in range(300):
        cx = [rng.random() < .4 for _ in range(3)]
        if cls == 'POD':
            m = [rng.randint(1, 4)] * 2 + [rng.randint(1, 5)]
            n = rng.randint(max(m[0], 1), 4)
            ds = [{'vecs': D.tolist(D.well(rng, max(n, k), k, 3, c, gap=.05)), 'rank': k} for k, c in zip(m, cx)]
            if m[2] == m[0]:
                continue
        elif cls == 'BPOD':
            n, p, q = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)
            sd, sa = rng.randint(2, 3), rng.randint(2, 3)
            ds = []
            for i in range(3):
                if i == 2:
                    n, p, q, sd = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), sd + 1
                X, Y, A, B, C, r = D.bpod_data(rng, n, p, q, sd, sa, cx[i])
                ds.append({'vecs': D.tolist(X), 'adv': D.tolist(Y), 'p': p, 'q': q, 'rank': r})
        else:
            r = rng.randint(1, 3)
            m = r + (1 if cls == 'TLSqrDMD' else rng.randint(0, 1))
            dim = r + rng.randint(0, 1)
            ds = []
            for i in range(3):
                s = 'd%d' % (i + 1) in seqs
                k = m if i < 2 else m + rng.choice([-1, 1])
                if i == 2 and (k < r or (cls == 'TLSqrDMD' and k < r + 1)):
                    k = m + 1
                X, Y, A, d = D.dmd_data(rng, dim, r, k, cx[i], s)
                if s:
                    ds.append({'vecs': D.tolist(np.hstack([X, Y[:, -1:]])), 'rank': r})
                else:
                    ds.append({'vecs': D.tolist(X), 'adv': D.tolist(Y), 'rank': r})
        return {'d%d' % (i + 1): d for i, d in enumerate(ds)}
    raise RuntimeError('no data')


def par(p):
    if not p:
        return {}
    k, v = p.split('=')
    return {k: float(v) if k == 'rtol' else int(v)}


def parname(cls, p):
    """The parameters as sess.params names them (with the fixed atol)."""
    return p


def bind(rng, cls, seq, hist):
    """A concrete session for an abstract history, with reference objects."""
    P = rng.choice([1, 1, 2, 3])
    ds = datasets(rng, cls, seq)
    lim = rng.choice([None, 3, 3 * P, 100])
    c = dict(scen.layout(rng, P), cls=cls, data=dict(ds), ops=[], watch=rng.randrange(P),
             storage=rng.choice(['mem', 'mem1']), ver={},
             objs={'o': {'cls': cls, 'limit': lim}, 'p': {'cls': cls, 'limit': lim}})
    for d in ('d1', 'd2', 'd3'):
        c['data']['x' + d] = ds[d]
        c['ver']['x' + d] = d
    few = {'o': None, 'p': None}
    saved = {}
    used = {'v': set(), 'p': set(), 'm': [], 'c': set()}
    ops = []
    full = min(d['rank'] for d in ds.values())
    for h in hist:
        op = {k: v for k, v in h.items() if k not in ('p', 'files', 'seq')}
        t = h['op']
        if t in ('decomp', 'redo'):
            op.update(par(h['p']))
            few[h['obj']] = 1 if h['p'] else full
            used['p'].add(h['p'])
            if t == 'decomp':
                op.update(scen.decomp_op(h['obj'], cls, h['data'], ds[h['data']], 0))
                used['v'].add(h['data'])
            elif cls != 'POD':
                op['atol'] = 1e-8 if cls == 'BPOD' else 1e-6
        elif t == 'write':
            used['v'].add('d2')
        elif t == 'modes':
            n = few[h['obj']]
            op['idx'] = rng.sample(range(n), rng.randint(1, n))
            if not h['src']:
                op.pop('src')
            if (h['kind'], h['src'], op['idx']) not in used['m']:
                used['m'].append((h['kind'], h['src'], op['idx']))
        elif t == 'coeffs':
            used['c'].add(h['kind'])
        elif t == 'putdecomp':
            saved[h['dest']] = few[h['obj']]
        elif t == 'getdecomp':
            few[h['obj']] = saved[h['src']]
        ops.append(op)
    ref = []
    for v in sorted(used['v']):
        for p in sorted(used['p']):
            o = 'r%d' % len(c['objs'])
            c['objs'][o] = {'cls': cls, 'limit': lim}
            ref.append(dict(scen.decomp_op(o, cls, 'x' + v, ds[v], 0), **par(p)))
            for k in sorted(used['c']):
                ref.append({'op': 'coeffs', 'obj': o, 'kind': k})
            for k, src, idx in used['m']:
                if p and max(idx) > 0:
                    continue
                if src and (src == 'd3') != (v == 'd3') or not src and 'd1' not in seq:
                    srcs = [v]
                else:
                    srcs = [v] if v == 'd3' else ['d1', 'd2']
                for x in srcs:
                    ref.append({'op': 'modes', 'obj': o, 'kind': k, 'idx': idx, 'src': 'x' + x})
    c['ops'] = ref + ops if rng.random() < .3 else ops + ref
    return c


def pure_case(rng):
    """Calls on one vector space, Galerkin or ERA object, and on a fresh one each."""
    P = rng.choice([1, 2, 3])
    c = dict(scen.layout(rng, P), cls='pure', data={}, objs={}, ops=[], watch=rng.randrange(P))
    what = rng.choice(['vs', 'vs', 'gal', 'gal', 'era'])
    ops = []
    n = rng.randint(3, 7)
    if what == 'vs':
        dim = rng.randint(1, 3)
        for d in ('a', 'b', 'e'):
            cx = rng.random() < .4
            c['data'][d] = {'vecs': D.tolist(D.rint(rng, dim, rng.randint(1, 5), 3, cx)),
                            'adv': D.tolist(D.rint(rng, dim, rng.randint(1, 5), 3, cx))}
        lim = rng.choice([None, 3 * P, 4 * P])
        for _ in range(n):
            d = rng.choice('abe')
            op = {'op': 'pure', 'what': rng.choice(['ip', 'symm', 'lc']), 'data': [d], 'n': 1, 'limit': lim}
            if op['what'] == 'lc':
                op['n'] = rng.randint(1, 3)
                op['coef'] = D.rint(rng, len(c['data'][d]['vecs']), op['n'], 2).tolist()
            ops.append(op)
    elif what == 'gal':
        k = rng.randint(1, 3)
        cx = rng.random() < .4
        X = D.well(rng, k + 1, k, 2, cx)
        adj = rng.random() < .5
        c['data']['b'] = {'vecs': D.tolist(X), 'adv': D.tolist(X + 0) if adj else None}
        if adj:
            while True:
                Y = D.well(rng, k + 1, k, 2, cx)
                if D.cond(Y.conj().T.dot(X)) < 20:
                    break
            c['data']['b']['adv'] = D.tolist(Y)
        for d in ('a', 'e'):
            c['data'][d] = {'vecs': D.tolist(D.rint(rng, k + 1, k, 2, cx)),
                            'adv': D.tolist(D.rint(rng, k + 1, rng.randint(1, 3), 2, cx))}
        orth = rng.random() < .2
        for _ in range(n):
            w = rng.choice(['gA', 'gB', 'gC', 'gM'])
            d = rng.choice('ae')
            op = {'op': 'pure', 'what': w, 'data': ['b', d], 'n': 3 if w == 'gM' else 1, 'orth': orth}
            if w in ('gC', 'gM'):
                op['C'] = D.rint(rng, k, rng.randint(1, 3), 2).tolist()
            ops.append(op)
    else:
        c['data']['z'] = {'vecs': [[[0., 0.]]]}
        Ms = []
        for i in range(3):
            r, p, q = rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)
            while True:
                A, e = D.linmap(rng, r)
                B, C = D.rint(rng, r, p, 2), D.rint(rng, q, r, 2)
                M = [C.dot(np.linalg.matrix_power(A * .5, j)).dot(B) for j in range(14)]
                H = np.block([[M[a + b] for b in range(4)] for a in range(4)])
                s = np.linalg.svd(H, compute_uv=False)
                if s[r - 1] > .02 * s[0] and (r == 1 or s[1] < .9 * s[0]):
                    break
            Ms.append((np.array(M), r))
        ctor = rng.choice([{}, {'mc': 3, 'mo': 2}])
        for _ in range(n):
            i = rng.randrange(3)
            M, r = Ms[i]
            k = rng.choice([8, 10, 14])
            op = {'op': 'pure', 'what': 'era', 'data': ['z'], 'n': 6, 'M': M[:k].tolist(), 'nst': r, 'ctor': ctor}
            if rng.random() < .5:
                op['sizes'] = rng.choice([{'mc': 2, 'mo': 2}, {'mc': 3, 'mo': 2}, {'mc': 2, 'mo': 3}])
            ops.append(op)
    for op in ops:
        op['key'] = json.dumps({k: v for k, v in op.items() if k not in ('data', 'n')}, sort_keys=True)
    hist = [dict(op, obj='s') for op in ops]
    if rng.random() < .4 and what != 'era':
        a, b = ('a', 'e')
        if len(c['data'][a]['vecs']) == len(c['data'][b]['vecs']) and \
                len(c['data'][a]['adv']) == len(c['data'][b]['adv']):
            hist.insert(rng.randint(1, len(hist)), {'op': 'write', 'data': a, 'with': b})
    used = []
    fresh = []
    for i, op in enumerate(hist):
        if op['op'] == 'pure':
            fresh.append(dict(op, obj='f%d' % i))
    # the same calls on a fresh object each, and once more on the used one
    c['ops'] = hist + fresh + ([dict(op, obj='s') for op in ops][:2])
    return c


def run(ck):
    ck.clauses = CLAUSES
    rng = ck.rng
    cases = []
    kinds = [(cls, seq) for cls in CLS for seq in SEQS.get(cls, ALLSEQ[:ck.pick(2, 4)])]
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [(ex.submit(histories, ck, cls, seq, 3),
                 ex.submit(histories, ck, cls, seq, 9, ck.pick(300, 4000)),
                 ex.submit(histories, ck, cls, seq, 12, ck.pick(100, 1500), True)) for cls, seq in kinds]
        jobs = [[f.result() for f in fs] for fs in jobs]
    for (cls, seq), (hs, deep, long) in zip(kinds, jobs):
        name = ' '.join(['Session', cls] + list(seq))
        ck.design('Session', sess.cfg(cls, ck.pick(3, 4), seq=seq), name=name, timeout=3000)
        one = {}
        rng.shuffle(deep)
        for h in deep:               # the last steps of one behaviour: one of them
            one.setdefault(json.dumps(h[:-1], sort_keys=True), h)
        deep = list(one.values())
        one = {json.dumps(h[:-1], sort_keys=True): h for h in long}
        long = list(one.values())
        ck.log('%s: %d histories of length 3, %d of length 9, %d of length 12' % (
            name, len(hs), len(deep), len(long)))
        ck.count('length 3 generated', len(hs))
        if ck.quick:
            k = 200 if cls in SEQS else 130
            hs = rng.sample(hs, min(k, len(hs)))
            deep = rng.sample(deep, min(k, len(deep)))
        cases += [bind(rng, cls, seq, h) for h in hs + deep + long]
    for i in range(ck.pick(400, 4000)):
        cases.append(pure_case(rng))
    for c in cases:
        ck.count(c['cls'])
    got = ck.observe(sess.run_case, cases, what='sessions', timeout=120)
    ck.judge('SessionTrace', got, timeout=3000)
