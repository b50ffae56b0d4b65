"""C08  Reductions equal the rank-ordered fold of all contributions."""
import numpy as np
from mrv import mpisim as S
from mrv import realmpi, vs
from mrv.checks import c05
from mrv.vsdrive import POLICIES

KINDS = ['reduce', 'allreduce', 'scan', 'exscan']
OPS = ['cat', 'cat', 'mat', 'first', 'last', 'sum', 'prod', 'max', 'min', 'maxloc', 'minloc']


def contribution(rng, op, r, cont):
    if op == 'cat':
        return [100 * r + i for i in range(rng.choice([1, 1, 2, 0]))]
    if op == 'mat':
        return [rng.randint(-2, 2) for _ in range(4)]
    if op in ('maxloc', 'minloc'):
        return [rng.randint(0, 3)]
    n = 1 if cont == 'scalar' else rng.n
    return [rng.randint(-3, 3) for _ in range(n)]


def gen(ck):
    rng = ck.rng
    out = []
    n = ck.pick(420, 5000)
    for i in range(n):
        P = 1 + i % ck.pick(9, 13)
        calls = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(OPS)
            cont = rng.choice(['scalar', 'array'])
            rng.n = rng.randint(1, 3)
            if op in ('cat', 'mat', 'maxloc', 'minloc'):
                cont = 'scalar'
            calls.append({'kind': rng.choice(KINDS), 'op': op, 'cont': cont, 'root': rng.randrange(P),
                          'x': [contribution(rng, op, r, cont) for r in range(P)],
                          'style': rng.choice(['kw', 'pos'])})
        out.append({'P': P, 'nodes': rng.choice([1, min(2, P)]), 'calls': calls,
                    'sched': rng.randrange(10 ** 6), 'policy': rng.choice(POLICIES),
                    'eager': rng.choice([None, True, False])})
    # one reduction alone, all kinds, all roots, every number of workers
    for P in range(1, ck.pick(7, 10)):
        for kind in KINDS:
            for root in (range(P) if kind == 'reduce' else [0]):
                out.append({'P': P, 'nodes': 1, 'sched': 1, 'policy': 'random', 'eager': False,
                            'calls': [{'kind': kind, 'op': 'cat', 'cont': 'scalar', 'root': root, 'style': 'kw',
                                       'x': [[r + 1] for r in range(P)]}]})
    return out


def dec(op, cont, x):
    if op == 'cat':
        return tuple(x)
    if op == 'mat':
        return np.array(x).reshape(2, 2)
    if cont == 'array':
        return np.array(x)
    return x[0]


def enc(op, v):
    if v is None:
        return 0, []
    if op == 'cat':
        return 1, [int(a) for a in v]
    if op in ('maxloc', 'minloc'):
        return (1, [int(a) for a in v]) if isinstance(v, tuple) else (1, [int(v)])
    return 1, [int(a) for a in np.asarray(v).reshape(-1)]


def fn(op, MPI):
    return {'cat': lambda a, b: a + b, 'mat': lambda a, b: a.dot(b), 'first': lambda a, b: a,
            'last': lambda a, b: b, 'sum': MPI.SUM, 'prod': MPI.PROD, 'max': np.maximum, 'min': np.minimum,
            'maxloc': MPI.MAXLOC, 'minloc': MPI.MINLOC}[op]


def one(case):
    M = S.load(case['P'], case['nodes'])
    w = vs.world(case)
    MPI = S.MPI

    def target(r):
        comm = M[r]['modred.parallel'].custom_comm
        keep = []
        for k, call in enumerate(case['calls']):
            x = dec(call['op'], call['cont'], call['x'][r])
            op = fn(call['op'], MPI)
            f = getattr(comm, call['kind'])
            if call['kind'] == 'reduce':
                out = f(x, op=op, root=call['root']) if call['style'] == 'kw' else f(x, None, op, call['root'])
            elif call['op'] == 'sum' and call['style'] == 'kw':
                out = f(x)
            else:
                out = f(x, op=op) if call['style'] == 'kw' else f(x, None, op)
            S.CUR.ctx.prog.append(['ret', k, 0, 0])
            keep.append((x, out, call['op']))
            h, v = enc(call['op'], out)
            w.ev('ret', k=k, has=h, res=v, kept=enc(call['op'], x)[1])
        for k, (x, out, op) in enumerate(keep):
            h, v = enc(op, out)
            w.ev('again', k=k, has=h, res=v, kept=enc(op, x)[1])
        return True

    w.run(target, M)
    vs.finish(w)
    begin = {'e': 'begin', 'P': case['P'], 'calls': case['calls']}
    return {'ev': [begin] + w.events, 'mpi': vs.mpi_record(vs.programs(w), [[] for _ in case['calls']])}


def run(ck):
    ck.design('Reduce', 'Reduce.cfg' if ck.quick else 'ReduceBig.cfg')
    cases = gen(ck)
    for c in cases:
        ck.count('P=%d' % c['P'])
    got = ck.observe(one, cases, what='reductions')
    ck.judge('ReduceTrace', [(c, {'ev': t['ev']}) for c, t in got + realmpi.several(ck, 'mrv.checks.c08:one', cases)])
    lim = ck.pick(5, 7)
    c05.explore(ck, [(c, t['mpi']) for c, t in got if t['mpi']['P'] <= lim
                     and (c['P'] < 5 or len(c['calls']) <= 2)])
