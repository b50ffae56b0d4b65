"""C07  The vector memory budget is respected."""
from mrv import realmpi
from mrv import vsdrive

CLAUSES = {'Budget', 'EveryWorkerReturns', 'NoError'}


def chunked(rng, k):
    """Several full chunks of a larger share: what is left of one chunk while the
    next one is read would show."""
    op = ['ip', 'symm', 'lc'][k % 3]
    share, P = rng.randint(3, 9), rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    nd = rng.choice([1, P, rng.randint(1, P)])
    chunk = (share - 1) * P
    a = chunk * rng.choice([2, 2, 3]) + rng.choice([0, 0, 1, -1])
    b = {'ip': a + rng.randint(0, 3), 'lc': rng.choice([1, P, a]), 'symm': 0}[op]
    if op == 'ip' and rng.random() < .4 or op == 'lc':
        a, b = b, a
    vecs = [vsdrive._vec(rng, 'int', 1, j) for j in range(a + (b if op == 'ip' else 0))]
    case = {'op': op, 'P': P, 'nodes': nd, 'kind': 'int', 'dim': 1, 'limit': -(-share * P // nd),
            'sched': rng.randrange(10 ** 6), 'policy': rng.choice(vsdrive.POLICIES), 'eager': None,
            'interval': 10, 'verb': 0, 'vecs': vecs, 'rows': list(range(a)), 'single': [False, False]}
    if op == 'ip':
        case['cols'] = list(range(a, a + b))
    elif op == 'lc':
        case.update(basis=list(range(a)), coef=[[vsdrive._num(rng, 'int') for _ in range(b)] for _ in range(a)],
                    cform='2d', sel=list(range(b)), nout=b)
    return case


def run(ck):
    ck.clauses = CLAUSES
    cases = vsdrive.gen(ck, ck.pick(500, 5000), pmax=ck.pick(6, 8), nmax=ck.pick(26, 60), kinds=['int'])
    rng = ck.rng
    for c in cases:
        # limits around every threshold: fewer than three per worker, exactly three, more
        P, nd = c['P'], max(1, c['nodes'])
        c['limit'] = rng.choice([1, 2, 3, (3 * P) // nd, (3 * P + nd - 1) // nd, (3 * P) // nd + 1,
                                 (4 * P) // nd, (4 * P - 1) // nd + 1, 5 * P // nd, rng.randint(1, 5 * P)])
        c['limit'] = max(1, c['limit'])
        ck.count('share=%d' % max(3, c['limit'] * nd // P))
    for k in range(ck.pick(120, 1000)):
        cases.append(chunked(rng, k))
        ck.count('chunked')
    got = ck.observe(vsdrive.run_case, cases, what='memory-limited runs')
    got += realmpi.several(ck, 'mrv.vsdrive:run_case', cases)
    ck.judge('VecSpaceTrace', [(c, {'ev': t['ev']}) for c, t in got])
