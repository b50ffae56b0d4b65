"""C32  Distributed work is shared at the documented cost."""
from mrv import vsdrive
from mrv.checks.c07 import chunked

CLAUSES = {'ReadsAsDocumented', 'OperationsAsDocumented', 'NothingTwice', 'OnlyTheTriangle',
           'EveryWorkerReturns', 'NoError'}


def run(ck):
    ck.clauses = CLAUSES
    ck.design('Ring', 'Ring.cfg' if ck.quick else 'RingBig.cfg')
    ck.design('Symm', 'Symm.cfg' if ck.quick else 'SymmBig.cfg')
    rng = ck.rng
    cases = vsdrive.gen(ck, ck.pick(500, 5000), pmax=ck.pick(6, 8), nmax=ck.pick(26, 60), kinds=['int'])
    for c in cases:
        c['limit'] = rng.choice([c['limit'], 0, 1, 100, rng.randint(1, 6 * c['P'])])
    for k in range(ck.pick(120, 1000)):
        cases.append(chunked(rng, k))
    for c in cases:
        ck.count('%s P=%d' % (c['op'], c['P']))
        ck.count('share=%d' % min(10, max(3, (c['limit'] or 10000) * max(1, c['nodes']) // c['P'])))
    ck.judge('CostTrace', ck.observe(vsdrive.run_cost, cases, what='operations counted'))
