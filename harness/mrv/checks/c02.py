"""C02  Inner-product arrays are exact for every distribution of the work."""
from mrv import realmpi
from mrv import vsdrive

CLAUSES = {'ExactArray', 'ArrayShape', 'SameOnEveryWorker', 'EveryWorkerReturns', 'ReturnsOnce', 'NoError',
           'NoDeadlock', 'UnknownEvent'}


def run(ck):
    ck.clauses = CLAUSES
    cases = vsdrive.gen(ck, ck.pick(400, 6000), ops=('ip',), pmax=ck.pick(6, 8))
    for c in cases:
        ck.count('P=%d' % c['P'])
    ck.judge('VecSpaceTrace', strip(
        ck.observe(vsdrive.run_case, cases, what='inner product runs') + realmpi.several(ck, 'mrv.vsdrive:run_case', cases)))


def strip(traces):
    return [(c, {'ev': t['ev']}) for c, t in traces]
