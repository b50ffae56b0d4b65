"""C04."""
from mrv import realmpi
from mrv import vsdrive

CLAUSES = {'ExactSum', 'OnlyOutputsWritten', 'PutOnce', 'PutExactlyOnce', 'InputsUnchanged', 'EveryWorkerReturns', 'ReturnsOnce', 'NoError',
           'NoDeadlock', 'UnknownEvent'}


def run(ck):
    ck.clauses = CLAUSES
    cases = vsdrive.gen(ck, ck.pick(400, 6000), ops=('lc',), pmax=ck.pick(6, 8))
    for c in cases:
        ck.count('P=%d' % c['P'])
    ck.judge('VecSpaceTrace', strip(
        ck.observe(vsdrive.run_case, cases, what='lc runs') + realmpi.several(ck, 'mrv.vsdrive:run_case', cases)))


def strip(traces):
    return [(c, {'ev': t['ev']}) for c, t in traces]
