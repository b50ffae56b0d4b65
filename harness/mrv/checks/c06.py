"""C06  Outputs are complete when a distributed call returns."""
from mrv.checks import c05

CLAUSES = {'PutBeforeReturn', 'PutOnce', 'PutExactlyOnce', 'SavedBeforeReturn', 'SavedOnce', 'SavedByWorkerZero',
           'SavedAsRequested', 'CompleteAtReturn', 'OnlyRequestedOutputs', 'EveryCallReturns', 'NoError'}


def run(ck):
    ck.clauses = CLAUSES
    c05.both(ck)
