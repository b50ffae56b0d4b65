"""Writes MANIFEST.json from the checks which exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ('Runs the code under /repo on simulated workers (a replacement of mpi4py below modred, seeded '
       'schedules); ')
JUDGE = 'TLC judges every recorded event against the TLA+ trace specification; '
T = {
    'C01': ('TLA+ Assign.tla model-checked; recorded assignments judged by AssignTrace.tla',
            'Exhaustive for small weight lists and sampled for larger ones; arithmetic in exact integers.'),
    'C02': ('TLA+ trace specification VecSpaceTrace.tla (exact Gaussian-integer values) over simulated MPI runs',
            SIM + JUDGE + 'values exact; sampled layouts, limits and schedules.'),
    'C03': ('TLA+ trace specification VecSpaceTrace.tla (exact Gaussian-integer values) over simulated MPI runs',
            SIM + JUDGE + 'values exact; sampled layouts, limits and schedules.'),
    'C04': ('TLA+ trace specification VecSpaceTrace.tla (exact Gaussian-integer values) over simulated MPI runs',
            SIM + JUDGE + 'values exact; sampled layouts, limits and schedules.'),
    'C05': ('TLC explores every message schedule of the recorded communication programs in Mpi.tla; traces judged by '
            'OutputsTrace.tla and VecSpaceTrace.tla',
            SIM + 'exhaustive over schedules and buffering for each recorded program (programs do not branch on '
            'the schedule, which the replay under several schedules checks); sampled inputs.'),
    'C06': ('TLC explores every message schedule of the recorded communication programs in Mpi.tla (CompleteAtReturn); '
            'traces judged by OutputsTrace.tla and VecSpaceTrace.tla',
            SIM + 'exhaustive over schedules for each recorded program; sampled inputs.'),
    'C07': ('TLA+ trace specification VecSpaceTrace.tla (Budget) over simulated MPI runs',
            SIM + JUDGE + 'vectors counted while alive; one vector operation may hold up to three temporaries.'),
    'C08': ('TLA+ Reduce.tla model-checked for every schedule; recorded reductions judged by ReduceTrace.tla and their '
            'programs explored in Mpi.tla',
            SIM + 'free monoid, matrices and the predefined operations; sampled contributions.'),
    'C09': ('TLA+ trace specifications HelpersTrace.tla and OutputsTrace.tla over simulated MPI runs',
            SIM + JUDGE + 'sampled layouts and call sequences.'),
    'C10': ('TLA+ HandleCache.tla: TLC-generated get/put histories replayed on the real handles, judged by HandleTrace.tla',
            'All histories within the bounds of the model plus sampled longer ones, in one process.'),
    'C11': ('TLA+ trace specification TextTrace.tla (text layout and round trip) over recorded saves and loads',
            JUDGE + 'values are exact decimals; sampled shapes, types, memory orders and delimiters.'),
    'C12': ('TLA+ trace specification SessionTrace.tla over saved and resumed sessions on simulated MPI',
            SIM + JUDGE + 'fixed-point comparison, well-conditioned data.'),
}
for c in ('C13', 'C14', 'C15', 'C16'):
    T[c] = ('TLA+ trace specification ModalTrace.tla: defining equations of the decomposition in fixed-point arithmetic',
            JUDGE + 'small well-conditioned data, fixed-point tolerances derived from the data; array and handle versions.')
T.update({
    'C17': ('TLA+ Session.tla: TLC-generated histories replayed on one object and on fresh ones, judged by SessionTrace.tla',
            'Histories within the bounds of the model plus sampled longer ones.'),
    'C18': ('TLA+ trace specification EraTrace.tla: Hankel arrays, their decomposition, the balanced realization and its '
            'impulse response in fixed-point arithmetic',
            JUDGE + 'data of known systems and noise; sampled sizes, shapes and samplings.'),
    'C19': ('TLA+ trace specification OkidTrace.tla (exact Markov parameters; Lti.tla model-checked) over recorded OKID runs',
            JUDGE + 'deadbeat-observable systems with exact data, rich inputs.'),
    'C20': ('TLA+ trace specification GalerkinTrace.tla (exact Gaussian integers) over recorded array and handle runs',
            JUDGE + 'the inverse is checked by multiplying out; handle versions on simulated workers.'),
    'C21': ('TLA+ Lti.tla model-checked; recorded simulations judged by LtiTrace.tla: the state recursion in exact arithmetic',
            JUDGE + 'integer and dyadic systems.'),
    'C22': ('TLA+ trace specification HankelTrace.tla', JUDGE + 'exhaustive small sizes.'),
    'C23': ('TLA+ trace specification MatrixTrace.tla: defining equations in fixed-point arithmetic, truncation by exact rule',
            JUDGE + 'matrices with known spectra and clear distance from the tolerances.'),
    'C24': ('TLA+ trace specification SignalTrace.tla', JUDGE + 'exact values.'),
    'C25': ('TLA+ trace specification GuardTrace.tla: the documented refusals as a decision table',
            SIM + JUDGE + 'valid and invalid requests from one grammar.'),
    'C26': ('TLA+ trace specification BalTrace.tla: Gramian and Markov parameter equations in fixed-point arithmetic',
            JUDGE + 'stable systems with separated Hankel singular values.'),
    'C27': ('TLA+ trace specification ArrayTrace.tla in exact arithmetic', JUDGE + 'dyadic data and weights.'),
    'C28': ('TLA+ trace specification FrameTrace.tla: the frame condition over recorded digests of every input',
            JUDGE + 'every public computation is called with sampled inputs.'),
    'C29': ('TLA+ trace specification SanityTrace.tla: the decision table over vector implementations with planted faults',
            JUDGE + 'sampled magnitudes and faults.'),
    'C30': ('TLA+ trace specification PipeTrace.tla: impulse responses and traces of powers of the system in fixed-point '
            'arithmetic, compared across all routes to a model',
            SIM + JUDGE + 'minimal stable systems with separated Hankel singular values.'),
    'C31': ('TLA+ trace specification UtilTrace.tla: equality, shapes, lists, names and spectra as defining formulas',
            JUDGE + 'sampled values that are equal or differ in one respect.'),
    'C32': ('TLA+ design models Ring.tla and Symm.tla of the exchange, checked by TLC; trace specification CostTrace.tla over '
            'the operations counted on every worker', SIM + JUDGE + 'up to 8 workers and about 100 vectors.'),
})
checks = []
for p in sorted(T):
    if not os.path.exists(os.path.join(V, 'harness/mrv/checks/%s.py' % p.lower())):
        continue
    checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                   'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]})
have = {c['property'] for c in checks}
na = [{'property': p, 'reason': 'check not built yet'} for p in sorted(T) if p not in have]
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
