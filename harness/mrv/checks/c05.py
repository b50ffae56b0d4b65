"""C05  Distributed operations never deadlock and match every message."""
import json
import os
import re
from mrv import core, hl, realmpi, scen, vs, vsdrive

CLAUSES = {'NoDeadlock', 'NoLeftover', 'SameCollectives', 'EveryCallReturns', 'EveryWorkerReturns',
           'SameForEverySchedule', 'SameOnEveryWorker', 'ExactArray', 'ExactSum', 'NoError'}

SCHEDULES = [{'policy': 'random', 'eager': None}, {'policy': 'low', 'eager': False},
             {'policy': 'high', 'eager': True}, {'policy': 'robin', 'eager': False},
             {'policy': 'fast1', 'eager': True}]


def run_hl(case):
    """The scenario under several schedules; every run is a trace, the programs of the first
    one are returned for the exhaustive model."""
    out = []
    ref = None
    for k, s in enumerate(case['schedules']):
        R = hl.Runner(dict(case, **s)).run()
        out.append(R.trace(ref))
        if k == 0:
            ref = R.ref()
            progs = vs.programs(R.w)
            outs = [o + sv for o, sv, l in R.calls]
    return {'traces': out, 'mpi': vs.mpi_record(progs, outs)}


def run_real(case):
    """On real processes; has to give what the simulated run gave."""
    return hl.Runner(case).run().trace(case['ref'])


def key(rec):
    return json.dumps(rec, sort_keys=True)


def explore(ck, recs, batch=None):
    """All schedules of the recorded programs, in Mpi.tla.  recs: list of (case, record)."""
    seen = {}
    for case, rec in recs:
        if rec['P'] > 1:
            seen.setdefault(key(rec), (case, rec))
    todo = list(seen.values())
    ck.notes['distinct_programs_explored'] = ck.notes.get('distinct_programs_explored', 0) + len(todo)
    todo.sort(key=lambda x: sum(len(p) for p in x[1]['prog']))
    n = max(1, min(core.NPROC, len(todo)))
    groups = [todo[k::n] for k in range(n)]
    import concurrent.futures as cf

    def go(g, k):
        bad = []
        while g:
            p = os.path.join(ck.scratch, 'mpi-%d.ndjson' % k)
            with open(p, 'w') as f:
                for case, rec in g:
                    f.write(json.dumps(rec) + '\n')
            r = ck.tlc('Mpi', 'Mpi.cfg', env={'MRV_TRACE': p}, timeout=700, mem='3g')
            if r.rc == 0:
                break
            if not r.violated:
                raise core.MachineryError('Mpi.tla: ' + r.out[-3000:])
            m = re.findall(r'/\\ pi = (\d+)', r.out)
            i = int(m[-1]) - 1
            case, rec = g.pop(i)
            bad.append((r.violated, case, {'program': rec, 'state': r.out[r.out.find('State 1'):][-3000:]}))
            if len(bad) > 3:
                break
        return bad

    with cf.ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(go, g, k) for k, g in enumerate(groups)]:
            for b in f.result():
                ck.violation(*b)
    ck.log('explored all schedules of %d programs' % len(todo))


def run_vs(case):
    t = vsdrive.run_case(case)
    n = len(case['vecs'])
    outs = [[n + 1 + k for k in range(case['nout'])]] if case['op'] == 'lc' else [[]]
    return {'ev': t['ev'], 'mpi': vs.mpi_record(t['prog'], outs)}


def run_kind(case):
    return run_vs(case) if 'vecs' in case else run_hl(case)


def build(ck):
    rng = ck.rng
    cases = vsdrive.gen(ck, ck.pick(400, 4000), pmax=ck.pick(6, 8), nmax=ck.pick(9, 14))
    hls = scen.scenarios(ck, ck.pick(90, 900), pmax=ck.pick(5, 6))
    for i in range(ck.pick(24, 160)):
        hls.append(scen.saving(rng, 2 + i // 4 % 3, ['POD', 'BPOD', 'DMD', 'TLSqrDMD'][i % 4]))
    for c in hls:
        first = {'policy': rng.choice(['random', 'random', 'slow0', 'fast0']), 'eager': None}
        c['schedules'] = [dict(s, sched=rng.randrange(10 ** 6)) for s in
                          [first] + rng.sample(SCHEDULES[1:], ck.pick(2, 4))]
    return cases + hls


def run(ck):
    ck.clauses = CLAUSES
    both(ck)


def both(ck):
    got = ck.observe(run_kind, build(ck), what='distributed runs')
    low = [(c, {'ev': t['ev']}) for c, t in got if 'ev' in t]
    high = [(c, tr) for c, t in got if 'traces' in t for tr in t['traces']]
    again = [dict(c, ref=t['traces'][-1]['ev'][0]['ref'], nodes=1) for c, t in got if 'traces' in t]
    high += realmpi.several(ck, 'mrv.checks.c05:run_real', again, each=ck.pick(10, 60))
    low += realmpi.several(ck, 'mrv.vsdrive:run_case', [c for c, t in got if 'ev' in t], each=ck.pick(10, 60))
    ck.judge('VecSpaceTrace', low)
    ck.judge('OutputsTrace', high)
    lim = ck.pick(5, 7)
    budget = ck.pick(260, 500)
    explore(ck, [(c, t['mpi']) for c, t in got
                 if t['mpi']['P'] <= lim and sum(len(p) for p in t['mpi']['prog']) <= budget])
