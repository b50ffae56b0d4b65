"""The same cases on real processes: mpiexec, mpi4py and a real file system.

The simulated MPI of mpisim decides the properties; this module runs a sample of the cases of
a check under mpiexec, so that the traces judged by the specification also come from the real
library.  Every process runs the case function of the check with another World underneath:
vectors are pickled files in a shared directory, events carry the time of the monotonic clock
(one for all processes of a machine) and are merged by it.

A run which does not come back is not judged (the simulated runs decide about deadlocks);
it is counted.
"""
import importlib
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time

MPIEXEC = '/opt/venv/bin/mpiexec'


# ---------------------------------------------------------------- one of the processes
class Store(object):
    """A dictionary in a directory which all processes see."""
    def __init__(self, path):
        self.path = path
        self.open = True            # before the run: only process 0 writes
        self.rank = 0

    def _name(self, k):
        return os.path.join(self.path, pickle.dumps(k, 0).hex()[:200])

    def __setitem__(self, k, v):
        if not self.open and self.rank:
            return
        tmp = self._name(k) + '.%d.tmp' % self.rank
        with open(tmp, 'wb') as f:
            pickle.dump((k, v), f)
        os.rename(tmp, self._name(k))

    def __getitem__(self, k):
        try:
            with open(self._name(k), 'rb') as f:
                return pickle.load(f)[1]
        except IOError:
            raise KeyError(k)

    def __contains__(self, k):
        return os.path.exists(self._name(k))

    def get(self, k, default=None):
        return self[k] if k in self else default

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def keys(self):
        out = []
        for n in sorted(os.listdir(self.path)):
            if not n.endswith('.tmp'):
                with open(os.path.join(self.path, n), 'rb') as f:
                    out.append(pickle.load(f)[0])
        return out

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())


class Events(list):
    """Events with the time at which they were appended."""
    def __init__(self):
        list.__init__(self)
        self.times = []

    def append(self, e):
        self.times.append(time.monotonic_ns())
        list.append(self, e)


class World(object):
    def __init__(self, comm, path, P, seed):
        from mrv import mpisim as S
        self.S, self.comm, self.P = S, comm, P
        self.rank, self.unit = comm.Get_rank(), 1
        self.ctxs = [S.RankCtx(self, r) for r in range(P)]
        self.events = Events()
        self.stores = Store(path), Store(path + '-arrays')
        for st in self.stores:
            st.open, st.rank = False, self.rank
        self.store = self.stores[0]
        self.rng = random.Random(seed * 31 + self.rank)
        self.problem, self.queue, self.steps, self.clock = None, [], 0, None
        self.slow = self.rng.choice([0, 0, 1e-4, 2e-3])
        comm.Barrier()

    # shared as well, whatever the case function assigns
    arrays = property(lambda self: self.stores[1], lambda self, value: None)

    def ev(self, _kind, **kw):
        e = {'e': _kind}
        if self.S.CUR.ctx is not None:
            e['r'] = self.rank
        e.update(kw)
        self.events.append(e)
        return e

    def yield_(self, pred=None, why=None):
        if self.slow:
            time.sleep(self.rng.random() * self.slow)

    def run(self, target, mods=None):
        self.comm.Barrier()
        for st in self.stores:
            st.open = True
        c = self.S.CUR.ctx = self.ctxs[self.rank]
        try:
            c.result = target(self.rank)
            c.state = 'done'
        except Exception as ex:
            # the others may be waiting for this one
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            self.comm.Abort(9)
        finally:
            self.S.CUR.ctx = None
        self.comm.Barrier()


def finish(w):
    mine = [(t, w.rank, i, e) for i, (t, e) in enumerate(zip(w.events.times, w.events))]
    parts = w.comm.allgather([(t, r, i, e) for t, r, i, e in mine if r == 0 or 'r' in e])
    w.events = [e for t, r, i, e in sorted((x for p in parts for x in p), key=lambda x: (x[0], x[1], x[2]))]
    w.events.append({'e': 'end', 'problem': 'none', 'leftover': 0, 'waiting': 0})


def main(spec, cases, out):
    from mpi4py import MPI
    from mrv import mpisim as S
    from mrv import vs
    comm = MPI.COMM_WORLD
    for k in [k for k in sys.modules if S._is_private(k)]:
        del sys.modules[k]
    sys.path.insert(0, S.REPO)
    for m in 'vectorspace vectors util parallel pod bpod dmd era okid ltigalerkinproj reductions py2to3'.split():
        importlib.import_module('modred.' + m)
    import modred
    S.load = lambda P, nodes=1, hosts=None: [sys.modules] * P
    S._swap = lambda mods: None
    S.MPI = MPI
    here = os.path.dirname(out)
    number = [0]

    def world(case, **kw):
        number[0] += 1
        path = os.path.join(here, 'store-%d' % number[0])
        if comm.Get_rank() == 0:
            os.mkdir(path)
            os.mkdir(path + '-arrays')
        comm.Barrier()
        return World(comm, path, comm.Get_size(), case.get('sched', 0))
    vs.world, vs.finish = world, finish
    modname, fname = spec.split(':')
    f = getattr(importlib.import_module(modname), fname)
    with open(cases) as fh:
        cases = json.load(fh)
    res = []
    for c in cases:
        number[0] = 0
        r = f(c)
        # some results are known to one worker only
        who = c.get('lay', c).get('sched', 0) % comm.Get_size()
        r = comm.bcast(r, root=who)
        res.append(r)
        comm.Barrier()
        if comm.Get_rank() == 0:          # every process has read what it needs
            for n in os.listdir(here):
                if n.startswith('store-'):
                    shutil.rmtree(os.path.join(here, n))
        comm.Barrier()
    if comm.Get_rank() == 0:
        with open(out + '.tmp', 'w') as fh:
            json.dump(res, fh)
        os.rename(out + '.tmp', out)


# ---------------------------------------------------------------- the check's side
def sample(ck, spec, P, cases, timeout=120):
    """Runs the cases on P real processes; [(case, result)], [] if the run did not finish."""
    if ck.replay is not None:
        cases = [ck.replay['case']] if ck.replay['case'].get('real') == P else []
    cases = [dict(c, real=P) for c in cases]
    if not cases:
        return []
    d = tempfile.mkdtemp(prefix='real-', dir=ck.scratch)
    try:
        with open(os.path.join(d, 'cases'), 'w') as f:
            json.dump(cases, f)
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                   MRV_ALARM=str(timeout + 30))
        cmd = [MPIEXEC, '-launcher', 'fork', '-n', str(P), sys.executable, '-W', 'ignore', '-m', 'mrv.realmpi', spec,
               os.path.join(d, 'cases'), os.path.join(d, 'out')]
        t = time.time()
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            o = p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 15)
            try:
                o = p.communicate(timeout=5)[0]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                o = p.communicate()[0]
        if not os.path.exists(os.path.join(d, 'out')):
            ck.count('runs of mpiexec without an answer')
            ck.log('mpiexec -n %d gave no answer (%s): %s' % (P, p.returncode, o.decode(errors='replace')[-300:]))
            return []
        with open(os.path.join(d, 'out')) as f:
            res = json.load(f)
        ck.count('cases on real processes', len(cases))
        ck.log('ran %d cases on %d real processes in %.1fs' % (len(cases), P, time.time() - t))
        return list(zip(cases, res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def several(ck, spec, cases, each=None, procs=None):
    """Some of the given cases on a few numbers of processes."""
    out = []
    for P in procs or ck.pick([2, 3, 4], [2, 3, 4, 5, 6]):
        mine = [c for c in cases if c.get('lay', c)['P'] == P and c.get('lay', c)['nodes'] == 1]
        mine = mine[:each or ck.pick(15, 100)]
        got = sample(ck, spec, P, mine)
        if mine and not got and ck.replay is None:
            break                   # the next ones would not finish either
        out += got
    return out


if __name__ == '__main__':
    import signal
    from mrv import realmpi
    signal.alarm(int(os.environ.get('MRV_ALARM', '600')))      # never outlive the check for long
    realmpi.main(*sys.argv[1:])
