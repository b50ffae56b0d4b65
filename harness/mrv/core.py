"""Common machinery of the checks: cases, worker processes, TLC, verdicts, evidence."""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('MRV_REPO', '/repo')
TLC_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KNOWN = os.path.join(VERIF, 'known_findings.json')
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check itself failed (never a verdict)."""


class TlcResult(object):
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.out = ''
        self.rc = None
        self.violated = None      # name of a violated invariant/property
        self.error = None


class Check(object):
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s-%d' % (prop, seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.bad = []             # (clause, case, detail)
        self.kinds = {}
        self.notes = {}
        self.assumptions = []
        self.models = []
        self.replay_file = replay
        self.replay = None
        self.clauses = None       # clauses this property owns (None: all)
        if replay:
            with open(replay) as f:
                self.replay = json.load(f)

    quick = property(lambda s: s.tier != 'thorough')

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def __enter__(self):
        base = os.environ.get('MRV_SCRATCH') or None
        self.scratch = tempfile.mkdtemp(prefix='mrv-%s-' % self.prop, dir=base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, msg):
        sys.stdout.write('[%s %6.1fs] %s\n' % (self.prop, time.time() - self.t0, msg))
        sys.stdout.flush()

    # ------------------------------------------------------------ running the code
    def map(self, fn, items, timeout=60, nproc=None, what=''):
        """fn(item) in worker processes.  Returns one result per item; a result is
        {'ok': value} or {'crash': text} or {'hang': text}."""
        items = list(items)
        t = time.time()
        out = run_pool(fn, items, timeout, nproc or NPROC, self.scratch)
        self.evals += len(items)
        self.log('ran %d %s in %.1fs' % (len(items), what or 'cases', time.time() - t))
        return out

    def observe(self, fn, cases, timeout=60, what='', nproc=None):
        """Run the cases on the real code; anything which is not a result becomes a
        violation of the clause "Terminates" or "Result"."""
        if self.replay is not None:
            cases = [c for c in [self.replay['case']] if not c.get('real')]     # see realmpi
        traces = []
        for case, r in zip(cases, self.map(fn, cases, timeout, nproc, what)):
            if r is None:
                continue
            if 'ok' in r:
                traces.append((case, r['ok']))
            elif 'hang' in r:
                self.violation('Terminates', case, r['hang'])
            else:
                self.violation('Result', case, r['crash'])
        return traces

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, args=(), count=True,
            mem='2g'):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, module + '_run.cfg')
        if cfg is None:
            shutil.copy(os.path.join(SPEC, module + '.cfg'), cfgp)
        elif cfg.endswith('.cfg'):
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        else:
            with open(cfgp, 'w') as f:
                f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=%d' % (1 if self.quick and workers == 1 else 4),
               '-Djava.io.tmpdir=' + d,
               '-cp', TLC_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'm'),
               '-noGenerateSpecTE', '-nowarning', '-config', cfgp] + list(args) + [module]
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise MachineryError('TLC timed out on ' + module)
        return self._tlc_result(module, p.returncode, out.decode('utf8', 'replace'), count)

    def _tlc_result(self, module, rc, out, count):
        r = TlcResult()
        r.rc, r.out = rc, out
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        if m:
            r.states = int(m[-1][0].replace(',', ''))
            r.distinct = int(m[-1][1].replace(',', ''))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r'(?:Invariant|property|Property|Action property) (\S+) (?:is|was) violated', out)
        if m:
            r.violated = m.group(1)
        elif 'Temporal properties were violated' in out:
            r.violated = 'temporal'
        elif 'Deadlock reached' in out:
            r.violated = 'Deadlock'
        elif rc != 0:
            r.error = out[-3000:]
        if count:
            self.states += r.distinct
            self.transitions += r.states
        return r

    def design(self, module, cfg=None, workers=None, timeout=800, env=None, name=None):
        """Model check a design specification; it must hold (it does not depend on /repo)."""
        t = time.time()
        r = self.tlc(module, cfg, workers=workers or NPROC, timeout=timeout, env=env)
        if r.rc != 0:
            raise MachineryError('design model %s: %s\n%s' % (module, r.violated, r.out[-3000:]))
        self.models.append({'module': name or module, 'distinct': r.distinct, 'generated': r.states,
                            'depth': r.depth, 'wall_s': round(time.time() - t, 1)})
        self.log('design %s: %d distinct states, depth %d, %.1fs'
                 % (name or module, r.distinct, r.depth, time.time() - t))
        return r

    def judge(self, module, traces, shards=None, timeout=700, key=None, env=None):
        """traces: list of (case, record); each record is a JSON object with a list "ev".
        The trace specification `module` names the failing clauses."""
        if not traces:
            return
        t = time.time()
        n = shards or max(1, min(NPROC, len(traces) // 6 + 1))
        procs = []
        groups = [list(range(k, len(traces), n)) for k in range(n)]
        jobs = []
        for g in groups:
            d = tempfile.mkdtemp(prefix='jdg-', dir=self.scratch)
            tr = os.path.join(d, 'trace.ndjson')
            with open(tr, 'w') as f:
                for i in g:
                    f.write(json.dumps(traces[i][1]) + '\n')
            jobs.append((module, tr, os.path.join(d, 'out.json'), g))
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(n) as ex:
            e0 = dict(env or {})
            futs = [ex.submit(self.tlc, m, m + '.cfg' if os.path.exists(os.path.join(SPEC, m + '.cfg'))
                              else 'JudgeAny.cfg',
                              dict(e0, MRV_TRACE=tr, MRV_OUT=o), 1, timeout) for m, tr, o, g in jobs]
            res = [f.result() for f in futs]
        nbad = 0
        for r, (m, tr, o, g) in zip(res, jobs):
            if r.rc != 0 or not os.path.exists(o):
                keep = os.environ.get('MRV_KEEP')
                if keep:
                    shutil.copy(tr, os.path.join(keep, 'trace.ndjson'))
                i = r.out.find('Error:')
                raise MachineryError('trace specification %s: %s ... %s' % (module, r.out[i:i + 900], r.out[-2500:]))
            with open(o) as f:
                got = json.load(f)
            if got['cases'] != len(g):
                raise MachineryError('trace specification %s consumed %s of %d cases'
                                     % (module, got['cases'], len(g)))
            for c, l, clause in got['bad']:
                case, rec = traces[g[c - 1]]
                ev = rec['ev'][l - 1] if 1 <= l <= len(rec['ev']) else {'end': True}
                nbad += 1
                self.violation(clause, case, ev, rec)
        self.traces += len(traces)
        for case, rec in traces[:1]:
            self.sample({'case': case, 'events': len(rec['ev']), 'first': _short(rec['ev'][:2])})
        self.log('judged %d traces with %s in %.1fs: %d rejections'
                 % (len(traces), module, time.time() - t, nbad))

    # ------------------------------------------------------------ verdicts
    def violation(self, clause, case, detail=None, rec=None):
        clause = str(clause)
        if self.clauses is not None and clause not in self.clauses \
                and clause not in ('Terminates', 'Result'):
            return
        self.bad.append((clause, case, detail, rec))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(_short(s))

    def count(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def finish(self):
        known = load_known(self.prop)
        new = []
        hit = {}
        for b in self.bad:
            k = match_known(known, b)
            if k is None:
                new.append(b)
            else:
                hit.setdefault(k['id'], k)
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if not self.states or not (self.traces or self.replay):
            if not self.bad:
                raise MachineryError('nothing was explored')
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'evaluations': self.evals,
            'samples': self.samples or [{'note': 'no trace was accepted far enough to sample'}],
            'kinds': self.kinds, 'design_models': self.models,
            'violated_clauses': sorted(set(b[0] for b in new)),
        }
        cov.update(self.notes)
        evd = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
               'coverage': cov, 'assumptions': self.assumptions,
               'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not self.replay:
            tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.prop)
            with open(tmp, 'w') as f:
                json.dump(evd, f, indent=1, default=str)
            os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        if new:
            by = {}
            for b in new:
                by.setdefault(b[0], []).append(b)
            for clause in sorted(by):
                c, case, detail, rec = by[clause][0]
                path = self._write_replay(clause, case, detail, rec)
                print('  clause %s failed in %d case(s), e.g. %s' % (
                    clause, len(by[clause]), _text(case, 400)))
                print('    observed: %s' % _text(detail, 600))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s tier=%s states=%d traces=%d wall=%.1fs'
              % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0

    def _write_replay(self, clause, case, detail, rec):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps([clause, case], sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'clause': clause, 'case': case, 'detail': detail,
                       'trace': rec, 'replay': 'bin/check %s --replay %s' % (self.prop, p)},
                      f, indent=1, default=str)
        return p


def _text(x, n):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


def _short(x, n=1200):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- known findings
def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == prop]


def match_known(known, b):
    clause, case, detail, rec = b
    for k in known:
        if clause in k['clauses'] and isinstance(case, dict) and \
                all(case.get(a) == v for a, v in k['case'].items()):
            return k
    return None


# ---------------------------------------------------------------- worker processes
def _worker(fn, conn, scratch):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MRV_DEBUG'):
        os.dup2(devnull, 2)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        i, item = job
        poison = False
        try:
            r = {'ok': fn(item)}
        except Hang as ex:
            r = {'hang': str(ex)}
            poison = True
        except BaseException:
            r = {'crash': traceback.format_exc()[-1800:]}
        try:
            conn.send((i, r))
        except Exception:
            conn.send((i, {'crash': 'unpicklable result: ' + traceback.format_exc()[-600:]}))
        if poison:
            os._exit(0)


class Hang(Exception):
    """The code under test stopped making progress (this process is now unusable)."""


def run_pool(fn, items, timeout, nproc, scratch):
    ctx = mp.get_context('fork')
    results = [None] * len(items)
    hangs = []
    todo = list(range(len(items)))[::-1]
    live = {}

    def spawn():
        a, b = ctx.Pipe()
        d = tempfile.mkdtemp(prefix='w-', dir=scratch)
        p = ctx.Process(target=_worker, args=(fn, b, d))
        p.daemon = True
        p.start()
        b.close()
        live[a] = [p, None, 0.0]
        return a

    def feed(a):
        if todo:
            i = todo.pop()
            live[a][1], live[a][2] = i, time.time()
            try:
                a.send((i, items[i]))
            except (BrokenPipeError, OSError):
                todo.append(i)
                drop(a)
                feed(spawn())
        else:
            live[a][1] = None
            try:
                a.send(None)
            except Exception:
                pass
            drop(a, False)

    def drop(a, kill=True):
        p = live.pop(a)[0]
        if kill:
            p.kill()
        p.join(5)
        a.close()

    for _ in range(min(nproc, max(1, len(items)))):
        feed(spawn())
    while live:
        if len(hangs) >= 4:          # the verdict is clear; do not wait for the rest
            del todo[:]
        ready = mpc.wait(list(live), timeout=1.0)
        now = time.time()
        for a in ready:
            if a not in live:
                continue
            i = live[a][1]
            try:
                j, r = a.recv()
                results[j] = r
                if 'hang' in r:
                    hangs.append(j)
                    drop(a)
                    if todo:
                        feed(spawn())
                else:
                    feed(a)
            except (EOFError, OSError):
                p = live[a][0]
                p.join(2)
                if i is not None:
                    results[i] = {'crash': 'worker process died (exit %s)' % p.exitcode}
                drop(a)
                if todo:
                    feed(spawn())
        for a in list(live):
            if live[a][1] is not None and now - live[a][2] > timeout:
                results[live[a][1]] = {'hang': 'no result after %ds' % timeout}
                hangs.append(live[a][1])
                drop(a)
                if todo:
                    feed(spawn())
    return results
