"""C09  Worker-zero helpers act once and every worker agrees."""
import sys
import numpy as np
from mrv import hl, mpisim as S, scen, vs
from mrv.vsdrive import POLICIES

CLAUSES = {'RunOnce', 'RunOnWorkerZero', 'GivenArguments', 'ResultEverywhere', 'ResultOnWorkerZero',
           'NothingElsewhere', 'PrintedAsGiven', 'PrintedByWorkerZero', 'PrintedToChannel', 'PrintedOnce',
           'RankQueries', 'SizeQueries', 'NodeQueries', 'NoError', 'NoDeadlock', 'EveryCallReturns',
           'LoadedOnce', 'LoadedByWorkerZero', 'Loaded', 'LoadedAsRequested', 'SameOnEveryWorker'}
KINDS = ['call', 'callbcast', 'callbcast', 'bcast', 'print']


def gen(ck):
    rng = ck.rng
    out = []
    for i in range(ck.pick(300, 3000)):
        P = 1 + i % 7
        # any distribution of the workers over nodes, also interleaved ones
        # (names which differ only at their start, end or middle, in case, in length)
        style = rng.choice(['node%d', 'node%d', 'compute-node-long-name-%03d', '%d.cluster.example.org',
                            'n%03d-rack-a.site.example.org', 'h%s', 'case%s', 'node%s'])
        marks = {'h%s': ['', 'h', 'hh', 'hhh', 'hhhh', 'hhhhh', 'hhhhhh', 'hhhhhhh'],
                 'case%s': ['a', 'A', 'b', 'B', 'c', 'C', 'd', 'D'],
                 'node%s': ['1', '01', '10', '100', '001', '010', '11', '111']}.get(style, list(range(8)))
        names = [style % marks[k] for k in range(rng.randint(1, P))]
        hosts = [rng.choice(names) for _ in range(P)]
        if rng.random() < .3:
            hosts = [names[r * len(names) // P] for r in range(P)]
        calls = []
        for k in range(rng.randint(1, 6)):
            kind = rng.choice(KINDS)
            args = [rng.randint(-9, 9) for _ in range(rng.randint(0, 3))]
            ch = rng.choice(['stdout', 'stderr'])
            calls.append({'kind': kind, 'args': args, 'kw': rng.randint(0, len(args)),
                          'val': [rng.randint(-9, 9) for _ in range(rng.randint(1, 4))],
                          'type': rng.choice(['list', 'array', 'tuple', 'falsy']),
                          'text': 'm%d.%d' % (k, rng.randint(0, 99)),
                          'ch': ch, 'how': rng.choice(['default', 'kw', 'upper', 'pos']),
                          'who': rng.choice(['parallel', 'parallel', 'vs']),
                          'sync': rng.random() < .3})
            c = calls[-1]
            if c['who'] == 'vs' and c['kind'] == 'print' and c['how'] == 'pos':
                c['how'] = 'kw'
            if c['kind'] == 'print' and c['how'] == 'default':
                c['ch'] = 'stdout'
            if c['type'] == 'falsy':
                c['val'] = [0]
        out.append({'P': P, 'hosts': hosts, 'calls': calls, 'sched': rng.randrange(10 ** 6),
                    'policy': rng.choice(POLICIES), 'eager': rng.choice([None, True, False])})
    return out


def dec(call):
    v = call['val']
    return {'list': list(v), 'array': np.array(v), 'tuple': tuple(v), 'falsy': 0}[call['type']]


def enc(v):
    if v is None:
        return 0, []
    try:
        return 1, [int(x) for x in np.asarray(v).reshape(-1)]
    except Exception:
        return 1, [vs.NOTNUM]


class Recorder(object):
    def __init__(self, world, ch):
        self.w, self.ch, self.buf = world, ch, {}

    def write(self, text):
        r = S.CUR.ctx.rank if S.CUR.ctx is not None else -1
        b = self.buf.get(r, '') + str(text)
        while '\n' in b:
            line, b = b.split('\n', 1)
            k = int(line[1:line.index('.')]) if line[:1] == 'm' and '.' in line else -1
            self.w.ev('print', ch=self.ch, text=line[:60], k=k)
        self.buf[r] = b
        return len(text)

    def flush(self):
        pass


def helpers(case):
    P = case['P']
    M = S.load(P, 0 if P == 1 and case['sched'] % 2 else 1, case['hosts'])      # 0: no mpi4py
    w = vs.world(case)

    def target(r):
        par = M[r]['modred.parallel']
        sp = M[r]['modred.vectorspace'].VectorSpaceHandles(vs.ip, verbosity=1, max_vecs_per_node=10 ** 6)
        w.ev('query', rank=par.get_rank(), zero=bool(par.is_rank_zero()), size=par.get_num_MPI_workers(),
             procs=par.get_num_procs(), dist=bool(par.is_distributed()), host=par.get_hostname(),
             nodes=par.get_num_nodes(), node=str(par.get_node_ID()))
        for k, call in enumerate(case['calls']):
            kws = {'x%d' % i: a for i, a in enumerate(call['args'])}
            n = len(call['args']) - call['kw']
            pos = [kws.pop('x%d' % i) for i in range(n)]

            def fn(*args, **kw):
                w.yield_()
                got = list(args) + [kw['x%d' % i] for i in range(len(args), len(args) + len(kw))]
                w.ev('run', k=k, got=[int(g) for g in got])
                return dec(call)

            out = None
            if call['kind'] == 'call':
                out = par.call_from_rank_zero(fn, *pos, **kws)
            elif call['kind'] == 'callbcast':
                out = par.call_and_bcast(fn, *pos, **kws)
            elif call['kind'] == 'bcast':
                out = par.bcast(dec(call) if r == 0 else ['other', r])
            else:
                ch = call['ch'].upper() if call['how'] == 'upper' else call['ch']
                f = sp.print_msg if call['who'] == 'vs' else par.print_from_rank_zero
                if call['how'] == 'default':
                    f(call['text'])
                elif call['how'] == 'pos':
                    f(call['text'], ch)
                else:
                    f(call['text'], output_channel=ch)
            if call['sync']:
                par.barrier()
            h, v = enc(out)
            w.ev('ret', k=k, has=h, res=v)
        return True

    class Silent(object):
        write = staticmethod(lambda t: None)
        flush = staticmethod(lambda: None)

    real = sys.stdout, sys.stderr
    # the constructor may print a notice about itself: only lines of the calls are recorded
    class Rec(Recorder):
        def write(self, text):
            if text.startswith('m') or self.buf.get(S.CUR.ctx.rank if S.CUR.ctx else -1):
                return Recorder.write(self, text)
            return len(text)
    sys.stdout, sys.stderr = Rec(w, 'stdout'), Rec(w, 'stderr')
    try:
        w.run(target, M)
    finally:
        sys.stdout, sys.stderr = real
    vs.finish(w)
    return {'ev': [{'e': 'begin', 'P': P, 'hosts': case['hosts'],
                    'calls': [{k: c[k] for k in ('kind', 'args', 'val', 'text', 'ch')} for c in case['calls']]}]
            + w.events}


def loading(ck):
    """Save everything which can be saved, load it all into fresh objects."""
    rng = ck.rng
    out = []
    for i in range(ck.pick(80, 800)):
        cls = ['POD', 'BPOD', 'DMD', 'TLSqrDMD'][i % 4]
        case = dict(scen.layout(rng, 1 + i // 4 % 5), cls=cls, data={}, ops=[], objs={
            'o': {'cls': cls, 'limit': rng.choice([None, 100])}, 'p': {'cls': cls, 'limit': 100}})
        d, r = scen.dataset(rng, cls)
        case['data']['d'] = d
        K = hl.CLASSES[cls]
        ops = case['ops']
        ops.append(scen.decomp_op('o', cls, 'd', d, r))
        for kind in K['coeffs']:
            ops.append({'op': 'coeffs', 'obj': 'o', 'kind': kind})
        ops.append({'op': 'putdecomp', 'obj': 'o', 'dest': 'D'})
        for a in K['load_one']:
            ops.append({'op': 'put', 'obj': 'o', 'what': a, 'dest': a})
        loads = [{'op': 'get', 'obj': 'p', 'what': a, 'src': a} for a in K['load_one']] \
            + [{'op': 'getdecomp', 'obj': 'p', 'src': 'D'}]
        rng.shuffle(loads)
        ops.extend(loads)
        out.append(case)
    return out


def one(case):
    if 'ops' in case:
        return hl.Runner(case).run().trace()
    return helpers(case)


def run(ck):
    ck.clauses = CLAUSES
    got = ck.observe(one, gen(ck) + loading(ck), what='helper runs')
    ck.judge('HelpersTrace', [(c, t) for c, t in got if 'hosts' in c])
    ck.judge('OutputsTrace', [(c, t) for c, t in got if 'ops' in c])
