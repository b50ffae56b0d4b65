"""C01  Work is divided completely, in order and evenly."""
import numpy as np
from fractions import Fraction
from mrv import mpisim as S

KINDS = ['equal', 'none', 'small', 'zeros', 'tail0', 'big', 'float', 'frac', 'npint', 'one']


def gen(ck):
    out = []
    nmax = ck.pick(14, 26)
    for P in (1, 2, 3, 4, 5, 7, 8):
        for i in range(ck.pick(60, 500)):
            kind = KINDS[i % len(KINDS)]
            n = ck.rng.choice([0, 1, 2, P - 1, P, P + 1, 2 * P, ck.rng.randint(0, nmax)])
            n = max(0, n)
            if kind in ('equal', 'none'):
                w = [ck.rng.choice([1, 3]) if kind == 'equal' else 1] * n
            elif kind == 'zeros':
                w = [ck.rng.choice([0, 0, 1]) for _ in range(n)]
            elif kind == 'tail0':
                w = [ck.rng.randint(0, 4) for _ in range(n)]
                for k in range(ck.rng.randint(0, n)):
                    w[n - 1 - k] = 0
            elif kind == 'big':
                w = [ck.rng.choice([1, 1, 1, 500, 2]) for _ in range(n)]
            elif kind == 'one':
                w = [0] * n
                if n:
                    w[ck.rng.randrange(n)] = 5
            else:
                w = [ck.rng.randint(0, 6) for _ in range(n)]
            scale = {'float': 4, 'frac': 8}.get(kind, 1)
            cont = ck.rng.choice(['list', 'list', 'tuple', 'array'])
            out.append({'P': P, 'kind': kind, 'w': w, 'scale': scale, 'cont': cont,
                        'tasks': [ck.rng.randint(0, 40) for _ in range(n)] if i % 3 else list(range(n)),
                        'call': 'both' if i % 2 else 'pos'})
    return out


def one(case):
    P, w, tasks = case['P'], case['w'], case['tasks']
    M = S.load(P, 0 if P == 1 and len(w) % 2 else 1)      # 0: no mpi4py
    ev = [{'e': 'begin', 'w': w, 'tasks': tasks, 'P': P}]
    answers = []
    for r in range(P):
        par = M[r]['modred.parallel']
        arg = [list, tuple, np.array][['list', 'tuple', 'array'].index(case['cont'])](tasks)
        if case['kind'] == 'none':
            args = (arg,)
        else:
            ww = [x / case['scale'] for x in w] if case['scale'] > 1 else list(w)
            if case['kind'] == 'npint':
                ww = np.array(ww, dtype=int)
            args = (arg, ww)
        try:
            S._swap(M[r])
            S.LAYOUT.imp_rank, S.LAYOUT.imp_size = r, P
            if case['kind'] != 'none' and case['call'] == 'both':
                a = par.find_assignments(arg, task_weights=args[1])
            else:
                a = par.find_assignments(*args)
            emp = par.check_for_empty_tasks(a)
            answers.append(([[int(t) for t in x] for x in a], bool(emp)))
        except Exception as ex:
            ev.append({'e': 'error', 'what': repr(ex)[:200]})
            return {'ev': ev}
        finally:
            S.LAYOUT.imp_rank, S.LAYOUT.imp_size = 0, 1
    a, emp = answers[0]
    for r, x in enumerate(a):
        ev.append({'e': 'take', 'r': r, 'got': x})
    ev.append({'e': 'end', 'entries': len(a), 'empty': emp, 'agree': all(x == answers[0] for x in answers)})
    return {'ev': ev}


def ask_empty(case):
    """The emptiness test on an assignment which did not come from find_assignments."""
    mods = S.load(1, 1)[0]
    S._swap(mods)
    ev = []
    for i, a in enumerate(case['asg']):
        try:
            got = mods['modred.parallel'].check_for_empty_tasks([{'list': list, 'array': np.array}[case['cont']](x) for x in a])
            ev.append({'e': 'asked', 'sizes': [len(x) for x in a], 'empty': bool(got)})
        except Exception as ex:
            ev.append({'e': 'error', 'what': repr(ex)[:200]})
    return {'ev': ev}


def run(ck):
    # the design: every weight list within the bounds, every tie
    ck.design('Assign', 'Assign.cfg' if ck.quick else 'AssignBig.cfg')
    cases = gen(ck)
    # plus every weight list of the design's bounds which is small enough to run exhaustively
    from itertools import product
    for n in range(0, ck.pick(5, 6)):
        for w in product(range(0, ck.pick(3, 4)), repeat=n):
            for P in ((1, 2, 3) if ck.quick else (1, 2, 3, 4, 5)):
                cases.append({'P': P, 'kind': 'small', 'w': list(w), 'scale': 1, 'cont': 'list',
                              'tasks': list(range(n)), 'call': 'pos'})
    for c in cases:
        ck.count('P=%d' % c['P'])
    # batches: one process call handles many
    tr = ck.observe(one, cases, what='assignments')
    # the emptiness test on every shape of assignment, not only on those find_assignments makes
    shapes = [[[7] * k for k in x] for n in range(1, 6) for x in product(range(0, 3), repeat=n)]
    asked = [{'asg': shapes[i:i + 30], 'cont': ['list', 'array'][(i // 30) % 2]} for i in range(0, len(shapes), 30)]
    ck.judge('AssignTrace', tr + ck.observe(ask_empty, asked, what='emptiness tests'))
