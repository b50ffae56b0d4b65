"""C31  The elementary helpers: equality, shapes, lists, files, random systems, vectors."""
import os
import shutil
import tempfile
import numpy as np
from mrv import lti
from mrv import modal
from mrv import mpisim as S


def value(rng):
    """A description of a value: type, shape, elements (pairs of integers)."""
    t = rng.choice(['int', 'float', 'complex', 'list', 'tuple', 'str', 'array', 'array', 'array', 'float64', 'none'])
    k = {'list': 1, 'tuple': 1, 'str': 1, 'array': rng.choice([0, 1, 1, 2, 2, 3])}.get(t, 0)
    s = [rng.choice([1, 1, 2, 2, 3, 0] if t != 'array' else [1, 2, 2, 3]) for _ in range(k)]
    n = int(np.prod(s)) if t != 'none' else 0
    im = rng.random() < .3 and t in ('complex', 'array')
    d = [[rng.choice([0, 1, 1, 2, -3]), rng.choice([0, 0, 1]) if im else 0] for _ in range(n)]
    if t == 'str':
        d = [[97 + abs(x[0]), 0] for x in d]
    return {'t': t, 's': s, 'd': d, 'form': rng.choice(['f', 'i', 'F'])}


def alike(rng, v):
    """Another value, not very different from the first one."""
    v = {'t': v['t'], 's': list(v['s']), 'd': [list(x) for x in v['d']], 'form': v['form']}
    how = rng.choice(['same', 'same', 'element', 'shape', 'type', 'form', 'other'])
    if how == 'element' and v['d'] and v['t'] != 'none':
        x = rng.choice(v['d'])
        x[0] += 1
        if v['t'] in ('complex', 'array') and rng.random() < .3:
            x[0] -= 1
            x[1] += 1
    elif how == 'shape' and v['t'] == 'array':
        r = rng.random()
        if r < .4:
            v['s'] = v['s'][::-1]
        elif r < .7:
            v['s'] = v['s'] + [1]
        elif len(set(map(tuple, v['d']))) == 1:     # would broadcast
            v['s'], v['d'] = [], v['d'][:1]
        else:
            v['s'] = [len(v['d'])]
    elif how == 'type':
        v['t'] = {'list': 'tuple', 'tuple': 'list', 'int': 'float', 'float': 'float64', 'float64': 'float'}.get(v['t'], v['t'])
        if v['t'] == 'array' and len(v['s']) == 1:
            v['t'] = 'list'
    elif how == 'form':
        v['form'] = rng.choice(['f', 'i', 'F'])
    elif how == 'other':
        return value(rng)
    return v


def build(v):
    d = [complex(*x) for x in v['d']]
    t = v['t']
    re = [int(x.real) for x in d]
    if t == 'none':
        return None
    if t in ('int', 'float', 'float64'):
        return {'int': int, 'float': float, 'float64': np.float64}[t](re[0])
    if t == 'complex':
        return d[0]
    if t in ('list', 'tuple'):
        return (list if t == 'list' else tuple)(d if any(x.imag for x in d) else re)
    if t == 'str':
        return ''.join(chr(x) for x in re)
    a = np.array(d).reshape(v['s'])
    if not np.any(a.imag):
        a = a.real.copy()
        if v['form'] == 'i':
            a = a.astype(int)
    return np.asfortranarray(a).reshape(v['s']) if v['form'] == 'F' else a


def clean(v):
    return {k: v[k] for k in ('t', 's', 'd')}


def word(rng):
    return ''.join(rng.choice('ab.x_') for _ in range(rng.randint(1, 6)))


def case(rng):
    ops = []
    for _ in range(rng.randint(4, 10)):
        w = rng.choice(['eq', 'eq', 'eq', 'hand', 'hand', 'space', 'shape', 'shape', 'flat', 'sums', 'iter', 'files', 'members',
                        'system', 'vector', 'block', 'script'])
        o = {'e': w}
        if w in ('eq', 'hand'):
            o['a'] = value(rng)
            o['b'] = alike(rng, o['a'])
        if w == 'hand':
            o['kinds'] = [rng.choice(['VecHandleInMemory', 'VecHandleArrayText', 'VecHandlePickle']) for _ in range(2)]
            if rng.random() < .7:
                o['kinds'][1] = o['kinds'][0]
            o['paths'] = [rng.choice(['a.txt', 'b.txt', 'a.pkl']) for _ in range(2)]
            if rng.random() < .5:
                o['paths'][1] = o['paths'][0]
        elif w == 'space':
            n = rng.randint(1, 3)
            o['kind'] = rng.choice(['VectorSpaceArrays', 'VectorSpaceHandles'])
            o['parts'] = [[rng.choice([1, 2, 3]) for _ in range(n)] for _ in range(2)]
            if rng.random() < .5:
                o['parts'][1] = o['parts'][0]
            o['verb'] = [rng.choice([0, 0, 1]), rng.choice([0, 0, 1])]
            o['mixed'] = rng.random() < .15
        elif w == 'shape':
            o['what'] = rng.choice(['row', 'col'])
            o['a'] = value(rng)
            while o['a']['t'] not in ('array', 'list', 'tuple', 'float') or (o['a']['t'] == 'list' and not o['a']['d']):
                o['a'] = value(rng)
        elif w == 'flat':
            o['a'] = [[rng.randint(-5, 5) for _ in range(rng.choice([0, 1, 2, 3]))] for _ in range(rng.randint(0, 4))]
            o['form'] = rng.choice(['list', 'tuple', 'array'])
        elif w == 'sums':
            o['what'] = rng.choice(['lists', 'lists', 'arrays'])
            o['a'] = [rng.randint(-9, 9) for _ in range(rng.choice([1, 2, 3, 5]))]
            o['b'] = [rng.randint(-9, 9) for _ in o['a']]
            if rng.random() < .2 and o['what'] == 'lists':
                o['b'] = o['b'] + [1] if rng.random() < .5 else o['b'][:-1]
            o['form'] = rng.choice(['list', 'array'])
        elif w == 'iter':
            o['what'] = rng.choice(['list', 'tuple', 'array', 'range', 'str', 'generator', 'dict', 'int', 'float', 'none', 'object',
                                    'handle', 'empty'])
        elif w == 'files':
            o['names'] = sorted(set(word(rng) for _ in range(rng.randint(0, 6))) - {'.', '..'})
            o['ext'] = rng.choice([None, word(rng)[-2:], word(rng)[-1:]] + [n[-k:] for n in o['names'] for k in (1, 2, 3)])
            o['dir'] = rng.choice([False, True])
        elif w == 'members':
            o['data'] = sorted(set(rng.choice(['x', 'y', '_z', 'w_', 'verbosity', '_a_b']) for _ in range(rng.randint(0, 4))))
            o['klass'] = rng.random() < .5
        elif w == 'system':
            o.update(what=rng.choice(['drss', 'rss']), n=rng.choice([1, 2, 3, 4, 5, 6, 8, 9]), m=rng.randint(1, 3), p=rng.randint(1, 3),
                     seed=rng.randrange(10 ** 6))
        elif w == 'vector':
            n = rng.randint(1, 3)
            o.update(a=[rng.randint(-9, 9) for _ in range(n)], b=[rng.randint(-9, 9) for _ in range(n)], k=rng.randint(-4, 4))
        elif w == 'block':
            n, o['p'] = rng.randint(1, 3), rng.choice([1, 2])
            o['a'], o['b'] = [[[[rng.randint(-5, 5), rng.randint(-5, 5) if o['p'] == 2 else 0] for _ in range(n)]
                               for _ in range(rng.randint(1, 4))] for _ in range(2)]
        elif w == 'script':
            o.update(x=rng.randint(-9, 9), y=rng.randint(-9, 9), how=rng.choice(['both', 'caller', 'function']))
        ops.append(o)
    return {'ops': ops}


def named(x):
    return [ord(z) for z in x]


def elements(a):
    a = np.asarray(a)
    return {'t': 'array', 's': list(a.shape), 'd': lti.ints(a.ravel())}


def yes(x):
    return bool(x) is True


def run_op(M, o):
    u, v = M['modred.util'], M['modred.vectors']
    w = o['e']
    e = dict(o)
    if w == 'eq':
        r = u.smart_eq(build(o['a']), build(o['b']))
        return {'e': 'eq', 'a': clean(o['a']), 'b': clean(o['b']), 'res': yes(r), 'ne': '-'}
    if w == 'hand':
        hs, ds = [], []
        for kind, path, x in zip(o['kinds'], o['paths'], (o['a'], o['b'])):
            if kind == 'VecHandleInMemory':
                hs.append(v.VecHandleInMemory(build(x)))
                ds.append({'t': kind + x['t'], 's': x['s'], 'd': x['d']})
            else:
                hs.append(getattr(v, kind)(path))
                ds.append({'t': kind, 's': [], 'd': named(path)})
        return {'e': 'eq', 'a': ds[0], 'b': ds[1], 'res': yes(hs[0] == hs[1]), 'ne': 'yes' if hs[0] != hs[1] else 'no'}
    if w == 'space':
        m = M['modred.vectorspace']
        sp, ds = [], []
        ips = {}
        for i in (0, 1):
            kind = o['kind']
            if o['mixed'] and i:
                kind = {'VectorSpaceArrays': 'VectorSpaceHandles', 'VectorSpaceHandles': 'VectorSpaceArrays'}[kind]
            if kind == 'VectorSpaceArrays':
                sp.append(m.VectorSpaceArrays(weights=np.array(o['parts'][i], dtype=float)))
                ds.append({'t': kind, 's': [], 'd': o['parts'][i]})
            else:
                f = ips.setdefault(tuple(o['parts'][i]), lambda a, b: 0.)
                sp.append(m.VectorSpaceHandles(inner_product=f, verbosity=o['verb'][i]))
                ds.append({'t': kind, 's': [o['verb'][i]], 'd': o['parts'][i]})
        return {'e': 'space', 'a': ds[0], 'b': ds[1], 'res': yes(sp[0] == sp[1]), 'ne': 'yes' if sp[0] != sp[1] else 'no'}
    if w == 'shape':
        a = build(o['a'])
        r = {'row': u.atleast_2d_row, 'col': u.atleast_2d_col}[o['what']](a)
        return {'e': w, 'what': o['what'], 'a': elements(a), 'out': elements(r)}
    if w == 'flat':
        a = o['a']
        f = {'list': lambda z: z, 'tuple': tuple, 'array': np.array}[o['form']]
        r = u.flatten_list(f([]) if not a else (tuple if o['form'] == 'tuple' else list)(f(x) for x in a))
        return {'e': w, 'a': a, 'out': [int(x) for x in r]}
    if w == 'sums':
        f = np.array if o['form'] == 'array' else list
        e = {'e': w, 'a': o['a'], 'b': o['b'], 'out': [], 'err': ''}
        try:
            r = (u.sum_lists if o['what'] == 'lists' else u.sum_arrays)(f(o['a']), f(o['b']))
            e['out'] = [int(x) for x in r]
        except Exception as ex:
            e['err'] = type(ex).__name__
        return e
    if w == 'iter':
        x = {'list': [1, 2], 'tuple': (1,), 'array': np.arange(3), 'range': range(2), 'str': 'ab', 'generator': (i for i in [1]),
             'dict': {1: 2}, 'int': 3, 'float': 2., 'none': None, 'object': object(), 'handle': v.VecHandleInMemory(1), 'empty': []}[o['what']]
        r = u.make_iterable(x)
        out = 'same' if r is x else 'wrapped' if isinstance(r, list) and len(r) == 1 and r[0] is x else 'other'
        return {'e': w, 'iterable': o['what'] not in ('int', 'float', 'none', 'object', 'handle'), 'out': out}
    if w == 'files':
        d = tempfile.mkdtemp(prefix='c31-', dir=os.getcwd())
        try:
            for i, n in enumerate(o['names']):
                if o['dir'] and i == 0:
                    os.mkdir(os.path.join(d, n))
                else:
                    open(os.path.join(d, n), 'w').close()
            r = u.get_file_list(d) if o['ext'] is None else u.get_file_list(d, o['ext'])
            return {'e': w, 'names': [named(n) for n in o['names']], 'ext': named(o['ext'] or ''), 'out': [named(n) for n in r]}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if w == 'members':
        class K(object):
            def method(self):
                pass
        vals = {n: object() for n in o['data']}
        x = K()
        for i, (n, val) in enumerate(sorted(vals.items())):
            setattr(K if o['klass'] and i == 0 else x, n, val)
        r = u.get_data_members(x)
        return {'e': w, 'data': o['data'], 'out': sorted(r), 'same': all(r.get(n) is val for n, val in vals.items())}
    if w == 'system':
        st = np.random.get_state()
        np.random.seed(o['seed'])
        A, B, C = getattr(u, o['what'])(o['n'], o['m'], o['p'])
        np.random.set_state(st)
        return {'e': w, 'what': o['what'], 'n': o['n'], 'm': o['m'], 'p': o['p'], 'A': list(np.shape(A)), 'B': list(np.shape(B)),
                'C': list(np.shape(C)), 'eigs': modal.cvec(np.linalg.eigvals(A)) if np.all(np.isreal(A)) else []}
    if w == 'block':
        conv = lambda vs: [np.array([complex(*z) if o['p'] == 2 else float(z[0]) for z in x]) for x in vs]
        r = u.InnerProductBlock(np.vdot)(conv(o['a']), conv(o['b']))
        return {'e': w, 'a': o['a'], 'b': o['b'], 'shape': list(np.shape(r)),
                'out': [[[int(round(z.real)), int(round(z.imag))] for z in row] for row in np.asarray(r).tolist()]}
    if w == 'script':
        p = M['modred.py2to3']
        d = tempfile.mkdtemp(prefix='c31-', dir=os.getcwd())
        path = os.path.join(d, 'script.py')
        try:
            with open(path, 'w') as f:
                f.write('def f():\n    return z * x\nz = x + %d\nimport math\nres = f() if %r == "both" else z * x' % (o['y'], o['how']))
            if o['how'] == 'both':
                ns = {'x': o['x']}
                p.run_script(path, ns, ns)
            elif o['how'] == 'caller':
                ns = {'x': o['x'], 'p': p, 'path': path}
                exec('p.run_script(path)', ns)
            else:
                ns = {}
                exec('def g(x):\n    d = locals()\n    p.run_script(path, locals=d)\n    return d', {'p': p, 'path': path}, ns)
                ns = ns['g'](o['x'])
            return {'e': w, 'x': o['x'], 'y': o['y'], 'res': ns['res']}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if w == 'vector':
        class X(v.Vector):
            def __init__(self, x):
                self.x = list(x)

            def __add__(self, other):
                return X([p + q for p, q in zip(self.x, other.x)])

            def __mul__(self, k):
                return X([k * p for p in self.x])
        a, b = X(o['a']), X(o['b'])
        return {'e': w, 'a': o['a'], 'b': o['b'], 'k': o['k'], 'sub': (a - b).x, 'left': (o['k'] * a).x, 'right': (a * o['k']).x}


def one(c):
    M = S.load(1)[0]
    ev = []
    for o in c['ops']:
        try:
            ev.append(run_op(M, o))
        except Exception as ex:
            ev.append({'e': 'error', 'at': o['e'], 'what': '%s: %s' % (type(ex).__name__, str(ex)[:150])})
    return {'ev': ev}


def many(batch):
    return [one(c) for c in batch['batch']]


def run(ck):
    cases = [case(ck.rng) for _ in range(ck.pick(3000, 40000))] if ck.replay is None else []
    traces = lti.batched(ck, many, one, cases, 'series of calls', size=100)
    for c, rec in traces:
        for o in c['ops']:
            ck.count(o['e'])
    ck.judge('UtilTrace', traces)
    ck.assumptions += ['random systems have up to five states; their eigenvalues are compared to 1/200']
