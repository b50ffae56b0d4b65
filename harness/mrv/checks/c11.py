"""C11  Saved arrays are read back unchanged."""
import os
import shutil
import tempfile
import numpy as np
from mrv import mpisim as S

DTYPES = ['float64', 'complex128', 'float32', 'complex64', 'int64', 'int32', 'int8', 'uint8', 'uint16',
          'float16', '>f8', '>c16', 'list', 'tuple', 'longlist']
ORDERS = ['C', 'F', 'T', 'rev', 'stride', 'slice', 'bcast', 'sub', 'readonly']
DELIMS = [None, None, ' ', ',', ';', '\t', '|', ':']


class Sub(np.ndarray):
    pass


def name(x):
    x = float(x)
    if x == 0:
        x = 0.
    return x.hex()


def entry(z):
    z = complex(z)
    return [name(z.real), name(z.imag)]


def rows(a):
    a = np.asarray(a)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    if a.ndim > 2:
        a = a.reshape(a.shape[0], -1)
    return [[entry(x) for x in r] for r in a.tolist()]


def value(rng, dt):
    if dt.startswith('int') or dt.startswith('uint'):
        lim = {'int64': 2 ** 50, 'int32': 2 ** 31 - 1, 'int8': 127, 'uint8': 127, 'uint16': 2 ** 15}[dt]
        return rng.choice([rng.randint(0, 9), rng.randint(0, lim), -rng.randint(0, lim) if dt[0] == 'i' else 7])
    if dt == 'float16':
        return rng.choice([0, 1, .5, 1.25, -3, 1000, rng.randint(-99, 99) / 8])
    k = rng.random()
    if k < .2:
        return float(rng.randint(-3, 3))
    if k < .6:
        return rng.uniform(-10, 10)
    if dt in ('float32', 'complex64'):
        return rng.uniform(-1, 1) * 10. ** rng.randint(-30, 30)
    return rng.choice([1e300, -1e-300, 5e-324, 1 / 3., 2 ** 53 + 2., -0., 1e16 + 2, float('inf'), -float('inf'), float('nan'),
                       rng.uniform(-1, 1) * 10. ** rng.randint(-200, 200)])


def build(case):
    """The array object of a case: given values, type and memory layout."""
    dt = case['dt']
    sh = tuple(case['shape'])
    vals = [complex(float.fromhex(a), float.fromhex(b)) for a, b in case['vals']]
    if dt in ('list', 'tuple', 'longlist'):
        v = [z if case['cplx'] else z.real for z in vals]
        a = np.array(v).reshape(sh).tolist()
        if dt == 'tuple':
            a = tuple(tuple(r) if isinstance(r, list) else r for r in a)
        return a
    a = np.array([z if case['cplx'] else z.real for z in vals]).reshape(sh).astype(dt)
    o = case['order']
    if o == 'F':
        return np.asfortranarray(a)
    if o == 'T':
        return np.ascontiguousarray(a.T).T
    if o == 'rev':
        return a[::-1].copy()[::-1]
    if o == 'stride':
        b = np.zeros(tuple(2 * n for n in sh), dtype=a.dtype)
        b[...] = 77
        b[tuple(slice(1, None, 2) for _ in sh)] = a
        return b[tuple(slice(1, None, 2) for _ in sh)]
    if o == 'slice':
        b = np.zeros(tuple(n + 3 for n in sh), dtype=a.dtype, order='F')
        b[tuple(slice(1, n + 1) for n in sh)] = a
        return b[tuple(slice(1, n + 1) for n in sh)]
    if o == 'sub':
        return a.view(Sub)
    if o == 'bcast':
        return np.broadcast_to(a[:1], sh)
    if o == 'readonly':
        a.flags.writeable = False
        return a
    return a


def gen(ck):
    rng = ck.rng
    out = []
    for i in range(ck.pick(8000, 60000)):
        dt = DTYPES[i % len(DTYPES)]
        what = rng.choice(['text', 'text', 'text', 'text', 'texth', 'pickle', 'hand', 'many'])
        nd = rng.choice([1, 2, 2])
        if what == 'many' or (what == 'pickle' and rng.random() < .4):
            nd = rng.choice([3, 4])
        if what == 'many' and dt == 'longlist':
            nd = 3
        sh = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(nd)]
        cplx = dt in ('complex128', 'complex64', '>c16') or \
            (dt in ('list', 'tuple', 'longlist') and rng.random() < .4)
        n = int(np.prod(sh))
        vals = []
        for _ in range(n):
            re = float(value(rng, dt))
            im = float(value(rng, dt)) if cplx and rng.random() < .8 else 0.
            if dt in ('float32', 'complex64'):
                re, im = float(np.float32(re)), float(np.float32(im))
            vals.append([re.hex(), im.hex()])
        order = rng.choice(ORDERS)
        if order == 'bcast':
            vals = vals[:n // sh[0]] * sh[0]
        c = {'dt': dt, 'what': what, 'shape': sh, 'cplx': cplx, 'vals': vals, 'order': order,
             'delim': rng.choice(DELIMS), 'name': rng.choice(['a.txt', 'b c.txt', 'noext', 'x.dat']),
             'again': rng.random() < .3, 'how': rng.choice(['pos', 'kw'])}
        if cplx and all(float.fromhex(b) == 0 for a, b in vals) and dt in ('list', 'tuple', 'longlist'):
            c['vals'][0][1] = (1.5).hex()
        if what == 'hand':
            nl, ncol = rng.randint(1, 4), rng.randint(1, 6)
            c['lines'] = [[float(value(rng, 'float64')).hex() for _ in range(ncol)] for _ in range(nl)]
            c['fmt'] = rng.choice(['%r', '%.17g', '  %.17e', '%.17E'])
            c['asc'] = [rng.random() < .6 for _ in range(2)]
        out.append(c)
    return out


def parse(path, delim):
    lines = []
    with open(path) as f:
        for ln in f.read().split('\n'):
            if ln == '':
                continue
            toks = ln.split() if delim is None else [t for t in ln.split(delim)]
            try:
                lines.append([name(t) for t in toks])
            except ValueError:
                lines.append(['?' + t for t in toks])
    return lines


def load(u, f, path, delim, cplx, how):
    e = {'e': 'load', 'f': f, 'cplx': cplx, 'err': '', 'a': []}
    try:
        if how == 'pos':
            a = u.load_array_text(path, delim, cplx)
        elif delim is None and not cplx:
            a = u.load_array_text(path)
        else:
            a = u.load_array_text(path, is_complex=cplx, delimiter=delim)
        e['a'] = rows(a) if a.ndim == 2 else [[['ndim', str(a.ndim)]]]
        if np.iscomplexobj(a) != cplx:
            e['a'] = [[['dtype', str(a.dtype)]]]
    except Exception as ex:
        e['err'] = type(ex).__name__
    return e


def one(case):
    M = S.load(1)[0]
    u, v = M['modred.util'], M['modred.vectors']
    d = tempfile.mkdtemp(dir='.')
    ev = []
    try:
        path = os.path.join(d, case['name'])
        what = case['what']
        if what == 'hand':
            dl = case['delim'] or ' '
            with open(path, 'w') as f:
                for ln in case['lines']:
                    f.write(dl.join((case['fmt'] if dl != ' ' else case['fmt'].strip()) % float.fromhex(x) for x in ln) + '\n')
            ev.append({'e': 'write', 'f': 'f', 'lines': [[name(float.fromhex(x)) for x in ln]
                                                         for ln in case['lines']]})
            for cx in case['asc']:
                ev.append(load(u, 'f', path, case['delim'], cx, case['how']))
            return {'ev': ev}
        a = build(case)
        if what == 'pickle':
            h = v.VecHandlePickle(path)
            was = [case['shape'], np.asarray(a).dtype.kind, [entry(x) for x in np.asarray(a).reshape(-1).tolist()]]
            ev.append({'e': 'hput', 'f': 'f', 'a': was})
            e = {'e': 'hget', 'f': 'f', 'err': '', 'a': []}
            try:
                h.put(a)
                b = (h if case['again'] else v.VecHandlePickle(path)).get()
                e['a'] = [list(np.asarray(b).shape), np.asarray(b).dtype.kind,
                          [entry(x) for x in np.asarray(b).reshape(-1).tolist()]]
            except Exception as ex:
                e['err'] = repr(ex)[:200]
            ev.append(e)
            return {'ev': ev}
        was = rows(a)
        e = {'e': 'save', 'f': 'f', 'ndim': len(case['shape']), 'cplx': case['cplx'], 'a': was, 'err': ''}
        ev.append(e)
        if what == 'texth':
            h = v.VecHandleArrayText(path, is_complex=case['cplx'])
            try:
                h.put(a)
            except Exception as ex:
                e['err'] = repr(ex)[:200]
                return {'ev': ev}
            ev.append({'e': 'file', 'f': 'f', 'lines': parse(path, None)})
            g = {'e': 'load', 'f': 'f', 'cplx': case['cplx'], 'err': '', 'a': []}
            try:
                b = (h if case['again'] else v.VecHandleArrayText(path, is_complex=case['cplx'])).get()
                g['a'] = rows(b)
            except Exception as ex:
                g['err'] = repr(ex)[:200]
            ev.append(g)
            return {'ev': ev}
        try:
            if case['delim'] is None:
                u.save_array_text(a, path)
            elif case['how'] == 'pos':
                u.save_array_text(a, path, case['delim'])
            else:
                u.save_array_text(a, path, delimiter=case['delim'])
        except Exception as ex:
            e['err'] = repr(ex)[:200]
        if e['err'] == '' and len(case['shape']) <= 2:
            ev.append({'e': 'file', 'f': 'f', 'lines': parse(path, case['delim'])})
            ev.append(load(u, 'f', path, case['delim'], case['cplx'], case['how']))
            if case['again']:
                ev.append(load(u, 'f', path, case['delim'], case['cplx'], 'kw'))
        ev.append({'e': 'given', 'was': was, 'a': rows(a)})
        return {'ev': ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(b):
    return [one(c) for c in b['batch']] if 'batch' in b else one(b)


def run(ck):
    cases = gen(ck)
    for c in cases:
        ck.count(c['what'] + (' complex' if c['cplx'] else ' real'))
    got = ck.observe(many, [{'batch': cases[i:i + 40]} for i in range(0, len(cases), 40)],
                     what='batches of saves and loads')
    flat = []
    for b, t in got:
        flat.extend(zip(b['batch'], t) if 'batch' in b else [(b, t)])
    ck.judge('TextTrace', flat)
