"""Arrays to 39 binary places, for FineTrace.tla.

What a run returns is noted next to the fixed-point record which decides what it is; FineTrace
decides that the digits beyond those are right as well.  Anything which cannot be written down
(not finite, too large) is left to the other specification."""
import numpy as np

B = 8192
_notes = []
LIMIT = 1000.


class Cannot(Exception):
    pass


def num(x):
    out = []
    for _ in range(4):
        k = int(np.floor(x + .5))
        out.append(k)
        x = (x - k) * B
    return out


def enc(a):
    a = np.asarray(a)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if a.ndim != 2 or a.dtype == object or 0 in a.shape or max(a.shape) > 16 or not np.all(np.isfinite(a)) or \
            np.abs(a).max() > LIMIT:
        raise Cannot()
    if np.iscomplexobj(a) and np.any(a.imag):
        return {'r': False, 'm': [[[num(z.real), num(z.imag)] for z in r] for r in a.tolist()]}
    return {'r': True, 'm': [[num(x) for x in r] for r in a.real.tolist()]}


def note(kind, has=(), **arrays):
    """Called where the results are at hand; never fails."""
    try:
        m = {k: [enc(x) for x in v] if k in ('M', 'N') else enc(v) for k, v in arrays.items()}
    except (Cannot, ValueError, TypeError, OverflowError):
        return
    _notes.append({'e': 'fine', 'kind': kind, 'has': list(has), 'm': m})


def taken(rec):
    """The record, with what was noted since the last one."""
    if _notes:
        rec['fine'] = _notes[:6]
    del _notes[:]
    return rec


def root(d, idx=None):
    """Columns of diag(d)^(-1/2)."""
    g = np.diag(np.asarray(d, dtype=float) ** -.5)
    return g if idx is None else g[:, list(idx)]


def graded(case):
    return 'graded' in (case.get('what'), case.get('fn')) or case.get('e') == 'steep'


def judge(ck, traces, n):
    """Takes the notes out of the records, and has those of some cases judged."""
    some = []
    for case, rec in traces:
        f = rec.pop('fine', None) if isinstance(rec, dict) else None
        if f:
            some.append((case, {'ev': f}))
    must = [x for x in some if graded(x[0])]
    rest = [x for x in some if not graded(x[0])]
    some = must + (ck.rng.sample(rest, n) if len(rest) > n else rest)
    for case, rec in some:
        for e in rec['ev']:
            ck.count('to nine digits: ' + e['kind'])
    ck.judge('FineTrace', some)
