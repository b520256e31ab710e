"""Writes bsa/np_model.json: a static table of NumPy names (run once, by hand).

    /opt/venv/bin/python tools/gen_np_model.py
"""
import json
import os
import warnings

import numpy as np
import numpy.ma as ma

out = {'version': np.__version__, 'ufuncs': {}, 'alias': {}, 'ma': [], 'np': []}
byid = {}
for n in sorted(dir(np), key=lambda n: (len(n), n)):
    o = getattr(np, n)
    if isinstance(o, np.ufunc):
        out['ufuncs'][n] = [o.nin, o.nout, o.__name__]
    if callable(o) and not n.startswith('_'):
        out['np'].append(n)
for n in sorted(dir(ma)):
    if not n.startswith('_') and callable(getattr(ma, n)):
        out['ma'].append(n)
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bsa', 'np_model.json')
with open(path, 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)

# ---- result types ---------------------------------------------------------------------
CH = '?bBhHiIlLefdFD'
SC = {'0': 0, '1': 1, '2': 2, '-1': -1, '300': 300, '70000': 70000, '1.0': 1.0, '2.5': 2.5}
out['chars'] = CH


def canon(dt):
    c = np.dtype(dt).char
    return {'q': 'l', 'Q': 'L'}.get(c, c)


def attempt(f, *args):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = f(*args)
        except (TypeError, ValueError, AttributeError):
            return None
    return r


def char(r):
    if r is None or not hasattr(r, 'dtype'):
        return '!'
    c = canon(r.dtype)
    return c if c in CH else '!'


def arrays(c, kind):
    x = np.array([1, 1, 1], dtype=c)
    if kind == 'nd':
        return [x]
    return [ma.array(x), ma.array(x, mask=[0, 1, 0])]


def table(f, kind, nin):
    """unary and binary result types, for ndarrays or masked arrays."""
    un, bi, py = '', '', {}
    for c in CH:
        rs = {char(attempt(f, x)) for x in arrays(c, kind)} if nin == 1 else {'!'}
        un += rs.pop() if len(rs) == 1 else '!'
        for d in CH if nin == 2 else '':
            rs = {char(attempt(f, x, y)) for x in arrays(c, kind) for y in arrays(d, kind)}
            bi += rs.pop() if len(rs) == 1 else '!'
    for k, v in SC.items() if nin == 2 else ():
        py[k] = ''
        for c in CH:
            rs = {char(attempt(f, x, v)) for x in arrays(c, kind)}
            py[k] += rs.pop() if len(rs) == 1 else '!'
    t = {}
    if un.strip('!'):
        t['un'] = un
    if bi.strip('!'):
        t['bi'] = bi
        t['py'] = py
    return t


def kinds(f, n):
    """Kinds of the results for masked operands: arrays, rank 0 (plain, masked)."""
    def kind(r):
        return ('masked' if r is ma.masked else 'ma' if isinstance(r, ma.MaskedArray) else
                'nd' if isinstance(r, np.ndarray) else 'scalar' if isinstance(r, np.generic)
                else '?')
    for c in 'di?':
        x = ma.array(np.array([1, 1, 1], dtype=c), mask=[0, 1, 0])
        r = attempt(f, *[x] * n)
        if r is not None:
            break
    else:
        return None
    z = ma.array(np.array(1, dtype=c))
    m = ma.array(np.array(1, dtype=c), mask=True)
    ok = bool(isinstance(r, ma.MaskedArray) and ma.getmaskarray(r)[1])
    p, q = ma.array(np.ones(3, dtype=c)), ma.array(np.ones(3, dtype=c), mask=[1, 0, 0])
    if n == 2:
        for a, b in ((x, q), (p, q), (q, p)):
            s = attempt(f, a, b)
            ok = ok and bool(isinstance(s, ma.MaskedArray) and
                             ma.getmaskarray(s)[0] and
                             (a is not x or ma.getmaskarray(s)[1]))
    return [kind(r), ok, kind(attempt(f, *[z] * n)), kind(attempt(f, *[m] * n)),
            kind(attempt(f, *[np.array(1, dtype=c)] * n))]


out['types'] = {}
names = sorted(out['ufuncs']) + ['iscomplex', 'isreal', 'isneginf', 'isposinf', 'iscomplexobj',
                                 'around', 'real', 'imag', 'angle', 'fix', 'sinc', 'clip']
for mod, pre in ((np, 'numpy.'), (ma, 'numpy.ma.')):
    for n in names:
        f = getattr(mod, n, None)
        if f is None or n in ('clip',):
            continue
        e = {}
        nin = getattr(getattr(np, n), 'nin', 1)
        for kind in ('nd', 'ma'):
            t = table(f, kind, nin)
            if t:
                e[kind] = t
        if not e:
            continue
        for k in (nin,):
            r = kinds(f, k)
            if r is not None:
                e['kinds%d' % k] = r
        out['types'][pre + n] = e
out['reduce'] = {}
for n in ('sum', 'min', 'max', 'prod', 'mean', 'std', 'var', 'all', 'any', 'ptp', 'cumsum'):
    f = getattr(np, n)
    out['reduce'][n] = {}
    for kind in ('nd', 'ma'):
        s = ''
        for c in CH:
            x = np.ones((2, 3), dtype=c)
            xs = [x] if kind == 'nd' else [ma.array(x), ma.array(x, mask=np.eye(2, 3))]
            rs = {char(attempt(lambda y: f(y, axis=0), x)) for x in xs}
            s += rs.pop() if len(rs) == 1 else '!'
        out['reduce'][n][kind] = s
with open(path, 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
