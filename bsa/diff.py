"""Comparison of two value terms: equal, definitely different, or not understood."""
from .terms import *      # noqa
from .norm import core

# What changes some of its operands.
CHANGES = {'numpy.ma.' + x for x in (
    'masked_equal', 'masked_not_equal', 'masked_less', 'masked_greater', 'masked_where',
    'masked_less_equal', 'masked_greater_equal', 'masked_values', 'masked_object')} | \
    {m + x for m in ('numpy.', 'numpy.ma.') for x in (
        'negative', 'absolute', 'sign', 'exp', 'exp2', 'log', 'log2', 'log10', 'expm1', 'sqrt',
        'square', 'reciprocal', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh',
        'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'deg2rad', 'rad2deg', 'invert',
        'logical_not', 'floor', 'ceil', 'trunc', 'rint')}
SIMPLE = ('const', 'sym', 'cls', 'ext', 'func')


def trimmed(k):
    """Index keys without trailing full slices, Ellipsis expanded away when last."""
    its = list(k.a) if k.op in ('tuple',) else [k]
    if any(x.op == 'const' and x.a[0] is Ellipsis for x in its[:-1]):
        return None
    while its and (isfull(its[-1]) or
                   (its[-1].op == 'const' and its[-1].a[0] is Ellipsis)):
        its.pop()
    return its


def isfull(k):
    return k.op == 'slice' and all(x.op == 'const' and x.a[0] is None for x in k.a[:2]) and \
        k.a[2].op == 'const' and k.a[2].a[0] in (None, 1)


def seqitems(t):
    if t.op in ('tuple', 'list', 'ndlist'):
        return list(t.a)
    return None


def keydiff(a, b):
    if a.sid == b.sid:
        return True, ''
    if isfull(a) and isfull(b):
        return True, ''
    if a.op == 'slice' and b.op == 'slice':
        rs = [keydiff(x, y)[0] for x, y in zip(a.a, b.a)]
        if all(r is True for r in rs):
            return True, ''
        return (False if any(r is False for r in rs) else None), 'key %s, not %s' % (a, b)
    if seqitems(a) is not None and seqitems(b) is not None:
        x, y = seqitems(a), seqitems(b)
        if len(x) == len(y) and all(p.sid == q.sid for p, q in zip(x, y)):
            return True, ''
        if all(p.op in SIMPLE for p in x + y):
            return False, 'key %s, not %s' % (a, b)
        return None, 'key %s, not %s' % (a, b)
    plain = lambda t: t.op in SIMPLE or isfull(t)
    if plain(a) and plain(b):
        return False, 'key %s, not %s' % (a, b)
    return None, 'key %s, not %s' % (a, b)


def diff(a, b, I, st):
    """(True | False | None, message): a found, b expected."""
    if a.sid == b.sid:
        return True, ''
    if a.op == 'phi':
        a2 = core(a, I, st)
        if a2.sid != a.sid:
            return diff(a2, b, I, st)
    if a.op == 'conv' and b.op == 'conv':
        if a.a[0] != b.a[0]:
            return False, 'converts %s instead of %s' % (a.a[0], b.a[0])
        return diff(a.a[1], b.a[1], I, st)
    if a.op == 'sub' and b.op == 'sub':
        ka, kb = trimmed(a.a[1]), trimmed(b.a[1])
        r, m = diff(a.a[0], b.a[0], I, st)
        if r is not True:
            return r, m
        if ka is None or kb is None:
            return None, 'keys %s' % a.a[1]
        if len(ka) != len(kb):
            return False, 'keys %s, not %s' % (a.a[1], b.a[1])
        worst, msg = True, ''
        for x, y in zip(ka, kb):
            r, m = keydiff(x, y)
            if r is False:
                return r, m
            if r is None:
                worst, msg = None, m
        return worst, msg
    if a.op == 'call' and b.op == 'call':
        fa, fb = a.a[0], b.a[0]
        if fa.op == 'ext' and fb.op == 'ext' and fa.a[0] != fb.a[0]:
            from .norm import WRAP
            if fa.a[0] in WRAP or fb.a[0] in WRAP:
                ca, cb = core(a, I, st), core(b, I, st)
                if ca.sid != a.sid or cb.sid != b.sid:
                    return diff(ca, cb, I, st)
            return (False if fa.a[0].startswith('numpy.') and fb.a[0].startswith('numpy.')
                    else None), 'applies %s instead of %s' % (fa.a[0], fb.a[0])
        if fa.op == fb.op == 'bmx' and fa.a[1] == fb.a[1]:
            r, m = diff(fa.a[0], fb.a[0], I, st)
            if r is not True:
                return r, m
        elif not (fa.op == fb.op == 'ext'):
            return None, '%s instead of %s' % (a, b)
        x, y = list(a.a[1]), list(b.a[1])
        kx, ky = dict(a.a[2]), dict(b.a[2])
        if len(x) != len(y) or set(kx) != set(ky):
            return None, 'arguments %s instead of %s' % (a, b)
        worst, msg = True, ''
        for p, q in list(zip(x, y)) + [(kx[k], ky[k]) for k in kx]:
            r, m = diff(p, q, I, st)
            if r is False:
                return r, m
            if r is None:
                worst, msg = r, m
        return worst, msg
    ca, cb = core(a, I, st), core(b, I, st)
    if (ca.sid, cb.sid) != (a.sid, b.sid):
        if ca.sid == cb.sid:
            if a.op == 'call' and b.op != 'call' or a.op != 'call' and b.op == 'call':
                return None, '%s instead of %s' % (a, b)
        return (None, '') if diff(ca, cb, I, st)[0] is not False else diff(ca, cb, I, st)
    if a.op in SIMPLE and b.op in SIMPLE:
        return False, '%s instead of %s' % (a, b)
    if a.op == 'sym' and b.op == 'sub' and b.a[0].sid == a.sid:
        return False, 'the key is not applied to %s' % a
    if a.op == 'attr' and b.op == 'attr' and a.a[1] == b.a[1]:
        return diff(a.a[0], b.a[0], I, st)
    for x, y in ((ca, cb), (cb, ca)):
        if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in CHANGES and y.a[1] and \
                x.op in ('conv', 'sub', 'sym') and core(y.a[1][0], I, st).sid == x.sid:
            return False, '%s instead of %s' % (str(a)[:100], str(b)[:100])
    return None, '%s instead of %s' % (str(a)[:100], str(b)[:100])
