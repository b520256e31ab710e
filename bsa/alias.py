"""What an in-place write can reach: the objects a term may share its memory with."""
from .terms import *      # noqa
from .interp import Lst, Dct, Inst

# functions whose result may be, or share the memory of, their first argument
VIEWS = {'numpy.' + n for n in (
    'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require', 'rollaxis',
    'moveaxis', 'swapaxes', 'transpose', 'reshape', 'ravel', 'squeeze', 'broadcast_to',
    'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'real', 'imag', 'diagonal',
    'split', 'array_split', 'flip', 'fliplr', 'flipud', 'rot90', 'nan_to_num')} | {
        'numpy.ma.' + n for n in (
            'asarray', 'asanyarray', 'array', 'masked_array', 'MaskedArray', 'getdata',
            'getmask', 'getmaskarray', 'transpose', 'reshape', 'ravel', 'squeeze', 'swapaxes',
            'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'getmaskarray', 'diagonal',
            'core.MaskedArray', 'fix_invalid')} | {
        'numpy.lib.stride_tricks.as_strided', 'numpy.lib.stride_tricks.broadcast_to',
        'numpy.broadcast_arrays', 'builtins.memoryview', 'numpy.frombuffer'}
# ... unless they are told otherwise
COPIES = {'numpy.nan_to_num': True, 'numpy.ma.fix_invalid': True, 'numpy.array': True,
          'numpy.ma.masked_where': True, 'numpy.ma.masked_equal': True,
          'numpy.ma.masked_values': True, 'numpy.ma.masked_invalid': True,
          'numpy.ma.masked_object': True, 'numpy.ma.masked_inside': True,
          'numpy.ma.masked_outside': True, 'numpy.ma.masked_greater': True,
          'numpy.ma.masked_less': True, 'numpy.ma.masked_not_equal': True,
          'numpy.ma.masked_greater_equal': True, 'numpy.ma.masked_less_equal': True,
          'numpy.ma.array': False, 'numpy.ma.masked_array': False,
          'numpy.ma.MaskedArray': False, 'numpy.ma.core.MaskedArray': False}
# ... and these give the object itself, not a new one with the same memory
SAME = {'numpy.asarray', 'numpy.asanyarray', 'numpy.require', 'numpy.ma.asarray',
        'numpy.ma.asanyarray', 'numpy.ascontiguousarray'}
VIEW_METHODS = {'view', 'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze', 'diagonal',
                '__getitem__', 'getfield', '__array__', 'filled', 'unshare_mask', '__iter__'}
VIEW_ATTRS = {'T', 'flat', 'data', 'mask', 'real', 'imag', 'base', '_data', '_mask', 'baseclass'}
DATA_ATTRS = {'mask', 'data', '_data', '_mask', 'flat', 'real', 'imag', 'T'}
CHANGED = ('store', 'mutated', 'filled', 'withattr', 'delat')


def kwof(t):
    return dict(t.a[2]) if len(t.a) > 2 else {}


def isfalse(x):
    return x is not None and x.op == 'const' and x.a[0] in (False, None, 0)


def basic(I, k, st):
    """True: a view; False: a copy; None: not known."""
    if k.op == 'phi':
        a, b = basic(I, k.a[1], st), basic(I, k.a[2], st)
        return a if a == b else None
    if k.op in ('tuple', 'cat'):
        rs = [basic(I, x, st) for x in k.a]
        if False in rs:
            return False
        return None if None in rs else True
    if k.op in ('slice', 'const', 'keys'):
        return True
    if k.op in ('list', 'listseq'):
        return False
    kd = I.kind(k, st)
    if kd in ('int', 'slice', 'none', 'ellipsis', 'npscalar'):
        return True
    if kd in ('nd', 'ma', 'ndint', 'ndbool', 'list', 'anynd', 'bool'):
        return False
    if k.op == 'ref':
        return False if isinstance(st.heap.get(k.a[0]), Lst) else None
    return None


def step(I, t, st):
    """(the terms that t is, or is a view of; whether it is the same object; certain?),
    or None if t is a new object."""
    op = t.op
    if op == 'phi':
        return [t.a[1], t.a[2]], True, True
    if op == 'sub':
        o, k = t.a[0], t.a[1]
        if o.op == 'attr' and o.a[1] in ('shape', 'strides'):
            return None
        b = basic(I, k, st)
        if b is False:
            return None
        return [o], False, b is True
    if op == 'attr':
        if t.a[1] in VIEW_ATTRS:
            return [t.a[0]], False, True
        return None
    if op == 'call' and t.a[0].op == 'ext' and t.a[1]:
        n, kw = t.a[0].a[0], kwof(t)
        if n in COPIES:
            c = kw.get('copy')
            if (COPIES[n] and (c is None or not isfalse(c))) or \
                    (not COPIES[n] and c is not None and not isfalse(c)):
                return None
            return [t.a[1][0]] + ([kw['mask']] if 'mask' in kw else []), False, True
        if n in VIEWS:
            return [t.a[1][0]], n in SAME, True
        return None
    if op == 'call' and t.a[0].op in ('bmx', 'bm') and isinstance(t.a[0].a[0], T):
        n, o, kw = t.a[0].a[1], t.a[0].a[0], kwof(t)
        if n in VIEW_METHODS:
            return [o], n in ('filled', '__array__', 'unshare_mask'), n != 'filled'
        if n == 'astype' and isfalse(kw.get('copy')):
            return [o], True, True
        return None
    if op in ('elem', 'at') and isinstance(t.a[0], T):
        return [t.a[0]], False, False
    return None


def origins(I, t, st, protected, depth=0):
    """(the protected things an in-place write to t can change, whether there may be others);
    each is (text, same object?, certain?)."""
    out, unknown = [], [False]
    seen = set()

    def go(t, same, sure, depth):
        if id(t) in seen:
            return
        seen.add(id(t))
        if depth > 60:
            unknown[0] = True
            return
        p = protected(t)
        if p:
            out.append((p, same, sure))
            return
        if t.op in CHANGED or (t.op == 'bin' and str(t.a[0]).endswith('=')
                               and t.a[0] not in ('==', '!=', '<=', '>=')):
            o = t.a[0] if t.op in CHANGED else t.a[1]
            return go(o, same, sure, depth + 1)
        if t.op == 'mu':
            for x in t.a:
                if isinstance(x, T):
                    go(x, same, sure, depth + 1)
            return
        r = step(I, t, st)
        if r is None:
            if t.op in ('sym', 'unk', 'rec', 'at', 'elem', 'dictget', 'undef', 'while', 'opt'):
                unknown[0] = True
            return
        for x in r[0]:
            go(x, same and r[1], sure and r[2], depth + 1)
    go(t, True, True, 0)
    return out, unknown[0]


def bases(I, t, st):
    """The new objects whose memory t shares (the Python objects which stand for them)."""
    out, seen = {}, set()

    def go(t, depth):
        if id(t) in seen or depth > 60:
            return
        seen.add(id(t))
        if t.op in CHANGED or t.op == 'mu':
            out[id(t)] = t
            return
        r = step(I, t, st)
        if r is None:
            if t.op in ('call', 'bin', 'neg', 'conv', 'sub', 'sym'):
                out[id(t)] = t
            return
        if not r[1]:
            out[id(t)] = t
        for x in r[0]:
            go(x, depth + 1)
    go(t, 0)
    return out
