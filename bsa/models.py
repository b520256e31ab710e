"""What the analysis knows about Python builtins, NumPy and the other libraries."""
import json
import os

from .terms import *      # noqa
from .interp import (Lst, Dct, Inst, ClassInfo, Dead, EXC_BASES, exc_isa)

with open(os.path.join(os.path.dirname(__file__), 'np_model.json')) as _fh:
    NP = json.load(_fh)

_BUILTINS = set('''range zip map filter len isinstance hasattr getattr setattr type super
globals locals list tuple dict set frozenset int float bool str complex object slice abs all any
min max sum sorted enumerate reversed id iter next repr hash callable print format property
staticmethod classmethod issubclass vars dir divmod pow round bytes input open ord chr
memoryview bytearray'''.split())

CANON = {
    'collections.abc.Iterable': 'collections.Iterable',
    'collections.abc.Iterator': 'collections.Iterator',
    'collections.abc.Sized': 'collections.Sized',
    'collections.abc.Mapping': 'collections.Mapping',
    'collections.abc.Sequence': 'collections.Sequence',
    'six.string_types': 'builtins.str', 'six.text_type': 'builtins.str',
    'itertools.izip_longest': 'itertools.zip_longest',
    'six.moves.zip_longest': 'itertools.zip_longest',
    'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max', 'numpy.product': 'numpy.prod',
    'numpy.bool': 'builtins.bool', 'numpy.int': 'builtins.int', 'numpy.float': 'builtins.float',
    'numpy.object': 'builtins.object', 'numpy.str': 'builtins.str',
    'numpy.ma.amin': 'numpy.ma.min', 'numpy.ma.amax': 'numpy.ma.max',
    'numpy.ma.masked_array': 'numpy.ma.MaskedArray', 'numpy.ma.core.MaskedArray':
    'numpy.ma.MaskedArray', 'numpy.round_': 'numpy.around', 'numpy.alltrue': 'numpy.all',
    'numpy.sometrue': 'numpy.any', 'numpy.row_stack': 'numpy.vstack',
    'queue.Queue': 'queue.Queue', 'numpy.ma.isMA': 'numpy.ma.isMaskedArray',
    'numpy.ma.isarray': 'numpy.ma.isMaskedArray', 'numpy.ma.product': 'numpy.ma.prod',
    'six.moves.queue': 'queue', 'six.moves.builtins': 'builtins', 'numpy.ma.abs':
    'numpy.ma.absolute', 'numpy.ma.core': 'numpy.ma',
}

LISTM = set('append extend insert pop index count remove reverse sort copy clear __getitem__ '
            '__len__ __contains__ __setitem__ __iter__'.split())
DICTM = set('get items values keys copy update setdefault pop clear itervalues iteritems '
            '__getitem__ __contains__ popitem'.split())
NDM = set('''astype filled transpose flatten copy reshape ravel view sum min max mean std var
all any fill take squeeze tolist item count compressed __getitem__ __setitem__ cumsum put sort
setflags swapaxes repeat nonzero round prod argmin argmax dot clip harden_mask soften_mask
unshare_mask get_fill_value set_fill_value resize searchsorted tobytes tostring __array__
__iadd__ __isub__ __imul__ partition byteswap'''.split())
ARRAYM = set('''ndarray masked_array transpose astype streams_handler _getitem_full_keys
__getitem__ __array__ _normalise_keys'''.split())
STRM = set('format join lower upper split strip startswith endswith replace'.split())

# numpy functions that write to an argument (position, name)
NP_WRITES = {'numpy.copyto': (0, 'dst'), 'numpy.put': (0, 'a'), 'numpy.place': (0, 'arr'),
             'numpy.putmask': (0, 'a'), 'numpy.fill_diagonal': (0, 'a'),
             'numpy.ma.put': (0, 'a'), 'numpy.ma.putmask': (0, 'a'),
             'numpy.random.shuffle': (0, 'x'), 'numpy.put_along_axis': (0, 'arr')}
M_WRITES = {'fill', 'put', 'sort', 'resize', 'setflags', '__setitem__', 'itemset',
            '__iadd__', '__isub__', '__imul__', 'partition', 'set_fill_value', 'harden_mask',
            'soften_mask'}

METADATA = {'numpy.ndim', 'numpy.shape', 'numpy.isscalar', 'numpy.issubdtype',
            'numpy.dtype', 'numpy.ma.isMaskedArray', 'numpy.result_type', 'numpy.iterable',
            'numpy.can_cast', 'numpy.promote_types', 'numpy.find_common_type',
            'numpy.isfortran'}


def ext(n):
    n = CANON.get(n, n)
    if n.startswith('numpy.') and n.count('.') == 1:
        u = NP['ufuncs'].get(n[6:])
        if u is not None:
            n = 'numpy.' + u[2]
    return T('ext', n)


def builtin(name):
    if name == 'Ellipsis':
        return ELLIPSIS
    if name in _BUILTINS or name in EXC_BASES or name in ('BaseException', 'NotImplemented'):
        return ext('builtins.' + name)
    return None


def import_ext(mod, name):
    if mod == 'six.moves':
        if name in _BUILTINS:
            return ext('builtins.' + name)
        return ext('six.moves.' + name)
    return ext(mod + '.' + name)


def nin_nout(v):
    n = v.a[0]
    if v.op == 'ext' and n.startswith('numpy.') and n.count('.') == 1:
        return NP['ufuncs'].get(n[6:])
    return None


def ext_attr(I, v, name, st):
    n = v.a[0]
    u = nin_nout(v)
    if u is not None:
        if name == 'nin':
            return const(u[0])
        if name == 'nout':
            return const(u[1])
        if name == '__name__':
            return const(u[2])
        if name == 'nargs':
            return const(u[0] + u[1])
        if name in ('outer', 'reduce', 'accumulate', 'at', 'reduceat'):
            return T('ext', n + '.' + name)
    if name in ('__name__', '__doc__', '__module__', '__qualname__'):
        if name == '__name__':
            return const(n.split('.')[-1])
        return T('str', v, info={'kind': 'str'})
    if n == 'numpy' and name == 'newaxis':
        return NONE
    if n == 'numpy.ma' and name == 'core':
        return v
    if n == 'six' and name == 'moves':
        return T('ext', 'six.moves')
    if n == 'six.moves' and name in _BUILTINS:
        return ext('builtins.' + name)
    return ext(n + '.' + name)


# ------------------------------------------------------------------- sequences
def argterm(I, x, st, depth=0):
    """A structural term for an argument."""
    if x.op == 'ref' and depth < 6:
        r = st.heap.get(x.a[0])
        if isinstance(r, Lst):
            if r.items is not None:
                return T('ndlist' if r.nd else 'list',
                         *[argterm(I, y, st, depth + 1) for y in r.items])
            return T('ndlistseq' if r.nd else 'listseq', I.seqterm_rec(r))
        if isinstance(r, Dct) and r.base is None:
            return T('dict', *[T('tuple', k, argterm(I, v, st, depth + 1))
                               for k, v in r.items])
        return x
    if x.op == 'tuple':
        return T('tuple', *[argterm(I, y, st, depth + 1) for y in x.a])
    return x


def opaque(I, f, args, kw, st, node, throws=True, event=True):
    if throws:
        for i in range(len(I.maythrow)):
            I.maythrow[i] += 1
    a = tuple(argterm(I, x, st) for x in args)
    k = tuple((n, argterm(I, v, st)) for n, v in sorted(kw.items()))
    t = T('call', f, a, k)
    if event:
        I.ev('call', st, node, f=f, args=tuple(args), kw=dict(kw), val=t)
    return t


def slice_len(I, sl, n, st):
    if sl.op != 'slice':
        return T('len', T('call', ext('builtins.range'), tuple(indices(I, sl, n, st)), ()),
                 info={'kind': 'int', 'lo': 0})
    if all(is_const(x) and cval(x) is None for x in sl.a[:2]) and \
            is_const(sl.a[2]) and cval(sl.a[2]) in (None, 1):
        return n
    if n.op == 'const' and all(is_const(x) for x in sl.a):
        return const(len(range(*slice(*[x.a[0] for x in sl.a]).indices(n.a[0]))))
    return T('len', T('call', ext('builtins.range'), tuple(indices(I, sl, n, st)), ()))


def indices(I, sl, n, st):
    if sl.op != 'slice':
        return [T('sliceidx', sl, n, i, info={'kind': 'int'}) for i in range(3)]
    if all(is_const(x) and cval(x) is None for x in sl.a[:2]) and \
            is_const(sl.a[2]) and cval(sl.a[2]) in (None, 1):
        return [ZERO, n, ONE]
    if n.op == 'const' and all(is_const(x) for x in sl.a):
        return [const(v) for v in slice(*[x.a[0] for x in sl.a]).indices(n.a[0])]
    return [T('sliceidx', sl, n, i, info={'kind': 'int'}) for i in range(3)]


def isscalar_key(I, k, st):
    return I.kind(k, st) in ('int', 'bool')


def expand_keys(I, keys, ndim, st):
    """Keys (a term) as a full list for an array of known rank, or None."""
    its = list(keys.a) if keys.op == 'tuple' else [keys]
    real = [k for k in its if not (k.op == 'const' and k.a[0] in (None,) and
                                   k.a[0] is None)]
    n = len([k for k in real if not (k.op == 'const' and k.a[0] is Ellipsis)])
    out, seen = [], False
    full = T('slice', NONE, NONE, NONE)
    for k in its:
        if k.op == 'const' and k.a[0] is Ellipsis:
            out += [full] * (0 if seen else max(0, ndim - n))
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [full] * max(0, ndim - n)
    return out


def count_true(I, m):
    tr = I.info(m).get('truth')
    return T('count', m, info={'kind': 'int', 'lo': 0}) if tr is None else const(sum(tr))


def sliced_dims(I, shape, keys, st):
    """[(size term, source axis or None)] of shape[keys] or None."""
    full = expand_keys(I, keys, len(shape), st)
    out, ax = [], 0
    for k in full:
        if k.op == 'const' and k.a[0] is None:
            out.append((ONE, None))
            continue
        if ax >= len(shape):
            return None
        kk = I.kind(k, st)
        if kk in ('int', 'bool'):
            pass
        elif k.op == 'slice' or kk == 'slice':
            out.append((slice_len(I, k, shape[ax], st), ax))
        elif kk in ('tuple', 'list') or k.op in ('list', 'listseq', 'ndlist'):
            n = len(k.a) if k.op in ('list', 'ndlist', 'tuple') else None
            out.append((const(n) if n is not None else I.length(k, st), ax))
        elif kk in ('ndint', 'ndbool', 'objarray', 'nd'):
            at = I.info(k).get('attrs', {})
            out.append((count_true(I, k) if kk == 'ndbool' else
                        at['size'] if 'size' in at else T('len', k), ax))
        else:
            return None
        ax += 1
    return out


def shape_of(I, v, st, depth=0):
    """A tuple of T or None."""
    if depth > 20:
        return None
    i = I.info(v)
    at = i.get('attrs', {})
    if 'shape' in at:
        s = at['shape']
        it = I.items(s, st)
        return tuple(it) if it is not None else None
    if v.op == 'conv':
        return shape_of(I, v.a[1], st, depth + 1)
    if v.op == 'ref' and isinstance(st.heap.get(v.a[0]), Inst) and \
            I.isarraycls(st.heap[v.a[0]].cls):
        try:
            s = I.getattr(v, 'shape', st)
        except Dead:
            return None
        it = I.items(s, st)
        return tuple(it) if it is not None else None
    if v.op == 'sub':
        if v.a[0].op == 'tuple' and I.kind(v.a[1], st) == 'int':
            ss = [shape_of(I, x, st, depth + 1) for x in v.a[0].a]
            if ss and None not in ss and len({len(s) for s in ss}) == 1:
                return tuple(T('sub', T('tuple', *d), v.a[1], info={'kind': 'int', 'lo': 0})
                             if len({x.sid for x in d}) > 1 else d[0] for d in zip(*ss))
            return None
        b = shape_of(I, v.a[0], st, depth + 1)
        if b is not None:
            d = sliced_dims(I, b, v.a[1], st)
            if d is not None:
                return tuple(x for x, _ in d)
        return None
    if v.op == 'store':
        return shape_of(I, v.a[0], st, depth + 1)
    if v.op == 'withattr':
        if v.a[1] == 'shape':
            it = I.items(v.a[2], st)
            return tuple(it) if it is not None else None
        return shape_of(I, v.a[0], st, depth + 1)
    if v.op == 'phi':
        a, b = shape_of(I, v.a[1], st, depth + 1), shape_of(I, v.a[2], st, depth + 1)
        if a is not None and b is not None and len(a) == len(b):
            return tuple(mk_phi(v.a[0], x, y) for x, y in zip(a, b))
        return None
    if v.op == 'call':
        f, args, kw = v.a
        if f.op == 'bmx' and f.a[1] in ('astype', 'copy', 'filled', 'view'):
            return shape_of(I, f.a[0], st, depth + 1)
        if f.op == 'ext':
            n = f.a[0]
            if n in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.ma.empty',
                     'numpy.ma.zeros', 'numpy.ma.ones', 'numpy.full') and args:
                it = I.items(args[0], st)
                if it is None and args[0].op in ('list', 'ndlist'):
                    it = list(args[0].a)
                if it is None and I.kind(args[0], st) == 'int':
                    it = [args[0]]
                return tuple(it) if it is not None else None
            if n in ('numpy.array', 'numpy.asarray', 'numpy.ma.array', 'numpy.ma.asarray',
                     'numpy.ma.MaskedArray', 'numpy.zeros_like', 'numpy.ones_like',
                     'numpy.empty_like', 'numpy.sqrt', 'numpy.ma.sqrt',
                     'numpy.ma.getmaskarray') and args:
                if args[0].op in ('list', 'ndlist'):
                    return (const(len(args[0].a)),)
                return shape_of(I, args[0], st, depth + 1)
            if n in ('numpy.sum', 'numpy.min', 'numpy.max', 'numpy.all', 'numpy.any',
                     'numpy.ma.count', 'numpy.ma.count_masked', 'numpy.mean',
                     'numpy.std', 'numpy.var', 'numpy.ma.sum', 'numpy.ma.min',
                     'numpy.ma.max'):
                ax = dict(kw).get('axis', args[1] if len(args) > 1 else None)
                s = shape_of(I, args[0], st, depth + 1) if args else None
                if s is not None and ax is not None and ax.op == 'const' and \
                        isinstance(ax.a[0], int) and ax.a[0] < len(s):
                    s = list(s)
                    if 'keepdims' in dict(kw):
                        s[ax.a[0]] = ONE
                    else:
                        del s[ax.a[0]]
                    return tuple(s)
    return None


# ------------------------------------------------------------------- attributes
def value_attr(I, v, name, st, node):
    i = I.info(v)
    at = i.get('attrs', {})
    if name in at:
        return at[name]
    k = I.kind(v, st)
    if name == '__class__':
        return call_type(I, v, st)
    if k == 'array' or k in ('nd', 'ma', 'anynd', 'concrete', 'ndint', 'ndbool'):
        if name == 'shape':
            s = shape_of(I, v, st)
            if s is not None:
                return T('tuple', *s)
            return T('attr', v, 'shape', info={'kind': 'shape'})
        if name == 'ndim':
            if i.get('ndim') is not None:
                return const(i['ndim'])
            s = shape_of(I, v, st)
            if s is not None:
                return const(len(s))
            return T('attr', v, 'ndim', info={'kind': 'int', 'lo': 0})
        if name == 'size':
            s = shape_of(I, v, st)
            if s is not None and len(s) == 1:
                return s[0]
            return T('attr', v, 'size', info={'kind': 'int', 'lo': 0})
    if k == 'array':
        if v.op == 'sub' and name in ('dtype', 'fill_value'):
            b = v.a[0]
            if b.op == 'tuple':
                vals = [I.getattr(x, name, st, node) for x in b.a]
                if len({x.sid for x in vals}) == 1:
                    return vals[0]
                return T('sub', T('tuple', *vals), v.a[1])
            return I.getattr(b, name, st, node)
        if name in ARRAYM:
            return T('bmx', v, name)
    if v.op == 'conv' and name == 'dtype':
        return I.getattr(v.a[1], 'dtype', st, node)
    if v.op == 'sub' and name == 'dtype' and k in ('nd', 'ma', 'anynd', 'concrete'):
        return I.getattr(v.a[0], 'dtype', st, node)
    if v.op == 'call' and name == 'dtype':
        f, args, kw = v.a
        d = dict(kw).get('dtype')
        if f.op == 'bmx' and f.a[1] == 'astype' and args:
            return as_dtype(I, args[0], st)
        if f.op == 'ext' and f.a[0] in ('numpy.zeros', 'numpy.empty', 'numpy.ones',
                                        'numpy.ma.empty', 'numpy.ma.zeros'):
            if d is None and len(args) > 1:
                d = args[1]
            if d is not None:
                return as_dtype(I, d, st)
        if f.op == 'ext' and f.a[0] in ('numpy.asarray', 'numpy.array', 'numpy.ma.asarray') \
                and (d is not None or len(args) > 1):
            d = d if d is not None else args[1]
            if not (d.op == 'const' and d.a[0] is None):
                return as_dtype(I, d, st)
    if k == 'concrete' and name in ('__getitem__', '__setitem__', '__array__', 'ndarray',
                                    'masked_array', 'transpose', 'astype', 'filled', 'copy'):
        return T('bmx', v, name)
    if k in ('nd', 'ma', 'anynd', 'ndint', 'ndbool') and name in NDM:
        return T('bmx', v, name)
    if k == 'str' and name in STRM:
        return T('bmx', v, name)
    if k in ('tuple', 'shape', 'intseq') and name in ('index', 'count', '__getitem__',
                                                      '__len__', '__contains__'):
        return T('bmx', v, name)
    if v.op == 'slice' and name == 'indices':
        return T('bmx', v, name)
    if k == 'engine':
        return T('bmx', v, name)
    if k == 'none':
        I.ev('noattr', st, node, obj=v, name=name)
        I.do_raise(T('exc', 'AttributeError', T('tuple', const(name))), st, node)
    if name == 'dtype':
        return T('attr', v, name, info={'kind': 'dtype'})
    if v.op in ('bm', 'func', 'bmx'):
        return T('attr', v, name)
    if k is None or k in ('iter',):
        if name in NDM or name in LISTM or name in DICTM or name in STRM or name in ARRAYM:
            return T('bmx', v, name)
    if v.op == 'set' or k == 'set':
        return T('bmx', v, name)
    return T('attr', v, name)


def as_dtype(I, d, st):
    if I.kind(d, st) == 'dtype':
        return d
    return T('call', ext('numpy.dtype'), (d,), (), info={'kind': 'dtype'})


# --------------------------------------------------------------------- getitem
def getitem(I, o, k, st, node=None):
    kd = I.kind(o, st)
    kt = I.keyterm(k, st)
    if kd == 'array':
        if o.op == 'sub' and o.a[0].op == 'tuple':
            pass
        t = T('sub', o, kt, info={'kind': 'array', 'plain': True}
              if I.info(o).get('plain') else None)
        I.ev('index', st, node, obj=o, key=k)
        for i in range(len(I.maythrow)):
            I.maythrow[i] += 1
        return t
    if kd == 'concrete':
        I.ev('read', st, node, obj=o, key=k)
        for i in range(len(I.maythrow)):
            I.maythrow[i] += 1
        return T('sub', o, kt)
    if k.op == 'phi' and o.op == 'tuple':
        return I.dist(k, st, lambda x, s: I.getitem(o, x, s, node))
    if o.op == 'call' and o.a[0].op == 'ext' and o.a[0].a[0] == 'builtins.range' and \
            k.op != 'slice' and I.kind(k, st) == 'int':
        for i in range(len(I.maythrow)):
            I.maythrow[i] += 1
        a = o.a[1]
        lo, step = (ZERO, ONE) if len(a) == 1 else (a[0], ONE) if len(a) == 2 else (a[0], a[2])
        if I.decide(mk_cmp('<=', ZERO, k), st) is True:
            n = T('len', o)
            if is_const(step) and step.a[0] == 1:
                return T('sub', o, k, info={'kind': 'int'})
        return T('sub', o, k, info={'kind': 'int'})
    if o.op == 'tuple' and I.kind(k, st) == 'int':
        ks = {I.kind(x, st) for x in o.a}
        if len(ks) == 1 and None not in ks:
            inf = {'kind': ks.pop()}
            if all('lo' in I.info(x) or is_num(x) for x in o.a):
                inf['lo'] = min(I.info(x)['lo'] if 'lo' in I.info(x) else x.a[0]
                                for x in o.a) if o.a else 0
            return T('sub', o, kt, info=inf)
    if kd == 'shape' and k.op != 'slice':
        return T('sub', o, kt, info={'kind': 'int', 'lo': 0})
    if o.op == 'map' and k.op == 'slice':
        return T('seqslice', o, k)
    for i in range(len(I.maythrow)):
        I.maythrow[i] += 1
    return T('sub', o, kt)


# ----------------------------------------------------------------------- types
PYKIND = {'builtins.int': {'int', 'bool'}, 'builtins.bool': {'bool'},
          'builtins.float': {'float'}, 'builtins.str': {'str'},
          'builtins.tuple': {'tuple', 'shape'}, 'builtins.list': {'list'},
          'builtins.dict': {'dict'}, 'builtins.slice': {'slice'},
          'builtins.complex': {'complex'}, 'builtins.set': {'set'},
          'numpy.ndarray': {'nd', 'ma', 'ndint', 'ndbool', 'objarray'},
          'numpy.ma.MaskedArray': {'ma'}, 'builtins.type(Ellipsis)': {'ellipsis'},
          'collections.Mapping': {'dict'},
          'numpy.integer': {'npint'}, 'numpy.generic': {'npint', 'npscalar'},
          'numpy.floating': {'npfloat'}, 'numpy.number': {'npint', 'npfloat', 'npscalar'},
          'numbers.Integral': {'int', 'bool', 'npint'},
          'numbers.Number': {'int', 'bool', 'float', 'complex', 'npint', 'npfloat'},
          'collections.Iterable': {'tuple', 'list', 'dict', 'str', 'nd', 'ma', 'ndint',
                                   'ndbool', 'objarray', 'shape', 'set', 'iter', 'intseq'},
          'collections.Iterator': {'iter'},
          'collections.Sized': {'tuple', 'list', 'dict', 'str', 'nd', 'ma', 'ndint', 'ndbool',
                                'objarray', 'shape', 'set', 'intseq'},
          'collections.Sequence': {'tuple', 'list', 'str', 'shape', 'intseq'},
          }
KNOWNK = {'int', 'bool', 'float', 'str', 'tuple', 'shape', 'list', 'dict', 'slice', 'set',
          'nd', 'ma', 'ndint', 'ndbool', 'objarray', 'ellipsis', 'none', 'array', 'concrete',
          'func', 'inst', 'dtype', 'iter', 'intseq', 'complex', 'engine'}


def isinst1(I, x, c, st):
    """True / False / None"""
    if x.op == 'nt' and c.op == 'cls':
        return any(k.key == c.a[0] for k in I.mro(I.classes[x.a[0]]))
    r = I.rec(x, st)
    if isinstance(r, Inst):
        if c.op == 'cls':
            return I.cls(c) in I.mro(r.cls)
        if c.op == 'ext':
            if c.a[0] == 'builtins.object':
                return True
            if I.extbase(r.cls):
                return None
            if c.a[0] == 'collections.Iterable':
                return I.find(r.cls, '__iter__')[0] is not None
            return False
    k = I.kind(x, st)
    inf = I.info(x)
    if c.op == 'cls':
        ci = I.cls(c)
        if k == 'array':
            if ci.name == 'Array':
                return True
            if 'isinst' in inf and ci.name in inf['isinst']:
                return inf['isinst'][ci.name]
            if I.isarraycls(ci):
                return False if inf.get('plain') else None
            return False
        if k == 'concrete' and 'isinst' in inf and ci.name in inf['isinst']:
            return inf['isinst'][ci.name]
        if k in KNOWNK or k == 'npscalar':
            return False
        return None
    if c.op == 'ext':
        n = c.a[0]
        if n == 'builtins.object':
            return True
        if x.op == 'ref' and x.a[0] in I.once:
            if n in ('collections.Iterable', 'collections.Iterator'):
                return True
            return False if n in PYKIND else None
        if n in ('numpy.ufunc',):
            if x.op == 'ext':
                return nin_nout(x) is not None
            if 'ufunc' in inf:
                return inf['ufunc']
            return False if k in KNOWNK else None
        if k == 'concrete':
            ii = inf.get('isinst', {})
            if n in ii:
                return ii[n]
            if n in ('builtins.str', 'builtins.slice', 'builtins.int', 'collections.Mapping'):
                return False
            return None
        if k == 'int' or k == 'bool':
            np_ = inf.get('np')
            if np_ is True:
                k2 = 'npint'
            else:
                k2 = k
            if n == 'numpy.integer' or n == 'builtins.int':
                if np_ is None and x.op != 'const' and n == 'numpy.integer':
                    return False
                if n in ('numpy.integer',) and np_:
                    return True
            if n in PYKIND:
                return k2 in PYKIND[n]
            return None
        if n in PYKIND:
            if k == 'array':
                return False
            if k == 'npscalar' and n in ('numpy.ndarray', 'numpy.ma.MaskedArray'):
                return False
            if k in KNOWNK:
                return k in PYKIND[n]
            if k in ('anynd',) and n in ('builtins.str', 'builtins.slice', 'builtins.dict',
                                         'builtins.tuple', 'builtins.list'):
                return False
        if n == 'numpy.dtype':
            return k == 'dtype' if k in KNOWNK else None
        return None
    return None


def isinstance_(I, x, c, st, node):
    x = I.refine(x, st)
    c = I.refine(c, st)
    if x.op == 'phi':
        return I.dist(x, st, lambda y, s: isinstance_(I, y, c, s, node))
    its = I.items(c, st)
    if its is not None:
        return mk_or([isinstance_(I, x, y, st, node) for y in its])
    r = isinst1(I, x, c, st)
    if r is not None:
        return const(r)
    t = T('isinst', x, c)
    d = I.decide(t, st)
    if d is None and not (c.op == 'ext' and c.a[0] == 'numpy.ma.MaskedArray'):
        I.nfuzz += 1
        I.nsoft += 1
    return const(d) if d is not None else t


def call_type(I, x, st):
    r = I.rec(x, st)
    if isinstance(r, Inst):
        return I.clsT(r.cls)
    if x.op == 'nt':
        return T('cls', x.a[0])
    if x.op == 'const':
        v = x.a[0]
        if v is Ellipsis:
            return T('ext', 'builtins.type(Ellipsis)')
        return ext('builtins.' + type(v).__name__)
    i = I.info(x)
    if 'pytype' in i:
        return ext(i['pytype'])
    k = I.kind(x, st)
    m = {'slice': 'builtins.slice', 'tuple': 'builtins.tuple', 'list': 'builtins.list',
         'dict': 'builtins.dict', 'str': 'builtins.str', 'float': 'builtins.float',
         'nd': 'numpy.ndarray', 'ma': 'numpy.ma.MaskedArray', 'none': 'builtins.NoneType',
         'shape': 'builtins.tuple', 'ndint': 'numpy.ndarray', 'ndbool': 'numpy.ndarray',
         'objarray': 'numpy.ndarray', 'npscalar': 'numpy.<a scalar type>'}
    if k in m:
        return ext(m[k])
    if k == 'array':
        return T('type', x)
    return T('type', x)


def hasattr_(I, x, n, st):
    x = I.refine(x, st)
    if n.op != 'const':
        return T('hasattr', x, n)
    name = n.a[0]
    r = I.rec(x, st)
    if isinstance(r, Inst):
        a, o = I.find(r.cls, name)
        if a is not None or name in r.fields:
            return TRUE
        if name in ('__class__', '__dict__', '__doc__'):
            return TRUE
        if I.find(r.cls, '__getattr__')[0] is not None or I.extbase(r.cls):
            return T('hasattr', x, n)
        return FALSE
    i = I.info(x)
    if name in i.get('has', {}):
        return const(i['has'][name])
    if name in i.get('attrs', {}):
        return TRUE
    k = I.kind(x, st)
    if k == 'array':
        if name in ('ndarray', 'masked_array', 'shape', 'dtype', 'ndim', 'fill_value',
                    'transpose', 'astype', '__getitem__', '__array__', 'nbytes',
                    '_getitem_full_keys'):
            return TRUE
        return T('hasattr', x, n)
    if k in ('nd', 'ma'):
        if name in ('shape', 'dtype', 'ndim', 'astype', 'transpose', '__getitem__', 'flat',
                    'size'):
            return TRUE
        if name in ('mask', 'filled', 'fill_value'):
            return const(k == 'ma')
        if name in ('ndarray', 'masked_array', 'streams_handler'):
            return FALSE
    if k == 'none' and not name.startswith('__'):
        return FALSE
    if k in ('int', 'tuple', 'list', 'str', 'float', 'bool') and name in (
            'shape', 'dtype', 'ndim', 'ndarray', 'masked_array', 'streams_handler', 'mask'):
        return FALSE
    d = I.decide(T('hasattr', x, n), st)
    return const(d) if d is not None else T('hasattr', x, n)


# ------------------------------------------------------------------------- ops
def listop(I, op, a, b, st, node):
    ra, rb = I.rec(a, st), I.rec(b, st)
    nda = isinstance(ra, Lst) and ra.nd
    ndb = isinstance(rb, Lst) and rb.nd
    if nda or ndb:
        ia = I.items(a, st) if isinstance(ra, Lst) else None
        ib = I.items(b, st) if isinstance(rb, Lst) or b.op == 'tuple' else None
        if not isinstance(ra, Lst):
            if ib is not None:
                return I.new_list(st, [I.binop(op, a, y, st, node) for y in ib], True)
        elif not isinstance(rb, Lst) and b.op != 'tuple':
            if ia is not None:
                return I.new_list(st, [I.binop(op, x, b, st, node) for x in ia], True)
        elif ia is not None and ib is not None and len(ia) == len(ib):
            return I.new_list(st, [I.binop(op, x, y, st, node) for x, y in zip(ia, ib)], True)
        return T('bin', op, argterm(I, a, st), argterm(I, b, st), info={'kind': 'nd'})
    if op == '*':
        l, n = (a, b) if isinstance(ra, Lst) else (b, a)
        it = I.items(l, st)
        if it is not None and n.op == 'const' and isinstance(n.a[0], int):
            return I.new_list(st, it * n.a[0])
        if it is not None and len(it) == 1:
            d = T('idx', 'rep', n, info={'kind': 'int', 'lo': 0})
            return I.new_seq(st, T('map', T('call', ext('builtins.range'), (n,), ()), d,
                                   it[0], TRUE))
        return I.new_seq(st, T('rep', I.seqterm(l, st), n))
    if op == '+':
        if isinstance(ra, Lst) and isinstance(rb, Lst):
            ia, ib = I.items(a, st), I.items(b, st)
            if ia is not None and ib is not None:
                return I.new_list(st, ia + ib)
            pa, pb = I.seqterm(a, st), I.seqterm(b, st)
            pa = pa.a if pa.op == 'cat' else (pa,)
            pb = pb.a if pb.op == 'cat' else (pb,)
            parts = [p for p in pa + pb if not (p.op == 'tuple' and not p.a)]
            return I.new_seq(st, parts[0] if len(parts) == 1 else T('cat', *parts))
        other, ot = (b, rb) if isinstance(ra, Lst) else (a, ra)
        if I.kind(other, st) in ('tuple',):
            I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
        if I.kind(other, st) in ('nd', 'ma', 'anynd', 'array'):
            return T('bin', op, argterm(I, a, st), argterm(I, b, st))
    return T('bin', op, argterm(I, a, st), argterm(I, b, st))


# ----------------------------------------------------------------------- calls
def callkind(I, t, st):
    f, args, kw = t.a[:3]
    if f.op == 'ext':
        n = f.a[0]
        if n.startswith('builtins.'):
            m = {'len': 'int', 'int': 'int', 'float': 'float', 'str': 'str', 'bool': 'bool',
                 'range': 'tuple', 'zip': 'tuple', 'map': 'tuple', 'repr': 'str',
                 'id': 'int', 'tuple': 'tuple', 'sorted': 'list', 'list': 'list',
                 'hash': 'int', 'slice': 'slice', 'format': 'str'}
            b = n[9:]
            if b in m:
                return m[b]
            if b in ('min', 'max', 'sum', 'abs'):
                ks = {I.kind(x, st) for x in args}
                if ks <= {'int', 'bool'}:
                    return 'int'
                if ks <= {'int', 'bool', 'float', 'num'}:
                    return 'num'
            return None
        if n.startswith('numpy.'):
            if n.startswith('numpy.ma.'):
                if n in ('numpy.ma.isMaskedArray', 'numpy.ma.is_masked'):
                    return 'bool'
                if n in ('numpy.ma.count', 'numpy.ma.count_masked'):
                    return 'anynd'
                if n in ('numpy.ma.getmaskarray', 'numpy.ma.getdata', 'numpy.ma.filled'):
                    return 'nd'
                if n in ('numpy.ma.getmask',):
                    return 'anynd'
                if n in ('numpy.ma.array', 'numpy.ma.MaskedArray', 'numpy.ma.asarray',
                         'numpy.ma.empty', 'numpy.ma.zeros', 'numpy.ma.ones',
                         'numpy.ma.concatenate'):
                    return 'ma'
                return 'anynd' if n in ('numpy.ma.min', 'numpy.ma.max', 'numpy.ma.sum') \
                    else 'ma'
            if n in ('numpy.dtype', 'numpy.result_type', 'numpy.promote_types'):
                return 'dtype'
            if n in ('numpy.isscalar', 'numpy.issubdtype', 'numpy.iterable'):
                return 'bool'
            if n in ('numpy.ndim', 'numpy.size'):
                return 'int'
            if n in ('numpy.array', 'numpy.asarray', 'numpy.empty', 'numpy.zeros',
                     'numpy.ones', 'numpy.full', 'numpy.arange', 'numpy.require',
                     'numpy.ascontiguousarray', 'numpy.flatnonzero'):
                return 'nd'
            if n in ('numpy.prod', 'numpy.min', 'numpy.max', 'numpy.sum', 'numpy.minimum',
                     'numpy.maximum', 'numpy.searchsorted'):
                def isint(x):
                    if x.op in ('list', 'ndlist', 'tuple'):
                        return all(isint(y) for y in x.a)
                    return I.kind(x, st) in ('int', 'bool', 'shape')
                if args and all(isint(x) for x in args) and not kw:
                    return 'int'
                if n == 'numpy.searchsorted' and len(args) > 1 and isint(args[1]):
                    return 'int'
            if n in ('numpy.rollaxis', 'numpy.squeeze', 'numpy.take', 'numpy.transpose') \
                    and args:
                return I.kind(args[0], st)
            return 'anynd'
        return None
    if f.op == 'bmx':
        n = f.a[1]
        b = I.kind(f.a[0], st)
        if n == 'filled':
            return 'nd'
        if b in ('nd', 'ma') and n in ('astype', 'transpose', 'flatten', 'reshape', 'ravel',
                                       'copy', 'view', 'squeeze', 'swapaxes', '__getitem__'):
            return b
        if b == 'array' and n in ('transpose', 'astype', '__getitem__',
                                  '_getitem_full_keys'):
            return 'array'
        if b in ('nd', 'ma', 'anynd'):
            return 'anynd'
        if b == 'str':
            return 'str' if n not in ('split',) else 'list'
        if n == 'index':
            return 'int'
        if n == 'tolist':
            return 'list'
    return None


def deep_arrays(I, x, st, depth=0):
    """Array-kind values inside an argument."""
    if depth > 6:
        return []
    k = I.kind(x, st)
    if k in ('array', 'concrete'):
        return [x]
    out = []
    if x.op in ('tuple', 'list', 'ndlist', 'cat', 'listseq', 'ndlistseq'):
        for y in children(x):
            out += deep_arrays(I, y, st, depth + 1)
    elif x.op == 'ref':
        r = st.heap.get(x.a[0])
        if isinstance(r, Lst):
            for y in (r.items if r.items is not None else (r.seq,) + tuple(r.tail)):
                out += deep_arrays(I, y, st, depth + 1)
    elif x.op == 'phi':
        out = deep_arrays(I, x.a[1], st, depth + 1) + deep_arrays(I, x.a[2], st, depth + 1)
    elif x.op == 'map':
        out = deep_arrays(I, x.a[2], st, depth + 1)
    elif x.op == 'star':
        out = deep_arrays(I, x.a[0], st, depth + 1)
    return out


CONSUMES = {'list', 'tuple', 'set', 'frozenset', 'dict', 'all', 'any', 'sum', 'min', 'max',
            'sorted', 'map', 'filter', 'zip', 'enumerate', 'reversed'}
ITERATORS = {'map', 'filter', 'zip', 'enumerate', 'reversed', 'iter'}


def call(I, f, args, kw, st, node):
    if f.op == 'attr':
        f = T('bmx', f.a[0], f.a[1])
    if f.op == 'bmx':
        return method(I, f, args, kw, st, node)
    if f.op == 'prop':
        return T('call', f, tuple(args), ())
    if f.op == 'propset':
        return T('prop', f.a[0].a[0], args[0])
    if f.op == 'type':
        return opaque(I, f, args, kw, st, node)
    if f.op == 'ext':
        n = f.a[0]
        if n.startswith('builtins.'):
            h = globals().get('b_' + n[9:])
            if h is not None:
                v = h(I, args, kw, st, node)
                if n[9:] in CONSUMES:
                    for x in args:
                        I.consume(x, st)
                if n[9:] in ITERATORS:
                    I.mark_once(v, st)
                return v
            if n[9:] in EXC_BASES or n[9:] == 'BaseException':
                return T('exc', n[9:], T('tuple', *args))
            return opaque(I, f, args, kw, st, node)
        if n.startswith('numpy.'):
            return npcall(I, f, n, args, kw, st, node)
        if n == 'functools.wraps':
            return T('identity_deco')
        if n == 'functools.partial':
            return T('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n == 'functools.reduce':
            its = I.items(args[1], st)
            if its is not None and (its or len(args) > 2):
                acc = args[2] if len(args) > 2 else its.pop(0)
                for x in its:
                    acc = I.call(args[0], [acc, x], {}, st, node)
                return acc
        if n.startswith('operator.'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//',
                 'mod': '%', 'pow': '**', 'and_': '&', 'or_': '|', 'xor': '^'}.get(n[9:])
            if o and len(args) == 2:
                return I.binop(o, args[0], args[1], st, node)
            c = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=',
                 'is_': 'is', 'is_not': 'is not'}.get(n[9:])
            if c and len(args) == 2:
                return I.compare(c, args[0], args[1], st, node)
            if n == 'operator.getitem':
                return I.getitem(args[0], args[1], st, node)
            if n == 'operator.not_':
                return mk_not(I.truth(args[0], st))
            if n in ('operator.itemgetter', 'operator.attrgetter', 'operator.methodcaller'):
                return T('getter', n[9:], tuple(args))
        if n == 'collections.namedtuple':
            return namedtuple(I, args, kw, st)
        if n == 'collections.OrderedDict' or n == 'collections.defaultdict':
            return b_dict(I, args if n.endswith('OrderedDict') else args[1:], kw, st, node)
        if n in ('six.itervalues', 'six.iteritems', 'six.iterkeys', 'six.viewvalues',
                 'six.viewitems'):
            m = 'values' if 'values' in n else 'items' if 'items' in n else 'keys'
            return method(I, T('bmx', args[0], m), [], {}, st, node)
        if n.startswith('six.with_metaclass'):
            return T('call', f, tuple(args), ())
        if n == 'six.moves.range':
            return b_range(I, args, kw, st, node)
        if n == 'itertools.chain':
            seqs = [I.seqterm(x, st) for x in args]
            its = [I.items(x, st) for x in args]
            for x in args:
                I.consume(x, st)
            if None not in its:
                return I.mark_once(I.new_list(st, [y for x in its for y in x]), st)
            return I.mark_once(I.new_seq(st, T('cat', *seqs)), st)
        if n == 'itertools.product' and all(I.items(x, st) is not None for x in args) and \
                'repeat' not in kw:
            import itertools
            prod = list(itertools.islice(itertools.product(
                *[I.items(x, st) for x in args]), 65))
            if len(prod) <= 64:
                return I.new_list(st, [T('tuple', *p) for p in prod])
        if n == 'itertools.product' and not kw and args:
            seqs = [I.seqterm(x, st) for x in args]
            nd = T('ndindex', T('tuple', *[I.length(x, st) for x in seqs]))
            var = T('idx', 'prod', nd, info={'kind': 'int', 'lo': 0})
            return T('map', nd, var, T('tuple', *[
                I.element(x, T('mi', var, const(p), nd.a[0].a[p], info={'kind': 'int', 'lo': 0}),
                          st) for p, x in enumerate(seqs)]), TRUE)
        if n == 'itertools.repeat' and len(args) == 2:
            return listop(I, '*', I.new_list(st, [args[0]]), args[1], st, node)
        if n == 'itertools.accumulate' and len(args) == 1 and \
                I.items(args[0], st) is not None:
            out, acc = [], None
            for x in I.items(args[0], st):
                acc = x if acc is None else I.binop('+', acc, x, st, node)
                out.append(acc)
            return I.new_list(st, out)
        if n == 'itertools.groupby':
            its = I.items(args[0], st) if args else None
            kf = args[1] if len(args) > 1 else kw.get('key', NONE)
            if its is not None and len(its) <= I.UNROLL:
                groups = []
                for x in its:
                    k = x if kf.op == 'const' else I.call(kf, [x], {}, st, node)
                    same_ = I.eq(k, groups[-1][0], st) if groups else False
                    if same_ is None:
                        groups = None
                        break
                    if same_:
                        groups[-1][1].append(x)
                    else:
                        groups.append((k, [x]))
                if groups is not None:
                    return I.mark_once(I.new_list(st, [
                        T('tuple', k, I.mark_once(I.new_list(st, g), st))
                        for k, g in groups]), st)
            seq = I.seqterm(args[0], st)
            return T('groupby', seq, args[1] if len(args) > 1 else NONE)
        if n == 'copy.copy':
            r = I.rec(args[0], st)
            if isinstance(r, Lst):
                return I.alloc(st, Lst(r.items, r.seq, r.tail, r.nd))
            if isinstance(r, Dct):
                return I.alloc(st, Dct(r.items, r.base))
        return opaque(I, f, args, kw, st, node)
    if f.op == 'getter' and args:
        if f.a[0] == 'itemgetter' and len(f.a[1]) == 1:
            return I.getitem(args[0], f.a[1][0], st, node)
        if f.a[0] == 'attrgetter' and len(f.a[1]) == 1 and f.a[1][0].op == 'const':
            return I.getattr(args[0], f.a[1][0].a[0], st, node)
    if f.op == 'const':
        I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
    inf = I.info(f)
    if 'call' in inf:
        return inf['call'](I, args, kw, st, node)
    return opaque(I, f, args, kw, st, node)


def namedtuple(I, args, kw, st):
    name = args[0].a[0] if args[0].op == 'const' else 'nt'
    fl = args[1]
    if fl.op == 'const':
        fields = fl.a[0].replace(',', ' ').split()
    else:
        fields = [x.a[0] for x in I.items(fl, st)]
    fr = I.frames[-1]
    ci = ClassInfo(name, [], fr.module, None)
    ci.fields = fields
    ci.qual = name
    ci.key = '%s:%s' % (fr.module, name)
    while ci.key in I.classes:
        ci.key += "'"
    I.classes[ci.key] = ci
    return I.clsT(ci)


# --------------------------------------------------------------------- builtins
def b_range(I, args, kw, st, node):
    args = [I.refine(a, st) for a in args]
    if all(is_num(a) for a in args):
        r = list(range(*[a.a[0] for a in args][:3]))[:4097]
        if len(r) <= I.UNROLL:
            return I.alloc(st, Lst(tuple(const(x) for x in r)))
    if len(args) == 2 and is_num(args[0]) and args[0].a[0] == 0:
        args = args[1:]
    if len(args) == 3 and is_num(args[2]) and args[2].a[0] == 1:
        args = args[:2] if not (is_num(args[0]) and args[0].a[0] == 0) else args[1:2]
    return T('call', ext('builtins.range'), tuple(args), ())


def seq_of(I, x, st):
    return I.seqterm(x, st)


def b_len(I, args, kw, st, node):
    x = I.refine(args[0], st)
    r = I.rec(x, st)
    if isinstance(r, Inst):
        a, o = I.find(r.cls, '__len__')
        if a is not None:
            return I.call(T('bm', a, x), [], {}, st, node)
        I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
    if isinstance(r, Dct):
        if r.base is None and not any(v.op == 'opt' for k, v in r.items):
            return const(len(r.items))
        return T('len', T('dictkeys', x, T('tuple', *[T('tuple', k, v) for k, v in r.items])))
    if I.kind(x, st) in ('nd', 'ma', 'anynd', 'array', 'concrete', 'ndint', 'ndbool'):
        s = shape_of(I, x, st)
        if s:
            return s[0]
    if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.range':
        a = x.a[1]
        if len(a) == 1 and I.decide(mk_cmp('<=', ZERO, a[0]), st):
            return a[0]
        if len(a) == 3 and is_num(a[0]) and a[0].a[0] == 0 and is_num(a[2]) and \
                a[2].a[0] == 1 and I.decide(mk_cmp('<=', ZERO, a[1]), st):
            return a[1]
    return I.length(x, st)


def b_isinstance(I, args, kw, st, node):
    return isinstance_(I, args[0], args[1], st, node)


def b_issubclass(I, args, kw, st, node):
    a, c = args
    if a.op == 'cls' and c.op == 'cls':
        return const(I.cls(c) in I.mro(I.cls(a)))
    if a.op == 'attr' and a.a[1] == 'type' and a.a[0].op == 'attr' and a.a[0].a[1] == 'dtype':
        r = I.rec(a.a[0].a[0], st)
        if isinstance(r, Lst) and r.items is not None and c.op == 'ext' and \
                c.a[0] == 'numpy.integer':
            ks = {I.kind(x, st) for x in r.items}
            if ks <= {'int', 'bool'}:
                return TRUE
            if 'float' in ks:
                return FALSE
    return T('issub', a, c)


def b_hasattr(I, args, kw, st, node):
    return hasattr_(I, args[0], args[1], st)


def b_getattr(I, args, kw, st, node):
    o, n = args[0], args[1]
    o = I.refine(o, st)
    if n.op == 'const' and isinstance(n.a[0], str):
        if len(args) == 3:
            if o.op == 'ext':
                nm = o.a[0]
                if nm == 'numpy.ma':
                    return ext('numpy.ma.' + n.a[0]) if n.a[0] in NP['ma'] else args[2]
                if nm == 'numpy':
                    return ext('numpy.' + n.a[0]) if n.a[0] in NP['np'] else args[2]
            if o.op == 'cls':
                a, w = I.find(I.cls(o), n.a[0])
                return I.getattr(o, n.a[0], st, node) if a is not None else args[2]
            h = hasattr_(I, o, n, st)
            d = I.decide(h, st)
            if d is True:
                return I.getattr(o, n.a[0], st, node)
            if d is False:
                return args[2]
            s = st.copy()
            s.assume(h)
            try:
                v = I.getattr(o, n.a[0], s, node)
            except Dead:
                return args[2]
            return I.phi(h, v, args[2], I.phi_memo)
        return I.getattr(o, n.a[0], st, node)
    return opaque(I, ext('builtins.getattr'), args, kw, st, node)


def b_setattr(I, args, kw, st, node):
    if args[1].op == 'const':
        I.setattr(args[0], args[1].a[0], args[2], st, node)
        return NONE
    return opaque(I, ext('builtins.setattr'), args, kw, st, node)


def b_type(I, args, kw, st, node):
    if len(args) == 1:
        x = I.refine(args[0], st)
        if x.op == 'phi':
            return I.dist(x, st, lambda y, s: call_type(I, y, s))
        return call_type(I, x, st)
    return opaque(I, ext('builtins.type'), args, kw, st, node)


def b_super(I, args, kw, st, node):
    if len(args) == 2:
        return T('super', args[0], args[1])
    return opaque(I, ext('builtins.super'), args, kw, st, node)


def b_globals(I, args, kw, st, node):
    return T('globals', 'mod:' + I.frames[-1].module)


def b_list(I, args, kw, st, node):
    if not args:
        return I.new_list(st, [])
    x = I.refine(args[0], st)
    return tolist(I, x, st, lambda its: I.new_list(st, its),
                  lambda s: I.new_seq(st, s), node)


def b_tuple(I, args, kw, st, node):
    if not args:
        return T('tuple')
    x = I.refine(args[0], st)
    if I.kind(x, st) in ('tuple', 'shape'):
        return x
    if I.kind(x, st) in ('int', 'none', 'float', 'bool', 'slice', 'func', 'dtype'):
        I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
    return tolist(I, x, st, lambda its: T('tuple', *its), lambda s: s, node)


def tolist(I, x, st, known, unknown, node):
    if x.op == 'phi':
        a, b = I.items(x.a[1], st), I.items(x.a[2], st)
        if a is not None and b is not None and len(a) == len(b):
            return known([I.phi(x.a[0], p, q, I.phi_memo) for p, q in zip(a, b)])
    r = I.rec(x, st)
    if isinstance(r, Inst):
        a, o = I.find(r.cls, '__iter__')
        if a is not None:
            return tolist(I, I.call(T('bm', a, x), [], {}, st, node), st, known, unknown, node)
    if I.kind(x, st) in ('int', 'none', 'float', 'bool', 'slice', 'dtype'):
        I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
    its = I.items(x, st)
    if its is not None:
        return known(its)
    if isinstance(r, Dct):
        return unknown(T('dictkeys', x, T('tuple', *[T('tuple', k, v) for k, v in r.items])))
    if I.kind(x, st) in ('nd', 'ma', 'ndint', 'ndbool', 'anynd') :
        return unknown(T('elems', x, info={'kind': 'tuple', 'elemf': I.info(x).get('elemf')}))
    return unknown(I.seqterm(x, st))


def b_dict(I, args, kw, st, node):
    items, base = [], None
    if args:
        r = I.rec(args[0], st)
        if isinstance(r, Dct):
            items, base = list(r.items), r.base
        else:
            its = I.items(args[0], st)
            if its is not None and all(I.items(x, st) is not None for x in its):
                for x in its:
                    k, v = I.items(x, st)
                    items = [(a, b) for a, b in items if a.sid != k.sid] + [(k, v)]
            else:
                base = T('dictof', I.seqterm(args[0], st))
    for k, v in sorted(kw.items()):
        items.append((const(k), v))
    return I.alloc(st, Dct(items, base))


def b_set(I, args, kw, st, node):
    if not args:
        return T('set', info={'kind': 'set'})
    return T('setof', I.seqterm(args[0], st), info={'kind': 'set'})


b_frozenset = b_set


def b_int(I, args, kw, st, node):
    if not args:
        return ZERO
    x = args[0]
    if I.kind(x, st) == 'int':
        return x
    if x.op == 'const' and isinstance(x.a[0], (bool, float)):
        return const(int(x.a[0]))
    return opaque(I, ext('builtins.int'), args, kw, st, node, event=False)


def b_bool(I, args, kw, st, node):
    return I.truth(args[0], st, node) if args else FALSE


def b_str(I, args, kw, st, node):
    return T('str', *[argterm(I, a, st) for a in args], info={'kind': 'str'})


def b_repr(I, args, kw, st, node):
    return T('str', *[argterm(I, a, st) for a in args], info={'kind': 'str'})


b_format = b_repr


def b_float(I, args, kw, st, node):
    if args and is_num(args[0]):
        return const(float(args[0].a[0]))
    return T('call', ext('builtins.float'), tuple(args), ())


def b_slice(I, args, kw, st, node):
    a = list(args)
    if any(x.op == 'star' for x in a):
        return T('call', ext('builtins.slice'), tuple(a), (), info={'kind': 'slice'})
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a = a + [NONE]
    return T('slice', *a)


def b_abs(I, args, kw, st, node):
    if is_num(args[0]):
        return const(abs(args[0].a[0]))
    x = args[0]
    if I.kind(x, st) == 'int':
        if I.decide(mk_cmp('<=', ZERO, x), st) is True:
            return x
        if I.decide(mk_cmp('<=', x, ZERO), st) is True:
            return lin_term(lin(T('neg', x)))
    return T('call', ext('builtins.abs'), tuple(args), ())


def b_all(I, args, kw, st, node):
    return quant(I, args[0], st, node, True)


def b_any(I, args, kw, st, node):
    return quant(I, args[0], st, node, False)


def quant(I, x, st, node, isall):
    its = I.items(x, st)
    if its is not None:
        cs = [I.truth(y, st, node) for y in its]
        cs = [const(d) if d is not None else c for c in cs for d in [I.decide(c, st)]]
        return mk_and(cs) if isall else mk_or(cs)
    seq = I.seqterm(x, st)
    if seq.op == 'map' and seq.a[3].op == 'const':
        src, var, body, cond = seq.a
        b = I.truth(body, st, node)
        if b.op == 'const':
            if b.a[0] is isall:
                return const(isall)
        t = T('forall', src, var, b if isall else mk_not(b))
        return t if isall else mk_not(t)
    d = T('idx', 'q', seq, info={'kind': 'int', 'lo': 0})
    b = I.truth(I.element(seq, d, st), st, node)
    t = T('forall', seq, d, b if isall else mk_not(b))
    return t if isall else mk_not(t)


def b_map(I, args, kw, st, node):
    f = args[0]
    if len(args) == 2:
        src = I.refine(args[1], st)
    else:
        src = b_zip(I, args[1:], {}, st, node)
    its = I.items(src, st)
    if its is not None:
        out = []
        for x in its:
            a = [x] if len(args) == 2 else list(x.a)
            out.append(I.call(f, a, {}, st, node))
        return I.new_list(st, out)
    seq = I.seqterm(src, st)
    I.loopdepth += 1
    idx = T('idx', I.loopdepth, seq, info={'kind': 'int', 'lo': 0})
    try:
        el = I.element(src, idx, st)
        a = [el] if len(args) == 2 else [I.getitem(el, const(i), st) for i in
                                         range(len(args) - 1)]
        body = I.call(f, a, {}, st, node)
    finally:
        I.loopdepth -= 1
    return I.new_seq(st, T('map', seq, idx, body, TRUE))


def b_filter(I, args, kw, st, node):
    f, src = args
    its = I.items(src, st)
    if its is not None:
        out, ok = [], True
        for x in its:
            c = I.truth(x, st) if f.op == 'const' else I.truth(
                I.call(f, [x], {}, st, node), st)
            d = I.decide(c, st)
            if d is None:
                ok = False
                break
            if d:
                out.append(x)
        if ok:
            return I.new_list(st, out)
    seq = I.seqterm(src, st)
    idx = T('idx', I.loopdepth + 1, seq, info={'kind': 'int', 'lo': 0})
    el = I.element(src, idx, st)
    c = I.truth(el, st) if f.op == 'const' else I.truth(I.call(f, [el], {}, st, node), st)
    return I.new_seq(st, T('map', seq, idx, el, c))


def b_zip(I, args, kw, st, node):
    if len(args) == 1 and args[0].op == 'star':
        return T('zipstar', args[0].a[0])
    its = [I.items(x, st) for x in args]
    if None not in its:
        return I.new_list(st, [T('tuple', *p) for p in zip(*its)])
    return T('zip', *[I.seqterm(x, st) for x in args])


def b_enumerate(I, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    its = I.items(args[0], st)
    if its is None and I.refine(args[0], st).op == 'phi':
        p = I.refine(args[0], st)
        a, b = I.items(p.a[1], st), I.items(p.a[2], st)
        if a is not None and b is not None and len(a) == len(b):
            its = [I.phi(p.a[0], x, y, I.phi_memo) for x, y in zip(a, b)]
    if its is not None:
        return I.new_list(st, [T('tuple', mk_bin('+', start, const(i))
                                 if not is_num(start) else const(start.a[0] + i), x)
                               for i, x in enumerate(its)])
    return T('enum', I.seqterm(args[0], st), start)


def b_reversed(I, args, kw, st, node):
    its = I.items(args[0], st)
    if its is not None:
        return I.new_list(st, its[::-1])
    return T('rev', I.seqterm(args[0], st))


def b_sorted(I, args, kw, st, node):
    its = I.items(args[0], st)
    rev = kw.get('reverse', FALSE)
    if its is not None and all(is_const(x) for x in its) and 'key' not in kw and \
            is_const(rev):
        try:
            return I.new_list(st, [const(v) for v in sorted([x.a[0] for x in its],
                                                            reverse=bool(rev.a[0]))])
        except TypeError:
            pass
    if its is not None and len(its) <= 1:
        return I.new_list(st, its)
    return I.new_seq(st, T('sorted', I.seqterm(args[0], st),
                           tuple(sorted((k, v) for k, v in kw.items()))))


def b_min(I, args, kw, st, node, name='min'):
    a = args
    if len(args) == 1:
        its = I.items(args[0], st)
        if its is not None:
            a = its
    if a and all(is_num(x) for x in a) and (len(args) > 1 or a is not args):
        return const((min if name == 'min' else max)([x.a[0] for x in a]))
    if len(a) == 1 and a is not args:
        return a[0]
    return T('call', ext('builtins.' + name), tuple(argterm(I, x, st) for x in a),
             tuple(sorted((k, v) for k, v in kw.items())))


def b_max(I, args, kw, st, node):
    return b_min(I, args, kw, st, node, 'max')


def b_sum(I, args, kw, st, node):
    if len(args) == 1 and I.kind(args[0], st) == 'ndbool':
        return count_true(I, args[0])
    its = I.items(args[0], st)
    if its is not None:
        acc = args[1] if len(args) > 1 else ZERO
        for x in its:
            acc = I.binop('+', acc, x, st, node)
        return acc
    return T('call', ext('builtins.sum'), (I.seqterm(args[0], st),) + tuple(args[1:]), ())


def b_id(I, args, kw, st, node):
    return T('id', args[0])


def b_iter(I, args, kw, st, node):
    x = I.refine(args[0], st)
    if x.op == 'ref' and x.a[0] in I.once:
        return x
    its = I.items(x, st)
    if its is not None:
        return I.new_list(st, its)
    return I.new_seq(st, I.seqterm(x, st)) if len(args) == 1 and I.kind(x, st) in (
        'tuple', 'shape', 'list') else args[0]


def b_print(I, args, kw, st, node):
    return NONE


def b_callable(I, args, kw, st, node):
    x = args[0]
    if x.op in ('func', 'bm', 'cls', 'ext', 'bmx', 'partial'):
        return TRUE
    if I.kind(x, st) in ('none', 'int', 'tuple', 'list', 'slice'):
        return FALSE
    return T('hasattr', x, const('__call__'))


def b_divmod(I, args, kw, st, node):
    return T('tuple', I.binop('//', args[0], args[1], st, node),
             I.binop('%', args[0], args[1], st, node))


def b_pow(I, args, kw, st, node):
    if len(args) == 2:
        return I.binop('**', args[0], args[1], st, node)
    return opaque(I, ext('builtins.pow'), args, kw, st, node)


def b_hash(I, args, kw, st, node):
    return T('hash', args[0])


def b_property(I, args, kw, st, node):
    return T('prop', args[0] if args else NONE, args[1] if len(args) > 1 else None)


def b_staticmethod(I, args, kw, st, node):
    return T('static', args[0])


def b_classmethod(I, args, kw, st, node):
    return T('clsm', args[0])


def b_object(I, args, kw, st, node):
    I.oid += 1
    return T('obj', I.oid)


def b_vars(I, args, kw, st, node):
    return opaque(I, ext('builtins.vars'), args, kw, st, node)


def b_next(I, args, kw, st, node):
    its = I.items(args[0], st)
    if its:
        if args[0].op == 'ref' and args[0].a[0] in I.once:
            st.put(args[0].a[0], Lst(tuple(its[1:])))
        return its[0]
    if its is not None and len(args) > 1:
        return args[1]
    return opaque(I, ext('builtins.next'), args, kw, st, node)


# ------------------------------------------------------------------------ numpy
def isO(d):
    return d is not None and (
        (d.op == 'const' and d.a[0] in ('O', 'object')) or
        (d.op == 'ext' and d.a[0] in ('builtins.object', 'numpy.object_')) or
        (d.op == 'call' and d.a[1] and isO(d.a[1][0])))


def npcall(I, f, n, args, kw, st, node):
    args = [I.refine(a, st) for a in args]
    dt = kw.get('dtype')
    if dt is None and n in ('numpy.array', 'numpy.asarray', 'numpy.require') and len(args) > 1:
        dt = args[1]
    a0 = args[0] if args else None
    r0 = I.rec(a0, st) if a0 is not None else None
    if n in ('numpy.array', 'numpy.asarray', 'numpy.require', 'numpy.asanyarray',
             'numpy.ascontiguousarray') and a0 is not None:
        copy = n == 'numpy.array' and not (
            'copy' in kw and kw['copy'].op == 'const' and kw['copy'].a[0] is False)
        if isinstance(r0, Lst) and r0.nd and (dt is None or isO(dt)):
            if not copy:
                return a0
            return I.alloc(st, Lst(r0.items, r0.seq, r0.tail, r0.nd))
        if isO(dt):
            if a0.op == 'tuple' or isinstance(r0, Lst):
                its = I.items(a0, st)
                if its is not None:
                    subs = [I.items(x, st) if I.kind(x, st) in (
                        'list', 'tuple', 'objarray') else None for x in its]
                    if its and all(x is not None for x in subs) and \
                            len({len(x) for x in subs}) == 1 and subs[0] and \
                            not any(I.kind(y, st) in ('list', 'tuple', 'objarray')
                                    for x in subs for y in x):
                        return I.alloc(st, Lst(tuple(y for x in subs for y in x),
                                               nd=(len(subs), len(subs[0]))))
                    return I.new_list(st, its, True)
                return I.new_seq(st, I.seqterm(a0, st), True)
            if I.kind(a0, st) == 'objarray':
                return a0 if not copy else T('call', f, (a0,), (), info={
                    'kind': 'objarray', 'attrs': I.info(a0).get('attrs', {})})
        if isinstance(r0, Lst) or a0.op == 'tuple':
            its = I.items(a0, st)
            if its is not None and dt is None and its and \
                    all(I.kind(x, st) == 'int' for x in its) and \
                    all(is_const(x) or I.info(x).get('kind') == 'int' or x.op in (
                        'bin', 'sub', 'at', 'len', 'neg', 'phi') for x in its):
                return I.new_list(st, its, True)
            if its is not None and dt is None and its and \
                    all(is_const(x) and isinstance(x.a[0], bool) for x in its):
                return I.new_list(st, its, True)
    if n == 'numpy.searchsorted' and len(args) >= 2:
        hay = I.items(a0, st)
        side = kw.get('side', args[2] if len(args) > 2 else const('left'))
        one = I.kind(args[1], st) == 'int'
        need = [args[1]] if one else I.items(args[1], st)
        if hay is not None and need is not None and side.op == 'const' and \
                all(is_num(x) for x in hay + need) and 'sorter' not in kw:
            import bisect
            fn = bisect.bisect_right if side.a[0] == 'right' else bisect.bisect_left
            out = [const(fn([h.a[0] for h in hay], x.a[0])) for x in need]
            return out[0] if one else I.new_list(st, out, True)
    if n == 'numpy.arange' and len(args) == 1 and not kw:
        if a0.op == 'const':
            return I.new_list(st, [const(i) for i in range(a0.a[0])], True)
        return T('call', f, (a0,), (), info={'kind': 'nd'})
    if n in ('numpy.cumsum', 'numpy.ma.cumsum') and len(args) == 1 and not kw:
        its = I.items(a0, st) if (isinstance(r0, Lst) or a0.op == 'tuple') else None
        if its is not None:
            acc, out = None, []
            for x in its:
                acc = x if acc is None else I.binop('+', acc, x, st, node)
                if acc.op == 'const' and isinstance(acc.a[0], bool):
                    acc = const(int(acc.a[0]))
                out.append(acc)
            return I.new_list(st, out, True)
    if n in ('numpy.sum', 'numpy.prod') and len(args) == 1 and not kw and \
            (isinstance(r0, Lst) or a0.op == 'tuple'):
        its = I.items(a0, st)
        if its is not None:
            acc = ZERO if n == 'numpy.sum' else ONE
            for x in its:
                acc = I.binop('+' if n == 'numpy.sum' else '*', acc, x, st, node)
            return acc
    if n in ('numpy.any', 'numpy.all') and len(args) == 1 and not kw:
        if isinstance(r0, Lst) or a0.op == 'tuple':
            return quant(I, a0, st, node, n == 'numpy.all')
        if a0.op == 'ndcmp':
            return mk_and(list(a0.a)) if n == 'numpy.all' else mk_or(list(a0.a))
        if I.kind(a0, st) == 'bool':
            return a0
    if n in ('numpy.min', 'numpy.max', 'numpy.minimum', 'numpy.maximum') and not kw:
        its = I.items(a0, st) if len(args) == 1 else list(args)
        if its and all(I.kind(x, st) in ('int', 'bool') for x in its):
            return b_min(I, its, {}, st, node, 'min' if 'min' in n else 'max') \
                if len(its) > 1 else its[0]
    if n == 'numpy.isscalar' and args:
        k = I.kind(a0, st)
        if k in ('int', 'bool', 'float', 'str', 'npscalar', 'complex', 'num'):
            return TRUE
        if k in ('nd', 'ma', 'array', 'tuple', 'list', 'none', 'slice', 'objarray', 'inst',
                 'func', 'dict', 'concrete', 'ndint', 'ndbool'):
            return FALSE
        return T('truthy', opaque(I, f, args, kw, st, node, throws=False))
    if n in ('numpy.ndim', 'numpy.shape', 'numpy.size') and len(args) == 1:
        if isinstance(r0, Inst) and I.find(r0.cls, n[6:])[0] is None and \
                n[6:] not in r0.fields and I.isarraycls(r0.cls):
            I.ev('coerce', st, node, obj=a0, f=f)
            return opaque(I, f, args, kw, st, node)
        return I.getattr(a0, n[6:], st, node)
    if n == 'numpy.ma.isMaskedArray':
        k = I.kind(a0, st)
        if k == 'ma':
            return TRUE
        if k in ('nd', 'array', 'int', 'tuple', 'list', 'none', 'ndint', 'ndbool'):
            return FALSE
        t = T('isinst', a0, ext('numpy.ma.MaskedArray'))
        return t
    if n == 'numpy.ndindex':
        if len(args) == 1 and I.kind(a0, st) in ('tuple', 'shape', 'list'):
            its = I.items(a0, st)
            sh = I.seqterm(a0, st)
        elif len(args) == 1 and a0.op == 'star':
            its, sh = None, a0.a[0]
        else:
            its, sh = list(args), T('tuple', *args)
            if any(x.op == 'star' for x in args):
                its = None
        if its is not None:
            sh = T('tuple', *its)
            if all(is_num(x) for x in its):
                import itertools
                tot = 1
                for x in its:
                    tot *= x.a[0]
                if tot <= I.UNROLL:
                    return I.new_list(st, [T('tuple', *map(const, p)) for p in
                                           itertools.product(*[range(x.a[0])
                                                               for x in its])])
        return T('ndindex', sh)
    if n == 'numpy.flatnonzero' and I.info(a0).get('truth') is not None:
        return I.new_list(st, [const(i) for i, x in enumerate(I.info(a0)['truth']) if x], True)
    if n == 'numpy.flatnonzero' and I.kind(a0, st) == 'ndbool':
        return T('call', f, (a0,), (), info={
            'kind': 'ndint', 'truesof': a0,
            'attrs': {'size': T('count', a0, info={'kind': 'int', 'lo': 0})},
            'elemf': lambda idx, a0=a0: T('at', T('trues', a0), idx,
                                          info={'kind': 'int', 'lo': 0,
                                                'group': None})})
    if n == 'numpy.dtype':
        if I.kind(a0, st) == 'dtype':
            return a0
        return T('call', f, (a0,), (), info={'kind': 'dtype'})
    # reading arrays
    if n == 'numpy.size' and a0 is not None and I.kind(a0, st) in ('concrete', 'nd', 'ma'):
        pass                                 # they have a size
    elif n not in METADATA and not isO(dt):
        for x in list(args) + [v for k, v in kw.items()]:
            for y in deep_arrays(I, x, st):
                I.ev('coerce', st, node, obj=y, f=f)
    for k in ('out', 'where'):
        if k == 'out' and 'out' in kw and not (kw['out'].op == 'const'):
            outs = kw['out'].a if kw['out'].op == 'tuple' else (kw['out'],)
            for o in outs:
                I.ev('mutate', st, node, how='out=', target=o)
            rest = {a: b for a, b in kw.items() if a != 'out'}
            t = opaque(I, f, args, rest, st, node)
            I.replace(outs[0], t, st)
            return t
    if n in NP_WRITES:
        pos, nm = NP_WRITES[n]
        tgt = args[pos] if len(args) > pos else kw.get(nm)
        if tgt is not None:
            I.ev('mutate', st, node, how=n, target=tgt)
            new = T('mutated', tgt, T('call', f, tuple(argterm(I, x, st) for x in args),
                                      ()))
            I.replace(tgt, new, st)
        return NONE
    # ufunc with positional out
    u = nin_nout(f)
    if u is not None and len(args) > u[0]:
        if len(args) == u[0] + 1 and not (args[-1].op == 'const'):
            I.ev('mutate', st, node, how='out', target=args[-1])
            t = opaque(I, f, args[:-1], kw, st, node)
            I.replace(args[-1], t, st)
            return t
        if args[-1].op != 'const':
            I.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
    if u is not None and len(args) < u[0] and not any(x.op == 'star' for x in args):
        I.do_raise(T('exc', 'ValueError', T('tuple')), st, node)
    # infix forms of the arithmetic ufuncs
    inf = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*',
           'numpy.true_divide': '/', 'numpy.floor_divide': '//'}.get(n)
    return opaque(I, f, args, kw, st, node)


# ---------------------------------------------------------------------- methods
def method(I, f, args, kw, st, node):
    o, n = f.a
    o = I.refine(o, st)
    if o.op == 'phi':
        return I.dist(o, st, lambda x, s: I.call(I.getattr(x, n, s, node), args, kw, s, node))
    if f.a[0] is not o:
        f = T('bmx', o, n)
    r = I.rec(o, st)
    if isinstance(r, Lst):
        v = list_method(I, o, r, n, args, kw, st, node)
        if v is not None:
            return v
    if isinstance(r, Dct):
        v = dict_method(I, o, r, n, args, kw, st, node)
        if v is not None:
            return v
    k = I.kind(o, st)
    if n == '__getitem__' and len(args) == 1:
        return I.getitem(o, args[0], st, node)
    if n == '__setitem__' and len(args) == 2:
        I.setitem(o, args[0], args[1], st, node)
        return NONE
    if n == '__len__' and not args:
        return b_len(I, [o], {}, st, node)
    if n == '__contains__' and len(args) == 1:
        return I.compare('in', args[0], o, st, node)
    if o.op == 'slice' and n == 'indices':
        return T('tuple', *indices(I, o, args[0], st))
    if I.kind(o, st) == 'slice' and n == 'indices':
        return T('tuple', *indices(I, o, args[0], st)) if o.op == 'slice' else \
            T('tuple', *[T('sliceidx', o, args[0], i, info={'kind': 'int'})
                         for i in range(3)])
    if k == 'str':
        if n == 'join' and args:
            return T('str', o, argterm(I, args[0], st), info={'kind': 'str'})
        if n in ('lower', 'upper', 'strip') and o.op == 'const':
            return const(getattr(o.a[0], n)())
        if n == 'split' and o.op == 'const' and not args:
            return I.new_list(st, [const(x) for x in o.a[0].split()])
        return T('str', o, *[argterm(I, a, st) for a in args], info={'kind': 'str'})
    if n == 'index' and k in ('tuple', 'shape', 'list') and args:
        its = I.items(o, st)
        if its is not None:
            for i, x in enumerate(its):
                d = I.eq(x, args[0], st)
                if d is None:
                    break
                if d:
                    return const(i)
            else:
                I.do_raise(T('exc', 'ValueError', T('tuple')), st, node)
    if o.op == 'nt' and n == '_replace':
        ci = I.classes[o.a[0]]
        vals = list(o.a[1])
        for kk, v in kw.items():
            vals[ci.fields.index(kk)] = v
        return T('nt', o.a[0], tuple(vals))
    if o.op == 'nt' and n == '_make':
        return T('nt', o.a[0], tuple(I.items(args[0], st)))
    if o.op == 'cls':
        ci = I.cls(o)
        if n == '_make' and ci.fields is not None:
            return T('nt', ci.key, tuple(I.items(args[0], st)))
        if n == '__new__':
            return I.alloc(st, Inst(I.cls(args[0]), {}))
    if o.op == 'instdict':
        pass
    if k == 'array':
        if n in ('ndarray', 'masked_array') and not args and not kw:
            t = T('conv', 'nd' if n == 'ndarray' else 'ma', o)
            I.ev('convert', st, node, obj=o, how=n)
            for i in range(len(I.maythrow)):
                I.maythrow[i] += 1
            return t
        if n == '_getitem_full_keys':
            return I.getitem(o, args[0], st, node)
        if n == 'transpose':
            return T('call', f, tuple(argterm(I, x, st) for x in args), (),
                     info={'kind': 'array'})
        if n == '__array__':
            I.ev('coerce', st, node, obj=o, f=f)
    if k == 'concrete':
        if n in ('ndarray', 'masked_array') and not args:
            I.ev('convert', st, node, obj=o, how=n)
            return T('conv', 'nd' if n == 'ndarray' else 'ma', o)
        I.ev('read', st, node, obj=o, key=None)
    if k == 'engine' and n in ('ndarrays', 'masked_arrays'):
        how = 'nd' if n == 'ndarrays' else 'ma'
        out = []
        for x in args:
            if x.op == 'star':
                seq = x.a[0]
                I.ev('convert', st, node, obj=seq, how='engine.' + n)
                idx = T('idx', 'eng', seq, info={'kind': 'int', 'lo': 0})
                return I.new_seq(st, T('map', seq, idx, T('conv', how, I.element(
                    seq, idx, st)), TRUE))
            I.ev('convert', st, node, obj=x, how='engine.' + n)
            out.append(T('conv', how, x))
        for i in range(len(I.maythrow)):
            I.maythrow[i] += 1
        return I.new_list(st, out)
    if n in M_WRITES and k in ('nd', 'ma', 'anynd', None, 'concrete', 'objarray'):
        I.ev('mutate', st, node, how=n, target=o)
        new = T('filled', o, argterm(I, args[0], st)) if n == 'fill' and args else \
            T('mutated', o, T('call', f, tuple(argterm(I, x, st) for x in args), ()))
        if n == 'fill':
            new.info = {'kind': k, 'attrs': {a: value_attr(I, o, a, st, node)
                                             for a in ('shape', 'dtype', 'ndim')}}
        I.replace(o, new, st)
        return NONE
    if 'out' in kw and k in ('nd', 'ma', 'anynd'):
        I.ev('mutate', st, node, how='out=', target=kw['out'])
    if k in ('nd', 'ma', 'anynd') and n in ('sum', 'min', 'max', 'mean', 'std', 'var', 'all',
                                            'any', 'prod', 'cumsum', 'squeeze', 'take',
                                            'argmin', 'argmax', 'transpose', 'count') and \
            o.op != 'ref' and n not in ('transpose', 'count'):
        return npcall(I, ext('numpy.' + n), 'numpy.' + n, [o] + args, kw, st, node)
    if k == 'ma' and n == 'count':
        return npcall(I, ext('numpy.ma.count'), 'numpy.ma.count', [o] + args, kw, st, node)
    if k in ('nd', 'ma') and n == '__iadd__':
        pass
    return opaque(I, f, args, kw, st, node)


def list_method(I, o, r, n, args, kw, st, node):
    its = r.items
    if n == 'append':
        I.ev('listmut', st, node, obj=o, how='append', val=args[0])
        I.list_append(o, [args[0]], st)
        return NONE
    if n == 'extend':
        I.list_extend(o, args[0], st, node)
        return NONE
    if n == 'copy' and not r.nd or n == 'copy':
        return I.alloc(st, Lst(r.items, r.seq, r.tail, r.nd))
    if n == '__getitem__':
        return I.getitem(o, args[0], st, node)
    if n == '__setitem__':
        I.setitem(o, args[0], args[1], st, node)
        return NONE
    if n == '__len__':
        return I.length(o, st)
    if n == '__contains__':
        return I.compare('in', args[0], o, st, node)
    if n == 'tolist' and r.nd:
        return I.alloc(st, Lst(r.items, r.seq, r.tail, False))
    if n == '__iter__':
        return o
    if r.nd:
        if n in ('sum', 'any', 'all', 'cumsum', 'min', 'max', 'prod'):
            return npcall(I, ext('numpy.' + n), 'numpy.' + n, [o] + args, kw, st, node)
        if n == 'astype':
            return I.alloc(st, Lst(r.items, r.seq, r.tail, r.nd))
        if n in ('reshape', 'transpose', 'swapaxes') and args:
            return None
        if n in ('ravel', 'flatten', 'view'):
            x = I.alloc(st, Lst(r.items, r.seq, r.tail, True if n != 'view' else r.nd))
            return x if n == 'flatten' else I.viewof(o, x)
        return None
    if n == 'insert':
        I.ev('listmut', st, node, obj=o, how='insert', val=args[1])
        i = args[0]
        if its is not None and is_num(i):
            l = list(its)
            l.insert(i.a[0], args[1])
            st.put(o.a[0], Lst(tuple(l)))
            return NONE
        if is_num(i) and i.a[0] == 0:
            s = I.seqterm_rec(r)
            parts = (T('tuple', args[1]),) + (s.a if s.op == 'cat' else (s,))
            st.put(o.a[0], Lst(None, T('cat', *parts), ()))
            return NONE
        st.put(o.a[0], Lst(None, T('insert', I.seqterm_rec(r), i, args[1]), ()))
        return NONE
    if n == 'pop':
        I.ev('listmut', st, node, obj=o, how='pop')
        i = args[0] if args else const(-1)
        if its is not None and is_num(i):
            l = list(its)
            if not -len(l) <= i.a[0] < len(l):
                I.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
            v = l.pop(i.a[0])
            st.put(o.a[0], Lst(tuple(l)))
            return I.refine(v, st)
        if its is None and r.tail and is_num(i) and i.a[0] == -1 and r.tail[-1].op != 'opt':
            v = r.tail[-1]
            st.put(o.a[0], Lst(None, r.seq, r.tail[:-1]))
            return v
        s = I.seqterm_rec(r)
        st.put(o.a[0], Lst(None, T('delat', s, i), ()))
        return T('sub', s, i)
    if n == 'index' and its is not None:
        for i, x in enumerate(its):
            d = I.eq(x, args[0], st)
            if d is None:
                return T('call', T('bmx', T('tuple', *its), 'index'), (args[0],), (),
                         info={'kind': 'int', 'lo': 0})
            if d:
                return const(i)
        I.do_raise(T('exc', 'ValueError', T('tuple')), st, node)
    if n == 'count' and its is not None:
        acc = ZERO
        for x in its:
            d = I.eq(x, args[0], st)
            if d is None:
                return T('call', T('bmx', T('tuple', *its), 'count'), (args[0],), (),
                         info={'kind': 'int', 'lo': 0})
            acc = const(acc.a[0] + bool(d))
        return acc
    if n == 'remove' and its is not None:
        I.ev('listmut', st, node, obj=o, how='remove')
        for i, x in enumerate(its):
            d = I.eq(x, args[0], st)
            if d is None:
                break
            if d:
                st.put(o.a[0], Lst(its[:i] + its[i + 1:]))
                return NONE
    if n == 'reverse' and its is not None:
        I.ev('listmut', st, node, obj=o, how='reverse')
        st.put(o.a[0], Lst(its[::-1]))
        return NONE
    if n == 'reverse':
        I.ev('listmut', st, node, obj=o, how='reverse')
        st.put(o.a[0], Lst(None, T('rev', I.seqterm_rec(r)), ()))
        return NONE
    if n == 'sort':
        I.ev('listmut', st, node, obj=o, how='sort')
        s = b_sorted(I, [o], kw, st, node)
        st.put(o.a[0], I.rec(s, st))
        return NONE
    if n == 'clear':
        I.ev('listmut', st, node, obj=o, how='clear')
        st.put(o.a[0], Lst(()))
        return NONE
    if n == 'remove':
        I.ev('listmut', st, node, obj=o, how='remove')
        st.put(o.a[0], Lst(None, T('removed', I.seqterm_rec(r), args[0]), ()))
        return NONE
    return None


def dict_method(I, o, r, n, args, kw, st, node):
    exact = r.base is None and not any(v.op == 'opt' for k, v in r.items)
    if n == 'get':
        d = args[1] if len(args) > 1 else NONE
        for k0, v in r.items:
            e = I.eq(k0, args[0], st)
            if e and v.op != 'opt':
                return v
            if e is None or v.op == 'opt':
                c = T('indict', o, args[0])
                return I.phi(c, T('dictget', o, args[0]), d, I.phi_memo)
        if r.base is None:
            return d
        c = T('indict', o, args[0])
        return I.phi(c, T('dictget', o, args[0]), d, I.phi_memo)
    if n in ('items', 'iteritems', 'values', 'itervalues', 'keys'):
        if exact:
            if n in ('items', 'iteritems'):
                return I.new_list(st, [T('tuple', k, v) for k, v in r.items])
            if n in ('values', 'itervalues'):
                return I.new_list(st, [v for k, v in r.items])
            return I.new_list(st, [k for k, v in r.items])
        return T('dict' + n, o, T('tuple', *[T('tuple', k, v) for k, v in r.items]))
    if n == 'copy':
        return I.alloc(st, Dct(r.items, r.base))
    if n == 'update':
        I.ev('dictmut', st, node, obj=o, key=None, val=None)
        items = list(r.items)
        add = []
        base = r.base
        if args:
            r2 = I.rec(args[0], st)
            if isinstance(r2, Dct) and r2.base is None:
                add = list(r2.items)
            else:
                base = T('dictupd', base or NONE, I.seqterm(args[0], st))
        add += [(const(k), v) for k, v in sorted(kw.items())]
        for k, v in add:
            if any(k0.sid == k.sid for k0, _ in items):
                items = [(k0, v if k0.sid == k.sid else v0) for k0, v0 in items]
            else:
                items.append((k, v))
        st.put(o.a[0], Dct(items, base))
        return NONE
    if n == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        for k0, v in r.items:
            e = I.eq(k0, args[0], st)
            if e and v.op != 'opt':
                return v
            if e is None:
                return T('dictget', o, args[0])
        if r.base is None:
            I.setitem(o, args[0], d, st, node)
            return d
        return T('dictget', o, args[0])
    if n == 'pop':
        for k0, v in r.items:
            e = I.eq(k0, args[0], st)
            if e and v.op != 'opt':
                I.ev('dictmut', st, node, obj=o, key=k0, val=None)
                st.put(o.a[0], Dct([(a, b) for a, b in r.items if a is not k0], r.base))
                return v
        if exact and all(I.eq(k0, args[0], st) is False for k0, _ in r.items):
            if len(args) > 1:
                return args[1]
            I.do_raise(T('exc', 'KeyError', T('tuple')), st, node)
        return T('dictget', o, args[0])
    if n == '__getitem__':
        return I.getitem(o, args[0], st, node)
    if n == '__contains__':
        return I.compare('in', args[0], o, st, node)
    return None
