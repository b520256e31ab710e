"""The shape of the NumPy value which a term denotes, for sources of given shapes.

A shape is a tuple of numbers.  `Unk` is raised for everything which is not understood, and
`Bad` for an operation which NumPy refuses because the shapes do not fit.
"""
import json
import os

from .terms import *       # noqa
from .interp import Lst

MODEL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                    'np_model.json')))
SAME = {'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'require', 'copy', 'getmaskarray',
        'getdata', 'filled', 'masked_array', 'MaskedArray', 'zeros_like', 'ones_like',
        'empty_like', 'full_like', 'masked_equal', 'masked_values', 'masked_invalid', 'cumsum',
        'cumprod', 'masked_all_like', 'fix_invalid', 'negative', 'real', 'imag', 'isnan',
        'nan_to_num', 'around', 'round', 'round_', 'sort', 'flip'}
MAKE = {'empty', 'zeros', 'ones', 'full', 'masked_all'}
REDUCE = {'sum', 'prod', 'mean', 'std', 'var', 'min', 'max', 'amin', 'amax', 'all', 'any',
          'count', 'count_masked', 'ptp', 'average', 'median', 'argmin', 'argmax',
          'count_nonzero', 'nansum', 'nanmin', 'nanmax', 'nanmean'}
INVERT = {'==': '!='}


class Unk(Exception):
    pass


class Bad(Exception):
    pass


class Arr(object):
    """An array whose shape is known."""
    def __init__(self, shape):
        self.shape = tuple(shape)


def broadcast(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for i in range(n):
        d = {s[len(s) - n + i] for s in shapes if len(s) - n + i >= 0} - {1}
        if len(d) > 1:
            raise Bad('shapes %s do not fit' % (list(shapes),))
        out.append(d.pop() if d else 1)
    return tuple(out)


class Shapes(object):
    def __init__(self, C, st, virtual):
        self.C, self.I, self.st = C, C.I, st
        self.virtual = virtual          # (sid) -> declared shape of an object, or None
        self.memo = {}
        self.unsure = 0

    # ------------------------------------------------------------------------ numbers
    def num(self, t):
        if t is None:
            raise Unk('no number')
        if t.op == 'const' and isinstance(t.a[0], int):
            return int(t.a[0])
        if t.op == 'attr' and t.a[1] == 'ndim':
            return len(self.sh(t.a[0]))
        if t.op == 'attr' and t.a[1] == 'size':
            n = 1
            for x in self.sh(t.a[0]):
                n *= x
            return n
        if t.op == 'len':
            x = t.a[0]
            try:
                return len(self.seq(x))
            except Unk:
                return self.sh(x)[0]
        if t.op == 'sub' and t.a[1].op != 'slice':
            s, i = self.seq(t.a[0]), self.num(t.a[1])
            if -len(s) <= i < len(s):
                x = s[i]
                if isinstance(x, int):
                    return x
        if t.op == 'bin':
            a, b = self.num(t.a[1]), self.num(t.a[2])
            op = t.a[0].rstrip('=')
            if op in ('+', '-', '*'):
                return a + b if op == '+' else a - b if op == '-' else a * b
            if op == '//' and b:
                return a // b
            if op == '%' and b:
                return a % b
        if t.op == 'phi':
            return self.num(self.branch(t))
        if t.op in ('min', 'max') and all(isinstance(x, T) for x in t.a):
            return (min if t.op == 'min' else max)(self.num(x) for x in t.a)
        raise Unk('number %s' % show(t, 2)[:60])

    def seq(self, t):
        """A sequence of numbers; None stands for a number which does not matter."""
        if t.op in ('tuple', 'list', 'ndlist'):
            return [self.num0(x) for x in t.a]
        if t.op == 'const' and isinstance(t.a[0], tuple):
            return list(t.a[0])
        if t.op == 'attr' and t.a[1] == 'shape':
            return list(self.sh(t.a[0]))
        if t.op == 'attr' and t.a[1] == 'strides':
            return [None] * len(self.sh(t.a[0]))
        if t.op == 'cat':
            return [y for x in t.a for y in self.seq(x)]
        if t.op == 'bin' and t.a[0] in ('+', '+='):
            return self.seq(t.a[1]) + self.seq(t.a[2])
        if t.op == 'bin' and t.a[0] in ('*', '*='):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const' and isinstance(y.a[0], int):
                    return self.seq(x) * y.a[0]
        if t.op == 'seqset':
            s, i = self.seq(t.a[0]), self.num(t.a[1])
            if not -len(s) <= i < len(s):
                raise Bad('position %d of %d' % (i, len(s)))
            s[i] = self.num0(t.a[2])
            return s
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in (
                'builtins.tuple', 'builtins.list') and len(t.a[1]) == 1:
            return self.seq(t.a[1][0])
        if t.op == 'sub' and t.a[1].op == 'slice':
            return self.seq(t.a[0])[self.slice(t.a[1])]
        if t.op == 'phi':
            return self.seq(self.branch(t))
        if t.op in ('sym', 'ref'):
            its = self.I.items(t, self.st)
            if its is not None:
                return [self.num0(x) for x in its]
        raise Unk('sequence %s' % show(t, 2)[:60])

    def num0(self, t):
        try:
            return self.num(t)
        except Unk:
            return None

    def slice(self, t):
        return slice(*[None if x.op == 'const' and x.a[0] is None else self.num(x)
                       for x in t.a])

    def dims(self, t):
        """The argument of np.empty and the like."""
        try:
            s = self.seq(t)
        except Unk:
            return (self.num(t),)
        if None in s:
            raise Unk('shape %s' % show(t, 2)[:60])
        return tuple(s)

    # --------------------------------------------------------------------- conditions
    def branch(self, t):
        c = self.truth(t.a[0])
        if c is None:
            raise Unk('condition %s' % show(t.a[0], 2)[:60])
        return t.a[1] if c else t.a[2]

    def truth(self, c):
        """True, False or None."""
        try:
            return self.truth_(c)
        except Unk:
            return None

    def truth_(self, c):
        if c.op == 'const':
            return bool(c.a[0])
        if c.op == 'not':
            r = self.truth(c.a[0])
            return None if r is None else not r
        if c.op in ('and', 'or'):
            rs = [self.truth(x) for x in c.a]
            hit = c.op == 'or'
            if hit in rs:
                return hit
            return None if None in rs else not hit
        if c.op == 'phi':
            return self.truth(self.branch(c))
        if c.op == 'cmp':
            op, a, b = c.a[:3]
            if op in ('is', 'is not'):
                for x, y in ((a, b), (b, a)):
                    if y.op == 'ext' and y.a[0] == 'numpy.ma.masked':
                        # The masked constant has rank 0.
                        if self.sh(x) != ():
                            return op == 'is not'
                        return None
                return None
            x, y = self.num(a), self.num(b)
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y,
                    '>=': x >= y}.get(op)
        return None

    # -------------------------------------------------------------------------- shapes
    def sh(self, t):
        if t.sid in self.memo:
            return self.memo[t.sid]
        r = self.shape(t)
        if r is None or not all(isinstance(x, int) for x in r):
            raise Unk('shape of %s' % show(t, 2)[:70])
        r = self.memo[t.sid] = tuple(r)
        return r

    def shape(self, t):
        f = getattr(self, 's_' + t.op, None)
        if f is None:
            raise Unk('term %s' % show(t, 2)[:70])
        return f(t)

    def s_const(self, t):
        if isinstance(t.a[0], (bool, int, float, complex)):
            return ()
        raise Unk('constant %s' % (t.a[0],))

    def declared(self, x):
        """The declared shape of a virtual array."""
        if x.op == 'sym':
            a = (self.I.info(x).get('attrs') or {}).get('shape')
            if a is not None and a.op == 'tuple':
                return tuple(self.num(y) for y in a.a)
            raise Unk('shape of %s' % show(x, 1)[:40])
        if x.op == 'sub':
            return self.orthogonal(self.declared(x.a[0]), x.a[1])
        if x.op == 'ref':
            r = self.virtual(x, self.st)
            if r is not None:
                return r
        if x.op == 'phi':
            return self.declared(self.branch(x))
        raise Unk('virtual array %s' % show(x, 2)[:60])

    def s_sym(self, t):
        info = self.I.info(t)
        k = info.get('kind')
        if k in ('npscalar', 'int', 'float', 'bool', 'npint'):
            return ()
        if k in ('nd', 'ma', 'concrete', 'ndbool', 'ndint', 'array'):
            return self.declared(t)
        raise Unk('symbol %s' % (t.a[0],))

    def s_conv(self, t):
        return self.declared(t.a[1])

    def s_ext(self, t):
        if t.a[0] in ('numpy.ma.masked', 'numpy.ma.nomask', 'numpy.nan', 'numpy.inf'):
            return ()
        raise Unk('external %s' % t.a[0])

    def s_phi(self, t):
        c = self.truth(t.a[0])
        if c is not None:
            return self.sh(t.a[1] if c else t.a[2])
        out = []
        for x in t.a[1:3]:
            if x.op == 'unk' or x.op == 'undef':
                continue
            out.append(self.sh(x))
        if len(set(out)) != 1:
            raise Unk('condition %s' % show(t.a[0], 2)[:60])
        return out[0]

    def s_filled(self, t):
        return self.sh(t.a[0])

    s_withattr = s_filled

    def s_store(self, t):
        b = self.sh(t.a[0])
        r = self.basic(b, t.a[1])
        v = self.sh(t.a[2])
        while v and v[0] == 1 and len(v) > len(r):
            v = v[1:]
        try:
            ok = len(v) <= len(r) and broadcast([v, r]) == r
        except Bad:
            ok = False
        if not ok:
            raise Bad('an array of shape %s is stored in a region of shape %s' % (v, r))
        return b

    def s_attr(self, t):
        n = t.a[1]
        if n in ('data', 'mask', '_mask', '_data', 'real', 'imag'):
            return self.sh(t.a[0])
        if n == 'T':
            return self.sh(t.a[0])[::-1]
        if n in ('size', 'ndim', 'fill_value'):
            return ()
        raise Unk('attribute %s' % n)

    def s_bin(self, t):
        return broadcast([self.sh(t.a[1]), self.sh(t.a[2])])

    def s_cmp(self, t):
        return broadcast([self.sh(t.a[1]), self.sh(t.a[2])])

    def s_un(self, t):
        return self.sh(t.a[-1])

    s_neg = s_inv = s_un

    def s_tuple(self, t):
        s = {self.sh(x) for x in t.a}
        if len(s) > 1:
            raise Unk('ragged')
        return (len(t.a),) + (s.pop() if s else ())

    s_list = s_ndlist = s_tuple

    def s_ref(self, t):
        its = self.I.items(t, self.st) if isinstance(self.st.heap.get(t.a[0]), Lst) else None
        if its is not None:
            return self.s_tuple(T('tuple', *its))
        raise Unk('object')

    # ------------------------------------------------------------------------ indexing
    def keys(self, k):
        """Items: ('i',) ('s', slice) ('l', length) ('N',) ('.',)"""
        if k.op == 'ref':
            its = self.I.items(k, self.st)
            if its is None:
                raise Unk('key')
            return self.listed(its)
        if k.op in ('list', 'ndlist'):
            return self.listed(k.a)
        if k.op == 'phi':
            return self.keys(self.branch(k))
        if k.op == 'cat':
            return [y for x in k.a for y in self.keys(x)]
        if k.op == 'call' and k.a[0].op == 'ext' and k.a[0].a[0] == 'builtins.tuple':
            return self.keys(k.a[1][0])
        return [self.item(x) for x in k.a] if k.op == 'tuple' else [self.item(k)]

    def listed(self, its):
        """A list is one index sequence, unless NumPy takes it for a tuple."""
        ks = [self.item(x) for x in its]
        if all(k[0] == 'i' for k in ks):
            return [('l', [k[1] for k in ks])]
        return ks

    def item(self, x):
        if x.op == 'const':
            v = x.a[0]
            if v is None:
                return ('N',)
            if v is Ellipsis:
                return ('.',)
            if isinstance(v, int) and not isinstance(v, bool):
                return ('i', v)
        if x.op == 'slice':
            return ('s', self.slice(x))
        if x.op == 'ext' and x.a[0] == 'numpy.newaxis':
            return ('N',)
        if x.op in ('tuple', 'list', 'ndlist', 'elems'):
            if x.op == 'elems' and len(x.a) == 1 and isinstance(x.a[0], T):
                return self.item(x.a[0])
            return ('l', [self.num(y) for y in x.a])
        if x.op == 'ref':
            its = self.I.items(x, self.st)
            if its is not None:
                return ('l', [self.num(y) for y in its])
        if x.op == 'sym':
            info = self.I.info(x)
            if info.get('truth') is not None:
                return ('b', info['truth'])
            if info.get('items') is not None:
                return ('l', [self.num(y) for y in info['items']])
        if x.op == 'phi':
            return self.item(self.branch(x))
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in (
                'numpy.array', 'numpy.asarray', 'builtins.tuple', 'builtins.list',
                'numpy.flatnonzero') and x.a[1]:
            return self.nonzero(x.a[1][0]) if x.a[0].a[0].endswith('nonzero') else \
                self.item(x.a[1][0])
        if x.op == 'sub' and x.a[1].op == 'const' and x.a[1].a[0] == 0 and x.a[0].op == 'call':
            f, args = x.a[0].a[:2]
            if f.op == 'ext' and f.a[0] in ('numpy.nonzero', 'numpy.where') and len(args) == 1:
                return self.nonzero(args[0])
            if f.op == 'bmx' and f.a[1] == 'nonzero':
                return self.nonzero(f.a[0])
        try:
            return ('i', self.num(x))
        except Unk:
            pass
        raise Unk('key %s' % show(x, 2)[:60])

    def nonzero(self, x):
        k = self.item(x)
        if k[0] != 'b':
            raise Unk('key %s' % show(x, 2)[:60])
        return ('l', [i for i, v in enumerate(k[1]) if v])

    def full(self, ks, n):
        used = sum(k[0] not in 'N.' for k in ks)
        if sum(k[0] == '.' for k in ks) > 1 or used > n:
            raise Bad('too many indices')
        out = []
        for k in ks:
            if k[0] == '.':
                out += [('s', slice(None))] * (n - used)
            else:
                out.append(k)
        if not any(k[0] == '.' for k in ks):
            out += [('s', slice(None))] * (n - used)
        return out

    def one(self, k, n):
        """Length of an axis of length n under a key; None when it is gone."""
        if k[0] == 'i':
            if not -n <= k[1] < n:
                raise Bad('index %d of %d' % (k[1], n))
            return None
        if k[0] == 's':
            return len(range(*k[1].indices(n)))
        if k[0] == 'b':
            if len(k[1]) != n:
                raise Bad('a mask of length %d for %d' % (len(k[1]), n))
            return sum(k[1])
        if any(not -n <= i < n for i in k[1]):
            raise Bad('index %s of %d' % (k[1], n))
        return len(k[1])

    def orthogonal(self, shape, key):
        """Indexing of a virtual array."""
        out, a = [], 0
        for k in self.full(self.keys(key), len(shape)):
            if k[0] == 'N':
                out.append(1)
                continue
            n = self.one(k, shape[a])
            a += 1
            if n is not None:
                out.append(n)
        return tuple(out)

    def basic(self, shape, key):
        """Indexing of a NumPy array."""
        ks = self.full(self.keys(key), len(shape))
        if not any(k[0] in 'lb' for k in ks):
            return self.orthogonal_items(shape, ks)
        out, a, adv, place, runs, was = [], 0, [], None, 0, False
        for k in ks:
            if k[0] == 'N':
                out.append(1)
                was = False
                continue
            n = self.one(k, shape[a])
            a += 1
            if k[0] in 'ilb':
                if not was:
                    runs += 1
                was = True
                if place is None:
                    place = len(out)
                if n is not None:
                    adv.append((n,))
            else:
                was = False
                out.append(n)
        b = broadcast(adv)
        place = place if runs == 1 else 0
        return tuple(out[:place]) + b + tuple(out[place:])

    def orthogonal_items(self, shape, ks):
        out, a = [], 0
        for k in ks:
            if k[0] == 'N':
                out.append(1)
                continue
            n = self.one(k, shape[a])
            a += 1
            if n is not None:
                out.append(n)
        return tuple(out)

    def s_sub(self, t):
        x, k = t.a
        if x.op == 'attr' and x.a[1] in ('shape', 'strides'):
            return ()
        if x.op == 'sym' and self.I.info(x).get('kind') == 'array':
            return self.orthogonal(self.declared(x), k)
        if x.op == 'sym' and self.I.info(x).get('kind') == 'concrete' and \
                getattr(self, 'ortho', False):
            return self.orthogonal(self.declared(x), k)
        return self.basic(self.sh(x), k)

    # --------------------------------------------------------------------------- calls
    def arg(self, args, kw, i, name):
        if name in kw:
            return kw[name]
        return args[i] if len(args) > i else None

    def none(self, t):
        return t is None or t.op == 'const' and t.a[0] is None

    def flag(self, t):
        if t is None:
            return False
        if t.op == 'const':
            return bool(t.a[0])
        raise Unk('flag')

    def s_call(self, t):
        f, args, kw = t.a[0], list(t.a[1]), dict(t.a[2])
        if f.op == 'ext':
            return self.np_call(f.a[0], args, kw, t)
        if f.op == 'bmx':
            if f.a[0].op == 'ext' and f.a[0].a[0].startswith('numpy.'):
                return self.np_call(f.a[0].a[0] + '.' + f.a[1], args, kw, t)
            return self.np_method(f.a[1], f.a[0], args, kw, t)
        raise Unk('call of %s' % show(f, 1)[:50])

    def axis(self, t, n):
        i = self.num(t)
        if not -n <= i < n:
            raise Bad('axis %d of %d' % (i, n))
        return i % n

    def reduce(self, x, ax, keep):
        s = self.sh(x)
        if self.none(ax):
            return (1,) * len(s) if keep else ()
        try:
            axes = {self.axis(ax, len(s))}
        except Unk:
            axes = {i % max(len(s), 1) for i in self.seq(ax)}
        return tuple(1 if i in axes else n for i, n in enumerate(s) if keep or i not in axes)

    def np_call(self, name, args, kw, t):
        if not name.startswith('numpy.'):
            raise Unk('call of %s' % name)
        n = name.split('.')[-1]
        if name in ('numpy.lib.stride_tricks.as_strided',):
            sh = self.arg(args, kw, 1, 'shape')
            st = self.arg(args, kw, 2, 'strides')
            r = self.dims(sh) if sh is not None else self.sh(args[0])
            if st is not None and len(self.seq(st)) != len(r):
                raise Bad('%d strides for %d axes' % (len(self.seq(st)), len(r)))
            return r
        if n in ('broadcast_to',):
            r = self.dims(self.arg(args, kw, 1, 'shape'))
            if broadcast([self.sh(args[0]), r]) != r:
                raise Bad('shape %s is broadcast to %s' % (self.sh(args[0]), r))
            return r
        if n in MAKE:
            return self.dims(self.arg(args, kw, 0, 'shape'))
        if n in ('MaskedArray', 'masked_array', 'array') and name.startswith('numpy.ma'):
            s = self.sh(args[0])
            m = self.arg(args, kw, 1 if n != 'array' else 99, 'mask')
            if not self.none(m):
                self.maskfits(s, m)
            return self.ndmin(s, kw)
        if n in SAME and args:
            return self.ndmin(self.sh(args[0]), kw)
        if n == 'masked_where':
            return self.sh(args[1])
        if n == 'where' and len(args) == 3:
            return broadcast([self.sh(x) for x in args])
        if n == 'copyto':
            raise Unk(n)
        if n in MODEL['ufuncs'] or name in MODEL['types'] and n not in REDUCE:
            xs = [self.sh(x) for x in args]
            return broadcast(xs)
        if n in ('reduce',):
            ax = self.arg(args, kw, 1, 'axis')
            return self.reduce(args[0], const(0) if ax is None else ax,
                               self.flag(kw.get('keepdims')))
        if n in REDUCE:
            return self.reduce(args[0], self.arg(args, kw, 1, 'axis'),
                               self.flag(kw.get('keepdims')))
        if n in ('transpose', 'rollaxis', 'moveaxis', 'swapaxes', 'squeeze', 'expand_dims',
                 'reshape', 'ravel', 'take', 'compress', 'atleast_1d'):
            return self.np_method(n, args[0], args[1:], kw, t)
        if n in ('concatenate', 'stack', 'hstack', 'vstack'):
            return self.join(n, args, kw)
        raise Unk('call of %s' % name)

    def maskfits(self, s, m):
        if m.op == 'phi':
            # np.ma.nomask or an array
            for x in m.a[1:3]:
                self.maskfits(s, x)
            return
        if m.op in ('const', 'ext') or m.op == 'attr' and m.a[1] == 'mask':
            # May be nomask
            return
        r = self.sh(m)
        size = lambda q: __import__('functools').reduce(lambda a, b: a * b, q, 1)  # noqa
        if size(r) not in (1, size(s)):
            raise Bad('a mask of shape %s for data of shape %s' % (r, s))

    def ndmin(self, s, kw):
        if kw.get('ndmin') is not None:
            n = self.num(kw['ndmin'])
            return (1,) * (n - len(s)) + s
        return s

    def join(self, n, args, kw):
        x = args[0]
        items = x.a if x.op in ('tuple', 'list') else self.I.items(x, self.st)
        if not items:
            raise Unk('call of %s' % n)
        ss = [self.sh(y) for y in items]
        ax = self.arg(args, kw, 1, 'axis')
        if n == 'concatenate':
            a = self.axis(ax, len(ss[0])) if ax is not None else 0
            if len({s[:a] + s[a + 1:] for s in ss}) > 1 or len({len(s) for s in ss}) > 1:
                raise Bad('shapes %s are concatenated' % (ss,))
            return ss[0][:a] + (sum(s[a] for s in ss),) + ss[0][a + 1:]
        if n == 'stack':
            a = self.axis(ax, len(ss[0]) + 1) if ax is not None else 0
            if len(set(ss)) > 1:
                raise Bad('shapes %s are stacked' % (ss,))
            return ss[0][:a] + (len(ss),) + ss[0][a:]
        raise Unk('call of %s' % n)

    def np_method(self, n, x, args, kw, t):
        s = self.sh(x)
        if n in ('astype', 'filled', 'copy', 'view', '__array__', 'conj', 'conjugate', 'clip',
                 'round', 'cumsum', '__copy__', '__deepcopy__', 'byteswap', 'newbyteorder',
                 'harden_mask', 'soften_mask'):
            return s
        if n in REDUCE:
            return self.reduce(x, self.arg(args, kw, 0, 'axis'), self.flag(kw.get('keepdims')))
        if n == 'transpose':
            ax = kw.get('axes', args[0] if len(args) == 1 else
                        T('tuple', *args) if args else None)
            if self.none(ax):
                return s[::-1]
            p = self.seq(ax)
            if None in p:
                raise Unk('permutation')
            if sorted(i % max(len(s), 1) for i in p) != list(range(len(s))):
                raise Bad('transposition %s of shape %s' % (p, s))
            return tuple(s[i] for i in p)
        if n == 'squeeze':
            ax = self.arg(args, kw, 0, 'axis')
            if self.none(ax):
                return tuple(d for d in s if d != 1)
            try:
                axes = {self.axis(ax, len(s))}
            except Unk:
                axes = {i % max(len(s), 1) for i in self.seq(ax)}
            if any(s[i] != 1 for i in axes):
                raise Bad('squeeze of axis %s of shape %s' % (sorted(axes), s))
            return tuple(d for i, d in enumerate(s) if i not in axes)
        if n == 'expand_dims':
            i = self.axis(self.arg(args, kw, 0, 'axis'), len(s) + 1)
            return s[:i] + (1,) + s[i:]
        if n == 'swapaxes':
            a, b = (self.axis(y, len(s)) for y in args[:2])
            s = list(s)
            s[a], s[b] = s[b], s[a]
            return tuple(s)
        if n in ('rollaxis', 'moveaxis'):
            a = self.axis(args[0], len(s))
            b = args[1] if len(args) > 1 else kw.get('start')
            b = 0 if b is None else self.num(b)
            d = s[a]
            s = s[:a] + s[a + 1:]
            if b < 0:
                b += len(s) + 1
            if n == 'rollaxis' and b > a:
                b -= 1
            return s[:b] + (d,) + s[b:]
        if n in ('reshape',):
            r = self.dims(args[0] if len(args) == 1 else T('tuple', *args))
            size = 1
            for d in s:
                size *= d
            if -1 in r:
                rest = 1
                for d in r:
                    rest *= d if d != -1 else 1
                if not rest or size % rest:
                    raise Bad('shape %s is reshaped to %s' % (s, r))
                r = tuple(size // rest if d == -1 else d for d in r)
            have = 1
            for d in r:
                have *= d
            if have != size:
                raise Bad('shape %s is reshaped to %s' % (s, r))
            return r
        if n in ('ravel', 'flatten'):
            size = 1
            for d in s:
                size *= d
            return (size,)
        if n == 'atleast_1d':
            return s or (1,)
        if n in ('take', 'compress'):
            if n == 'compress':
                raise Unk(n)
            ax = self.arg(args, kw, 1, 'axis')
            if self.none(ax):
                raise Unk('take')
            i = self.axis(ax, len(s))
            k = self.item(args[0])
            if k[0] == 'b':
                # A boolean array is taken as integers.
                k = ('l', [int(v) for v in k[1]])
            m = self.one(k, s[i])
            return s[:i] + (() if m is None else (m,)) + s[i + 1:]
        if n == 'item':
            return ()
        raise Unk('method %s' % n)
