"""The value of one cell of an array expression, as an exact function of the source elements.

An expression over chunks of a source is followed for one generic cell of the result, that
is with the positions on all axes except the aggregated one fixed.  An array that still has
the aggregated axis is then the list of its elements along that axis, any other array is a
single element.  Elements are rational functions of the elements of the source, minima or
maxima of such, square roots, or truth values.

The list along the aggregated axis may end in a `Rest`: arbitrarily many more elements, of
which only the counts, power sums and extremes are known (as symbols).
"""
from fractions import Fraction

from .terms import *      # noqa
from .rat import Rat

K = 'K'                    # label of the aggregated axis
F0, F1 = Rat(0), Rat(1)


class Unk(Exception):
    """Not understood."""


class Wrong(Exception):
    """Definitely not the statistic along the requested axis."""


class Root(object):
    def __init__(self, q):
        self.q = q

    def __repr__(self):
        return 'sqrt(%r)' % self.q


class Ext(object):
    """The minimum or maximum of a set of rational functions."""
    def __init__(self, op, items):
        self.op, self.items = op, items      # {key: Rat}

    def __repr__(self):
        return '%s{%s}' % (self.op, ', '.join(sorted(map(repr, self.items.values()))))


class Any_(object):
    """Some value of which nothing is known, with what it came from."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<%s>' % self.why


def is_ext(v):
    return isinstance(v, Ext)


class Cell(object):
    __slots__ = ('v', 'm')

    def __init__(self, v, m=False):
        self.v, self.m = v, m

    def __repr__(self):
        return '%s%r' % ('masked ' if self.m else '', self.v)


class Rest(object):
    """`nu` unmasked elements with value `u`, `nm` masked ones with value `w` (cells).

    In `u` the symbol `xi` stands for the source element, whose power sums over the rest
    are `p` and whose extremes are `lo` and `hi`."""
    def __init__(self, xi, nu, nm, p, lo, hi, u, w):
        self.xi, self.nu, self.nm, self.p, self.lo, self.hi = xi, nu, nm, p, lo, hi
        self.u, self.w = u, w

    def map(self, f):
        return Rest(self.xi, self.nu, self.nm, self.p, self.lo, self.hi,
                    f(self.u) if self.u is not None else None,
                    f(self.w) if self.w is not None else None)


class Arr(object):
    """axes: labels; cells: along K, or the one cell."""
    def __init__(self, axes, cells, kind='nd', dt='float', sel=None, flat=None, ids=None):
        self.axes, self.cells = tuple(axes), list(cells)
        self.kind, self.dt, self.sel, self.flat = kind, dt, sel, flat

    @property
    def col(self):
        return K in self.axes

    def like(self, cells, **kw):
        d = dict(axes=self.axes, kind=self.kind, dt=self.dt, sel=self.sel, flat=self.flat)
        d.update(kw)
        return Arr(d['axes'], cells, d['kind'], d['dt'], d['sel'], d['flat'])

    def map(self, f, **kw):
        return self.like([c.map(f) if isinstance(c, Rest) else f(c) for c in self.cells], **kw)

    def __repr__(self):
        return '%s%r%r' % (self.kind, self.axes, self.cells)


class Sc(object):
    """A scalar."""
    def __init__(self, v, dt=None):
        self.v, self.dt = v, dt

    def __repr__(self):
        return 'scalar %r' % (self.v,)


class Shape(object):
    def __init__(self, axes, arr=None):
        self.axes, self.arr = tuple(axes), arr


class Dt(object):
    def __init__(self, k):
        self.k = k


class Sl(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def num(v):
    if isinstance(v, bool):
        return F1 if v else F0
    return v


def extreme(op, vals):
    items = {}
    for v in vals:
        v = num(v)
        if isinstance(v, Ext):
            if v.op != op:
                if len(v.items) != 1:
                    raise Unk('minimum of a maximum')
            items.update(v.items)
        elif isinstance(v, Rat):
            items[v.key()] = v
        elif isinstance(v, Any_):
            return v
        else:
            raise Unk('extreme of %r' % (v,))
    if len(items) > 1:
        cs = [(k, r.const()) for k, r in items.items()]
        cs = [(k, c) for k, c in cs if c is not None]
        if len(cs) > 1:
            best = (min if op == 'min' else max)(cs, key=lambda x: x[1])
            for k, c in cs:
                if k != best[0]:
                    del items[k]
    if len(items) == 1:
        return list(items.values())[0]
    return Ext(op, items)


def equal(a, b):
    """True, False or None."""
    a, b = num(a), num(b)
    if isinstance(a, Any_) or isinstance(b, Any_):
        return False
    if isinstance(a, Root) and isinstance(b, Root):
        return a.q.equals(b.q)
    if isinstance(a, Root) or isinstance(b, Root):
        r, o = (a, b) if isinstance(a, Root) else (b, a)
        if isinstance(o, Rat):
            if not r.q.n and not o.n:
                return True
            return False if not (o * o).equals(r.q) else None
        return None
    if is_ext(a) and is_ext(b):
        if a.op == b.op:
            return set(a.items) == set(b.items)
        return False
    if is_ext(a) or is_ext(b):
        return False
    return a.equals(b)


INTISH = ('src', 'int', 'bool', 'narrow')
NARROW = ('b', 'B', 'h', 'H', 'i1', 'u1', 'i2', 'u2', 'int8', 'uint8', 'int16', 'uint16', 'byte',
          'ubyte', 'short', 'ushort')


class Eval(object):
    def __init__(self, I, env, loops=None, axis=0, rank=2):
        self.I, self.env = I, dict(env)      # sid -> value
        self.memo = {}
        self.loops = I.loops if loops is None else loops
        self.axis, self.rank = axis, rank
        self.rest_loop = None                # how loops over a Rest are summarised
        self.garbage = 0
        self.faults = []                     # integer storage truncating or wrapping around
        self.stack = []

    # ------------------------------------------------------------------ driver
    def ev(self, t):
        if t.sid in self.env and t.op != 'idx':
            return self.env[t.sid]
        if t.sid in self.memo:
            r = self.memo[t.sid]
            if r is None:
                raise Unk('cyclic')
            return r
        f = getattr(self, 't_' + t.op, None)
        if f is None:
            raise Unk('term %s' % show(t, 2)[:80])
        r = f(t)
        self.memo[t.sid] = r
        return r

    def fresh(self, why):
        self.garbage += 1
        return Any_('%s' % why)

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, Sc):
            v = v.v
        elif isinstance(v, Arr) and not v.axes and len(v.cells) == 1 and not v.cells[0].m:
            v = v.cells[0].v
        else:
            raise Unk('truth of %s' % show(t, 2)[:60])
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Rat):
            s = v.signs()
            if s == {0}:
                return False
            if 0 not in s:
                return True
        raise Unk('truth of %r' % (v,))

    # ------------------------------------------------------------------- atoms
    def t_const(self, t):
        v = t.a[0]
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return Sc(v, 'bool' if isinstance(v, bool) else None)
        if isinstance(v, int):
            return Sc(Rat(v), 'int')
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return Sc(Any_('constant %r' % v), 'float')
            return Sc(Rat(Fraction(v)), 'float')
        raise Unk('constant')

    def t_tuple(self, t):
        vals = []
        for x in t.a:
            vals.append(self.ev_item(x))
        return tuple(vals)

    t_list = t_tuple

    def ev_item(self, x):
        if x.op == 'sym':
            if x.sid in self.env:
                return self.env[x.sid]
            raise Unk('symbol %s' % x.a[0])
        return self.ev(x)

    def t_ref(self, t):
        raise Unk('object')

    def t_sym(self, t):
        raise Unk('symbol %s' % (t.a[0],))

    def t_slice(self, t):
        return Sl(*[self.ev(x) for x in t.a])

    def t_ext(self, t):
        n = t.a[0]
        if n in ('numpy.ma.nomask',):
            return Sc(False, 'bool')
        if n in ('builtins.float', 'numpy.float64', 'numpy.float_'):
            return Dt('float')
        if n in ('builtins.bool', 'numpy.bool_'):
            return Dt('bool')
        if n in ('builtins.int', 'numpy.int64', 'numpy.int_', 'numpy.intp'):
            return Dt('int')
        raise Unk('external %s' % n)

    def t_phi(self, t):
        return self.ev(t.a[1] if self.truth(t.a[0]) else t.a[2])

    def t_and(self, t):
        for x in t.a:
            if not self.truth(x):
                return Sc(False, 'bool')
        return Sc(True, 'bool')

    def t_or(self, t):
        for x in t.a:
            if self.truth(x):
                return Sc(True, 'bool')
        return Sc(False, 'bool')

    def t_not(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, Arr):
            return self.map1(v, self.inv)
        return Sc(not self.truth(t.a[0]), 'bool')

    def t_invert(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, Arr):
            return self.map1(v, self.inv)
        if isinstance(v, Sc) and isinstance(v.v, bool):
            return Sc(not v.v, 'bool')
        raise Unk('invert')

    def inv(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Any_):
            return v
        raise Unk('invert %r' % (v,))

    def t_neg(self, t):
        return self.arith('-', Sc(F0, 'int'), self.ev(t.a[0]))

    def t_withattr(self, t):
        o, n, val = t.a[0], t.a[1], t.a[2]
        v = self.ev(o)
        if not isinstance(v, Arr):
            raise Unk('attribute of %r' % (v,))
        if n == 'fill_value':
            return v
        if n == 'mask':
            if v.kind != 'ma':
                raise Unk('mask of a plain array')
            m = self.ev(val)
            m = self.broadcast(m, v)
            return self.zip2(v, m, lambda a, b: Cell(a.v, self.bool_(b.v)))
        if n == 'shape':
            return self.reshape(v, self.shape(val))
        raise Unk('attribute %s' % n)

    def bool_(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Rat) and v.const() is not None:
            return v.const() != 0
        raise Unk('mask value %r' % (v,))

    # ------------------------------------------------------------------ shapes
    def shape(self, t):
        """Axis labels of a shape term."""
        if isinstance(t, T):
            if t.op == 'tuple':
                axes = []
                for x in t.a:
                    lab = self.env.get(('axis', x.sid))
                    if lab is None:
                        v = self.ev(x)
                        if isinstance(v, Sc) and isinstance(v.v, Rat) and v.v.const() == 1:
                            lab = '1'
                        else:
                            raise Unk('shape %s' % show(t, 3)[:60])
                    axes.append(lab)
                return Shape(axes)
            if t.op == 'phi':
                return self.shape(t.a[1] if self.truth(t.a[0]) else t.a[2])
            lab = self.env.get(('axis', t.sid))
            if lab is not None:
                return Shape([lab])
            if t.op == 'attr' and t.a[1] == 'shape':
                v = self.ev(t.a[0])
                if isinstance(v, Arr):
                    return Shape(v.axes, v)
            if t.op == 'attr' and t.a[1] == 'size':
                v = self.ev(t.a[0])
                if isinstance(v, Arr) and not v.col:
                    return Shape(['F'], v)
            raise Unk('shape %s' % show(t, 3)[:60])
        raise Unk('shape')

    def reshape(self, v, sh):
        if sh.axes == v.axes:
            return v
        if v.flat is not None and sh.axes == v.flat:
            return v.like(v.cells, axes=sh.axes, flat=None)
        if v.flat is not None and sorted(sh.axes) == sorted(v.flat) and len(sh.axes) > 1:
            raise Wrong('reshapes flattened elements to permuted axes')
        raise Unk('reshape')

    # ----------------------------------------------------------- elementwise
    def map1(self, a, f, **kw):
        def g(c):
            return Cell(f(c.v), c.m)
        return a.map(g, **kw)

    def broadcast(self, x, to):
        """x against the axes of `to`."""
        if isinstance(x, (Sc, Root)):
            v = x.v
            return to.map(lambda c: Cell(v, False), kind='nd', dt=x.dt)
        return x

    def align(self, a, b):
        """Two operands brought to common axes."""
        if isinstance(a, Sc) and isinstance(b, Sc):
            return a, b
        if isinstance(a, Sc):
            return self.broadcast(a, b), b
        if isinstance(b, Sc):
            return a, self.broadcast(b, a)
        if a.sel != b.sel:
            if a.sel is None and a.axes == () or b.sel is None and b.axes == ():
                pass
            else:
                raise Unk('selections differ')
        if a.axes == b.axes:
            if a.col:
                la, lb = len(a.cells), len(b.cells)
                if la != lb:
                    if lb == 1 and not isinstance(b.cells[0], Rest):
                        return a, self.stretch(b, a)
                    if la == 1 and not isinstance(a.cells[0], Rest):
                        return self.stretch(a, b), b
                    raise Unk('lengths differ')
            return a, b
        # trailing axes
        x, y = (a, b) if len(a.axes) > len(b.axes) else (b, a)
        n = len(y.axes)
        if n < len(x.axes) and x.axes[len(x.axes) - n:] == y.axes:
            if x.col and not y.col:
                y = self.stretch(y.like(y.cells, axes=x.axes), x)
            elif x.col:
                raise Unk('broadcast')
            else:
                y = y.like(y.cells, axes=x.axes)
            return (x, y) if x is a else (y, x)
        if n == len(x.axes) and any(p != q for p, q in zip(x.axes, y.axes)):
            raise Wrong('combines arrays with axes %s and %s' % (a.axes, b.axes))
        raise Unk('broadcast %s %s' % (a.axes, b.axes))

    def stretch(self, a, to):
        c = a.cells[0]
        return a.like([(r.map(lambda _: Cell(c.v, c.m)) if isinstance(r, Rest)
                        else Cell(c.v, c.m)) for r in to.cells])

    def zip2(self, a, b, f, **kw):
        a, b = self.align(a, b)
        out = []
        for x, y in zip(a.cells, b.cells):
            if isinstance(x, Rest) or isinstance(y, Rest):
                if not (isinstance(x, Rest) and isinstance(y, Rest)):
                    raise Unk('rest')
                if x.xi != y.xi:
                    raise Unk('two rests')
                out.append(Rest(x.xi, x.nu, x.nm, x.p, x.lo, x.hi,
                                f(x.u, y.u) if x.u is not None else None,
                                f(x.w, y.w) if x.w is not None else None))
            else:
                out.append(f(x, y))
        d = dict(axes=a.axes, kind='ma' if 'ma' in (a.kind, b.kind) else 'nd',
                 dt=a.dt, sel=a.sel or b.sel, flat=a.flat or b.flat)
        d.update(kw)
        return Arr(d['axes'], out, d['kind'], d['dt'], d['sel'], d['flat'])

    def value(self, op, a, b):
        """The operation on two element values."""
        if isinstance(a, Any_) or isinstance(b, Any_):
            if op == '*' and ((isinstance(a, Rat) and not a.n) or
                              (isinstance(b, Rat) and not b.n)):
                pass
            return a if isinstance(a, Any_) else b
        if op in ('&', '|', '^') and isinstance(a, bool) and isinstance(b, bool):
            return {'&': a and b, '|': a or b, '^': a != b}[op]
        if op in ('+', '*') and isinstance(a, bool) and isinstance(b, bool):
            # numpy: logical or / and of truth values
            return (a or b) if op == '+' else (a and b)
        a, b = num(a), num(b)
        if isinstance(a, Root) or isinstance(b, Root):
            if op == '*' and isinstance(a, Root) and isinstance(b, Root):
                if a.q.equals(b.q):
                    return a.q
                return Root(a.q * b.q)
            if op == '/' and isinstance(a, Root) and isinstance(b, Root):
                return Root(a.q / b.q)
            if op == '**' and isinstance(a, Root) and isinstance(b, Rat) and b.const() == 2:
                return a.q
            raise Unk('root %s' % op)
        if not (isinstance(a, Rat) and isinstance(b, Rat)):
            raise Unk('%r %s %r' % (a, op, b))
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            s = b.signs()
            if s == {0}:
                return Any_('division by zero')
            if 0 in s and not b.symbols():
                raise Unk('division')
            return a / b
        if op == '**':
            c = b.const()
            if c is not None and c.denominator == 1 and 0 <= c <= 4:
                r = F1
                for _ in range(int(c)):
                    r = r * a
                return r
            if c == Fraction(1, 2):
                return Root(a)
            raise Unk('power')
        if op in ('//', '%'):
            c, d = a.const(), b.const()
            if c is not None and d is not None and d:
                return Rat(c // d if op == '//' else c % d)
            return Any_('integer division')
        raise Unk('operator ' + op)

    def compare(self, op, a, b):
        a, b = num(a), num(b)
        if isinstance(a, Any_) or isinstance(b, Any_):
            return Any_('comparison')
        if not (isinstance(a, Rat) and isinstance(b, Rat)):
            raise Unk('comparison of %r and %r' % (a, b))
        s = (a - b).signs()
        ok = {'==': {0}, '<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1},
              '!=': {-1, 1}}[op]
        if s <= ok:
            return True
        if not s & ok:
            return False
        raise Unk('%r %s %r' % (a, op, b))

    def restype(self, op, a, b):
        """Storage class of the result of an operation."""
        x, y = a.dt, b.dt
        if op in ('==', '<', '<=', '>', '>=', '!='):
            return 'bool'
        if op == '/':
            return 'float'
        ks = {x, y}
        if 'float' in ks:
            return 'float'
        for sc, o in ((a, b), (b, a)):
            if isinstance(sc, Sc) and not isinstance(o, Sc):
                return o.dt if o.dt != 'bool' or sc.dt == 'bool' else (sc.dt or o.dt)
        if 'src' in ks:
            return 'src' if ks <= {'src', 'bool'} else 'wide'
        if 'wide' in ks:
            return 'wide'
        if ks == {'bool'}:
            return 'bool'
        return 'int'

    def arith(self, op, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            return Sc(self.value(op, a.v, b.v), self.restype(op, a, b))
        dt = self.restype(op, a, b)
        if dt == 'src' and op in ('+', '-', '*', '**'):
            self.faults.append('%s in the integer type of the source' % op)
        dom = op in ('/', '//', '%')
        ma = 'ma' in (getattr(a, 'kind', ''), getattr(b, 'kind', ''))

        def f(x, y):
            m = x.m or y.m
            if not m and dom and ma:
                try:
                    z = self.compare('==', y.v, F0)
                except Unk:
                    z = False
                if z is True:
                    return Cell(x.v, True)
            if m:
                return Cell(x.v, True)
            return Cell(self.value(op, x.v, y.v), False)
        return self.zip2(a, b, f, dt=dt)

    def t_bin(self, t):
        op = t.a[0]
        a, b = self.ev(t.a[1]), self.ev(t.a[2])
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unk('sequence arithmetic')
        for x in (a, b):
            if not isinstance(x, (Arr, Sc)):
                raise Unk('operand %r' % (x,))
        if op.endswith('=') and op not in ('==', '<=', '>=', '!='):
            return self.inplace(op[:-1], a, b)
        return self.arith(op, a, b)

    def inplace(self, op, a, b):
        if not isinstance(a, Arr):
            return self.arith(op, a, b)
        if isinstance(b, Arr) and len(b.axes) > len(a.axes):
            raise Unk('in-place broadcast')
        if a.dt in INTISH and (op == '/' or (isinstance(b, (Arr, Sc)) and b.dt == 'float' and
                                             self.fractional(b))):
            self.faults.append('in-place %s= on an integer array' % op)
        if a.dt == 'narrow' and op in ('+', '-', '*'):
            self.faults.append('%s= in an integer type of a few bits' % op)
        if a.dt == 'src' and op in ('+', '-', '*'):
            self.faults.append('%s= in the integer type of the source' % op)

        def f(x, y):
            if a.kind == 'ma':
                if x.m or y.m:
                    return Cell(x.v, True)
            return Cell(self.value(op, x.v, y.v), False)
        return self.zip2(a, b, f, kind=a.kind, dt=a.dt)

    def fractional(self, b):
        cells = b.cells if isinstance(b, Arr) else [Cell(b.v)]
        for c in cells:
            for x in ((c.u, c.w) if isinstance(c, Rest) else (c,)):
                if x is None:
                    continue
                v = num(x.v)
                if isinstance(v, Root):
                    return True
                if isinstance(v, Rat) and (v.d != {(): 1} or
                                           any(q.denominator != 1 for q in v.n.values())):
                    return True
        return False

    def t_cmp(self, t):
        op = t.a[0]
        if op == 'is':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const' and y.a[0] is None:
                    v = self.ev(x)
                    return Sc(isinstance(v, Sc) and v.v is None, 'bool')
                if y.op == 'ext' and y.a[0] == 'numpy.ma.nomask':
                    raise Unk('nomask')
            raise Unk('identity')
        a, b = self.ev(t.a[1]), self.ev(t.a[2])
        return self.cmp(op, a, b)

    def cmp(self, op, a, b):
        for x in (a, b):
            if not isinstance(x, (Arr, Sc)):
                if op == '==' and isinstance(a, tuple) and isinstance(b, tuple):
                    raise Unk('sequence comparison')
                raise Unk('comparison')
        if isinstance(a, Sc) and isinstance(b, Sc):
            if isinstance(a.v, str) or isinstance(b.v, str) or a.v is None or b.v is None:
                return Sc(a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v), 'bool')
            return Sc(self.compare(op, a.v, b.v), 'bool')
        return self.zip2(a, b, lambda x, y: Cell(self.compare(op, x.v, y.v), x.m or y.m),
                         dt='bool')

    # -------------------------------------------------------------- selections
    def t_store(self, t):
        old, k, val = self.ev(t.a[0]), self.key(t.a[1]), self.ev(t.a[2])
        if not isinstance(old, Arr):
            raise Unk('store')
        if isinstance(k, Arr) and k.dt == 'bool':
            if k.axes != old.axes or old.col:
                raise Unk('mask store')
            if isinstance(val, Arr) and val.sel is not None and val.sel != t.a[1].sid:
                raise Unk('selections differ')
            m = self.bool_(k.cells[0].v)
            if not m:
                return old
            c = Cell(val.v) if isinstance(val, Sc) else val.cells[0]
            if isinstance(val, Arr) and val.sel is None and val.axes not in ((), old.axes):
                raise Unk('mask store')
            if isinstance(val, Arr) and val.sel is None and val.axes != ():
                raise Unk('assigns unselected elements')
            if old.dt in INTISH and self.fractional(val):
                self.faults.append('stores fractions in an integer array')
            return old.like([Cell(c.v, c.m if old.kind == 'ma' else False)])
        if isinstance(k, (Sl, tuple)) or (isinstance(k, Sc) and k.v is None):
            ks = k if isinstance(k, tuple) else (k,)
            if all(self.full(x) for x in ks):
                val = self.broadcast(val, old)
                if not isinstance(val, Arr) or val.axes != old.axes:
                    raise Unk('store')
                if old.dt in INTISH and self.fractional(val):
                    self.faults.append('stores fractions in an integer array')
                return self.zip2(old, val, lambda a, b: Cell(
                    b.v, b.m if old.kind == 'ma' else False), kind=old.kind, dt=old.dt)
        raise Unk('store')

    def full(self, x):
        return isinstance(x, Sl) and all(isinstance(y, Sc) and y.v is None
                                         for y in (x.lo, x.hi, x.step)) or \
            (isinstance(x, Sc) and x.v == 'ellipsis')

    def key(self, t):
        if t.op == 'const' and t.a[0] is Ellipsis:
            return Sc('ellipsis')
        if t.op == 'tuple':
            return tuple(self.key(x) for x in t.a)
        return self.ev(t)

    def t_sub(self, t):
        if t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' or \
                (t.a[0].op == 'sym' and self.I.info(t.a[0]).get('kind') == 'shape'):
            sh = self.shape(t.a[0])
            k = self.ev(t.a[1])
            if isinstance(k, Sc) and isinstance(k.v, Rat) and k.v.const() is not None:
                lab = sh.axes[int(k.v.const())]
                if lab == K and sh.arr is not None:
                    return Sc(self.count(sh.arr.cells), 'int')
            raise Unk('extent')
        if t.a[1].op == 'idx':
            x = self.ev(t.a[0])
            if isinstance(x, Arr):
                if x.axes and x.axes[0] != K and x.col:
                    raise Wrong('selects from axis %s of the chunk' % x.axes[0])
                return self.t_at(t)
        x = self.ev(t.a[0])
        k = self.key(t.a[1])
        if isinstance(x, tuple):
            if isinstance(k, Sc) and isinstance(k.v, Rat) and k.v.const() is not None:
                return x[int(k.v.const())]
            raise Unk('element of a sequence')
        if not isinstance(x, Arr):
            raise Unk('selection')
        if isinstance(k, Arr):
            if k.dt != 'bool' or k.axes != x.axes or x.col:
                raise Unk('selection')
            m = self.bool_(k.cells[0].v)
            c = x.cells[0] if m else Cell(Any_('unselected'), False)
            return x.like([c], sel=t.a[1].sid)
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(y, Sc) and y.v == 'ellipsis' for y in ks):
            i = [j for j, y in enumerate(ks) if isinstance(y, Sc) and y.v == 'ellipsis'][0]
            n = len(x.axes) - (len(ks) - 1)
            none = Sc(None)
            ks = ks[:i] + (Sl(none, none, none),) * n + ks[i + 1:]
        if len(ks) > len(x.axes):
            raise Unk('new axes')
        axes = []
        cells = x.cells
        for i, lab in enumerate(x.axes):
            y = ks[i] if i < len(ks) else None
            if y is None or self.full(y):
                axes.append(lab)
                continue
            if isinstance(y, Arr):
                raise Unk('selection')
            if lab != K:
                raise Wrong('selects from axis %s of the chunk instead of the aggregated axis'
                            % lab)
            if isinstance(y, Sc) and isinstance(y.v, Rat) and y.v.const() is not None:
                cells = [self.pick(cells, int(y.v.const()))]
            elif isinstance(y, Sl):
                cells = self.cut(cells, y)
                axes.append(lab)
            else:
                raise Unk('index')
        return x.like(cells, axes=axes)

    def pick(self, cells, i):
        if i >= 0:
            if i < len(cells) and not any(isinstance(c, Rest) for c in cells[:i + 1]):
                return cells[i]
        elif -i <= len(cells) and not any(isinstance(c, Rest) for c in cells[i:]):
            return cells[i]
        if not any(isinstance(c, Rest) for c in cells):
            raise Wrong('takes element %d of %d' % (i, len(cells)))
        raise Unk('element of the rest')

    def cut(self, cells, s):
        def c(x):
            if isinstance(x, Sc) and x.v is None:
                return None
            if isinstance(x, Sc) and isinstance(x.v, Rat) and x.v.const() is not None:
                return int(x.v.const())
            raise Unk('slice bound')
        lo, hi, st = c(s.lo), c(s.hi), c(s.step)
        if not any(isinstance(x, Rest) for x in cells):
            return cells[slice(lo, hi, st)]
        if st in (None, 1) and hi is None and lo is not None and lo >= 0 and \
                not any(isinstance(x, Rest) for x in cells[:lo]):
            return cells[lo:]
        if st in (None, 1) and lo in (None, 0) and hi is not None and hi >= 0 and \
                not any(isinstance(x, Rest) for x in cells[:hi]):
            return cells[:hi]
        raise Unk('slice of the rest')

    def t_at(self, t):
        if t.a[1].sid in self.env and isinstance(self.env[t.a[1].sid], tuple):
            i, inst = self.env[t.a[1].sid]
            x = self.ev(t.a[0])
            if isinstance(x, Arr) and x.axes and x.axes[0] == K:
                if i >= len(x.cells):
                    raise Unk('sequences of different lengths')
                c = x.cells[i]
                if isinstance(c, Rest):
                    if inst is None:
                        raise Unk('element of the rest')
                    c = c.w if inst is True else c.u
                    if c is None:
                        raise Unk('element of the rest')
                    if inst is not True and isinstance(num(c.v), Rat):
                        c = Cell(num(c.v).subst({x.cells[i].xi: inst}), c.m)
                return x.like([c], axes=x.axes[1:])
            if isinstance(x, Arr):
                raise Wrong('iterates over axis %s of the chunk' % (x.axes[:1],))
            if isinstance(x, tuple):
                return x[i]
        raise Unk('element')

    # ------------------------------------------------------------------- loops
    def t_loop(self, t):
        depth, name, init, mu, body, seq = t.a
        if seq.op == 'call' and seq.a[0].op == 'ext' and \
                seq.a[0].a[0] == 'builtins.range' and len(seq.a[1]) == 1 and not seq.a[2]:
            s = self.positions(self.ev(seq.a[1][0]))
        else:
            inner = seq
            while inner.op in ('enum', 'zip') and inner.a:
                inner = inner.a[0]
            s = self.ev(inner)
        if isinstance(s, tuple):
            idxs = list(range(len(s)))
            cells = [None] * len(s)
        elif isinstance(s, Arr):
            if not s.axes or s.axes[0] != K:
                raise Wrong('iterates over axis %s of the chunk' % (s.axes[:1],))
            cells = s.cells
            idxs = list(range(len(cells)))
        else:
            raise Unk('loop')
        slots = self.slots(t)
        vals = {}
        for sid, l in slots.items():
            vals[sid] = self.ev(l.a[2])
        idx = T('idx', depth, seq)
        for i in idxs:
            if isinstance(cells[i], Rest):
                if self.rest_loop is None:
                    raise Unk('loop over the rest')
                if i != len(cells) - 1:
                    raise Unk('rest in the middle')
                vals = self.rest_loop(self, slots, vals, idx, seq, s, i)
            else:
                vals = self.step(slots, vals, idx, i)
        for sid, l in slots.items():
            self.memo[l.sid] = vals[sid]
        return vals[mu.sid]

    def positions(self, n):
        """A chunk which has n elements along the aggregated axis."""
        if isinstance(n, Sc) and isinstance(n.v, Rat):
            for v in self.env.values():
                if isinstance(v, Arr) and v.col and self.count(v.cells).equals(n.v):
                    return v.like(v.cells, axes=(K,))
            if n.v.const() is not None:
                return (None,) * int(n.v.const())
        raise Unk('range')

    def t_idx(self, t):
        v = self.env.get(t.sid)
        if isinstance(v, tuple) and v[1] is None:
            return Sc(Rat(v[0]), 'int')
        raise Unk('position')

    def step(self, slots, vals, idx, i, inst=None):
        """One iteration; inst is the element (True: a masked one) if it is of a rest."""
        e = Eval.__new__(Eval)
        e.__dict__.update(self.__dict__)
        e.env = dict(self.env)
        e.env.update(vals)
        e.env[idx.sid] = (i, inst)
        e.memo = dict(self.memo)
        return {sid: e.ev(l.a[4]) for sid, l in slots.items()}

    def slots(self, t):
        """The variables which the loop carries."""
        seq = t.a[5].sid
        out = {t.a[3].sid: t}
        todo = [t]
        while todo:
            l = todo.pop()
            for x in free_mus(l.a[4], t.a[0]):
                if x.sid not in out:
                    o = self.loops.get((x.sid, seq))
                    if o is None or o is False:
                        raise Unk('loop variable %s' % (x.a[1],))
                    out[x.sid] = o
                    todo.append(o)
        return out

    def t_mu(self, t):
        raise Unk('loop variable %s' % (t.a[1],))

    # -------------------------------------------------------------- attributes
    def t_attr(self, t):
        n = t.a[1]
        if n == 'dtype':
            return self.dtype(t)
        v = self.ev(t.a[0])
        if isinstance(v, Arr):
            if n == 'ndim':
                return Sc(Rat(len(v.axes)), 'int')
            if n == 'size' and v.col and len(v.axes) == 1:
                return Sc(self.count(v.cells), 'int')
            if n == 'mask' and v.kind == 'ma':
                return v.map(lambda c: Cell(c.m, False), kind='nd', dt='bool')
            if n in ('data',) and v.kind == 'ma':
                return v.map(lambda c: Cell(c.v, False), kind='nd')
            if n == 'T':
                if len(v.axes) < 2:
                    return v
                return v.like(v.cells, axes=v.axes[::-1])
            if n == 'shape':
                return Shape(v.axes, v)
        raise Unk('attribute %s' % n)

    def dtype(self, t):
        if t is None:
            return None
        if t.op == 'attr' and t.a[1] == 'dtype':
            if t.a[0].op == 'sym' and t.a[0].sid not in self.env:
                return Dt('src')
            return Dt(self.ev(t.a[0]).dt)
        if t.sid in self.env and isinstance(self.env[t.sid], Dt):
            return self.env[t.sid]
        if t.op == 'sym' and self.I.info(t).get('kind') == 'dtype':
            return Dt('src')
        if t.op == 'const':
            v = t.a[0]
            if v is None:
                return Dt('float')
            if isinstance(v, str):
                if v.lstrip('<>=|') in NARROW:
                    return Dt('narrow')
                return Dt('float' if v[-1:] in 'fdg' or v.startswith(('f', '<f', '>f'))
                          else 'bool' if v in ('?', 'b1', 'bool') else
                          'int' if v[:1] in 'iulqhIULQHbB' or v[1:2] in 'iu' else 'other')
        if t.op == 'ext':
            n = t.a[0].split('.')[-1]
            if n.startswith('float') or n == 'double':
                return Dt('float')
            if n in NARROW:
                return Dt('narrow')
            if n.startswith(('int', 'uint')) or n == 'long':
                return Dt('int')
            if n.startswith('bool'):
                return Dt('bool')
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.dtype':
            return self.dtype(t.a[1][0])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'numpy.result_type':
            ks = [self.dtype(x).k for x in t.a[1]]
            return Dt('float' if 'float' in ks else 'src' if 'src' in ks else ks[0])
        if t.op == 'phi':
            return self.dtype(t.a[1] if self.truth(t.a[0]) else t.a[2])
        raise Unk('dtype %s' % show(t, 3)[:60])

    # ------------------------------------------------------------------- calls
    def t_call(self, t):
        f, args, kw = t.a[:3]
        kw = dict(kw)
        if f.op == 'bmx':
            return self.method(f.a[1], f.a[0], list(args), kw, t)
        if f.op != 'ext':
            raise Unk('call')
        n = f.a[0]
        if not n.startswith(('numpy.', 'builtins.')):
            raise Unk('call of %s' % n)
        return self.func(n, list(args), kw, t)

    def func(self, n, args, kw, t):
        ma = n.startswith('numpy.ma.')
        s = n.split('.')[-1]
        if 'out' in kw and not (kw['out'].op == 'const' and kw['out'].a[0] is None):
            raise Unk('out')
        if s in ('zeros', 'ones', 'empty', 'full') and not n.startswith('builtins'):
            sh = args[0] if args else kw.get('shape')
            if s == 'full':
                v = self.ev(args[1] if len(args) > 1 else kw['fill_value'])
                if not isinstance(v, Sc):
                    raise Unk('full')
                val, rest = v.v, args[2:]
                dflt = v.dt or 'float'
            else:
                val = {'zeros': F0, 'ones': F1}.get(s)
                if val is None:
                    val = self.fresh('uninitialised element')
                rest, dflt = args[1:], 'float'
            dt = kw.get('dtype', rest[0] if rest else None)
            dt = self.dtype(dt).k if dt is not None else dflt
            if dt == 'bool' and isinstance(val, Rat):
                val = bool(val.const())
            if sh.op == 'const' and sh.a[0] == 1:
                return Arr(('1',), [Cell(val)], 'ma' if ma else 'nd', dt)
            axes = self.shape(sh).axes
            if K in axes:
                raise Unk('array along the aggregated axis')
            return Arr(axes, [Cell(val)], 'ma' if ma else 'nd', dt)
        if s in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            x = self.ev(args[0])
            if not isinstance(x, Arr):
                raise Unk(s)
            dt = kw.get('dtype', args[1] if len(args) > 1 and s != 'full_like' else None)
            dt = self.dtype(dt).k if dt is not None and not (
                dt.op == 'const' and dt.a[0] is None) else x.dt
            if s == 'full_like':
                v = self.ev(args[1] if len(args) > 1 else kw['fill_value'])
                val = v.v
            else:
                val = {'zeros_like': F0, 'ones_like': F1}.get(s) or \
                    self.fresh('uninitialised element')
                if s == 'zeros_like':
                    val = F0
            if dt == 'bool' and isinstance(val, Rat):
                val = bool(val.const())
            if x.kind == 'ma' and s != 'empty_like' and not ma:
                # the mask of the prototype is kept
                return x.map(lambda c: Cell(val, c.m), dt=dt)
            return x.map(lambda c: Cell(val, False), dt=dt)
        if (s in REDUCE and not (n.startswith('builtins') and len(args) == 2)) or \
                n in ('numpy.ma.count', 'numpy.ma.count_masked'):
            if n.startswith('builtins'):
                raise Unk(n)
            x = self.ev(args[0])
            return self.reduce(s, x, args[1:], kw)
        if s in ('getmaskarray', 'getmask'):
            x = self.ev(args[0])
            if not isinstance(x, Arr):
                raise Unk(s)
            return x.map(lambda c: Cell(c.m, False), kind='nd', dt='bool')
        if s == 'getdata':
            x = self.ev(args[0])
            return x.map(lambda c: Cell(c.v, False), kind='nd')
        if s in ('filled',):
            return self.filled(self.ev(args[0]), args[1:], kw)
        if s in ('rollaxis', 'moveaxis', 'swapaxes', 'transpose'):
            return self.transpose(s, self.ev(args[0]), args[1:], kw)
        if s == 'squeeze':
            return self.squeeze(self.ev(args[0]), args[1:], kw)
        if s == 'expand_dims':
            x = self.ev(args[0])
            a = self.constint(kw.get('axis', args[1] if len(args) > 1 else None))
            if x.col or a is None:
                raise Unk('expand_dims')
            a = a if a >= 0 else a + len(x.axes) + 1
            return x.like(x.cells, axes=x.axes[:a] + (K,) + x.axes[a:])
        if s in ('concatenate', 'append', 'vstack', 'stack'):
            if s not in ('concatenate',):
                raise Unk(s)
            its = self.ev(self.seqof(args[0]))
            a = self.constint(kw.get('axis', args[1] if len(args) > 1 else const(0)))
            if not all(isinstance(x, Arr) for x in its) or a is None:
                raise Unk(s)
            x = its[0]
            if any(y.axes != x.axes for y in its):
                raise Wrong('concatenates arrays with axes %s'
                            % ', '.join(str(y.axes) for y in its))
            if not -len(x.axes) <= a < len(x.axes) or x.axes[a] != K:
                raise Wrong('concatenates along axis %s' % (x.axes[a:a + 1],))
            cells = [c for y in its for c in y.cells]
            if not ma and any(y.kind == 'ma' for y in its):
                # numpy.concatenate drops the masks
                return x.like([c.map(lambda q: Cell(q.v)) if isinstance(c, Rest)
                               else Cell(c.v) for c in cells])
            return x.like(cells, kind='ma' if ma else x.kind)
        if s in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'masked_array',
                 'MaskedArray', 'copy'):
            x = self.ev(args[0])
            if isinstance(x, Sc):
                x = Arr((), [Cell(x.v)], 'nd', x.dt)
            if not isinstance(x, Arr):
                raise Unk(s)
            dt = kw.get('dtype', args[1] if len(args) > 1 and s != 'MaskedArray' and
                        s != 'masked_array' else None)
            m = kw.get('mask', args[1] if len(args) > 1 and s in (
                'MaskedArray', 'masked_array') else None)
            if m is None and s == 'array' and ma and len(args) > 3:
                m = args[3]
            if ma or s in ('masked_array', 'MaskedArray'):
                x = x.like(x.cells, kind='ma')
                if m is not None:
                    mv = self.broadcast(self.ev(m), x)
                    if not isinstance(mv, Arr):
                        raise Unk('mask')
                    if mv.axes != x.axes:
                        raise Unk('mask shape')
                    x = self.zip2(x, mv, lambda a, b: Cell(a.v, a.m or self.bool_(b.v)),
                                  kind='ma')
            elif s not in ('asanyarray',) and \
                    not ('subok' in kw and kw['subok'].op == 'const' and kw['subok'].a[0]):
                x = x.map(lambda c: Cell(c.v, False), kind='nd')
            if dt is not None and not (dt.op == 'const' and dt.a[0] is None):
                x = self.cast(x, self.dtype(dt).k)
            return x
        if s == 'masked_where':
            c, x = self.ev(args[0]), self.ev(args[1])
            return self.zip2(x, self.broadcast(c, x), lambda a, b: Cell(
                a.v, a.m or (self.bool_(b.v) if not b.m else False)), kind='ma')
        if s in ('masked_equal', 'masked_less_equal', 'masked_less', 'masked_greater'):
            x, v = self.ev(args[0]), self.ev(args[1])
            op = {'masked_equal': '==', 'masked_less_equal': '<=', 'masked_less': '<',
                  'masked_greater': '>'}[s]
            return self.zip2(x, self.broadcast(v, x), lambda a, b: Cell(
                a.v, a.m or self.bool_(self.compare(op, a.v, b.v))), kind='ma')
        ops = {'add': '+', 'subtract': '-', 'multiply': '*', 'true_divide': '/',
               'divide': '/', 'power': '**', 'floor_divide': '//', 'remainder': '%', 'mod': '%',
               'logical_and': '&', 'logical_or': '|', 'logical_xor': '^', 'bitwise_and': '&',
               'bitwise_or': '|', 'bitwise_xor': '^'}
        if s in ops and len(args) == 2 and not kw:
            a, b = self.ev(args[0]), self.ev(args[1])
            r = self.arith(ops[s], a, b)
            if ma and isinstance(r, Arr):
                r = r.like(r.cells, kind='ma')
            return r
        if s in ('equal', 'less', 'less_equal', 'greater', 'greater_equal', 'not_equal') and \
                len(args) == 2 and not kw:
            op = {'equal': '==', 'less': '<', 'less_equal': '<=', 'greater': '>',
                  'greater_equal': '>=', 'not_equal': '!='}[s]
            return self.cmp(op, self.ev(args[0]), self.ev(args[1]))
        if s in ('minimum', 'maximum', 'fmin', 'fmax') and len(args) == 2 and not kw:
            op = 'min' if 'min' in s else 'max'
            a, b = self.ev(args[0]), self.ev(args[1])

            def f(x, y):
                m = x.m or y.m
                return Cell(x.v, True) if m else Cell(extreme(op, [x.v, y.v]), False)
            return self.zip2(a, b, f, **({'kind': 'ma'} if ma else {}))
        if s in ('sqrt',) and not kw:
            x = self.ev(args[0])
            if isinstance(x, Sc):
                return Sc(self.root(x.v), 'float')
            return x.map(lambda c: Cell(c.v, True) if c.m else Cell(self.root(c.v), False),
                         dt='float', **({'kind': 'ma'} if ma else {}))
        if s in ('square',) and not kw:
            x = self.ev(args[0])
            return self.arith('*', x, x)
        if s in ('logical_not', 'invert', 'bitwise_not') and not kw:
            x = self.ev(args[0])
            return self.map1(x, self.inv)
        if s in ('negative',) and not kw:
            return self.arith('-', Sc(F0, 'int'), self.ev(args[0]))
        if s in ('positive',) and not kw:
            return self.ev(args[0])
        if s == 'where' and len(args) == 3:
            c, a, b = [self.ev(x) for x in args]
            if isinstance(c, Sc):
                raise Unk('where')
            a, b = self.broadcast(a, c), self.broadcast(b, c)
            if not (isinstance(a, Arr) and isinstance(b, Arr)):
                raise Unk('where')
            r = self.zip2(c, a, lambda x, y: Cell((self.bool_(x.v), y)), kind='nd')

            def pick(x, z):
                w, y = x.v
                o = y if w else z
                return Cell(o.v, o.m if ma else False)
            return self.zip2(r, b, pick, dt=self.restype('+', a, b), kind='ma' if ma else 'nd')
        if n in ('builtins.float', 'builtins.int', 'builtins.abs', 'numpy.float64'):
            x = self.ev(args[0])
            if isinstance(x, Sc) and isinstance(x.v, Rat) and n != 'builtins.abs':
                if n == 'builtins.int' and x.dt != 'int':
                    raise Unk('int')
                return Sc(x.v, n.split('.')[-1][:5].rstrip('6'))
            if isinstance(x, Sc) and isinstance(x.v, Rat) and -1 not in x.v.signs():
                return x
            raise Unk(n)
        if n == 'builtins.len':
            x = self.ev(args[0])
            if isinstance(x, Arr) and x.axes and x.axes[0] == K:
                return Sc(self.count(x.cells), 'int')
            if isinstance(x, Arr):
                raise Wrong('uses the length of axis %s' % (x.axes[:1],))
            raise Unk('len')
        if n in ('builtins.max', 'builtins.min') and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if isinstance(a, Sc) and isinstance(b, Sc):
                w = self.compare('<=', a.v, b.v)
                return (a if w else b) if n.endswith('min') else (b if w else a)
        raise Unk('function %s' % n)

    def root(self, v):
        v = num(v)
        if isinstance(v, Any_):
            return v
        if isinstance(v, Rat):
            return Root(v)
        raise Unk('root of %r' % (v,))

    def seqof(self, t):
        return t

    def constint(self, t):
        if t is None:
            return None
        v = self.ev(t)
        if isinstance(v, Sc) and isinstance(v.v, Rat) and v.v.const() is not None:
            return int(v.v.const())
        return None

    def filled(self, x, args, kw):
        if not isinstance(x, Arr):
            raise Unk('filled')
        v = kw.get('fill_value', args[0] if args else None)
        if v is None or (v.op == 'const' and v.a[0] is None):
            f = Any_('fill value')
        else:
            f = self.ev(v)
            if not isinstance(f, Sc):
                raise Unk('filled')
            f = f.v
        return x.map(lambda c: Cell(f if c.m else c.v, False), kind='nd')

    def cast(self, x, dt):
        if dt in INTISH and x.dt not in INTISH and self.fractional(x):
            self.faults.append('cast of fractions to integers')
        if dt == 'bool' and x.dt != 'bool':
            def b(v):
                v = num(v)
                if isinstance(v, Rat):
                    s = v.signs()
                    if s == {0}:
                        return False
                    if 0 not in s:
                        return True
                    return Any_('truth of an element')
                raise Unk('cast to bool')
            return self.map1(x, b, dt='bool')
        return x.like(x.cells, dt=dt)

    def transpose(self, s, x, args, kw):
        if not isinstance(x, Arr):
            raise Unk(s)
        ax = list(x.axes)
        n = len(ax)

        def norm(v):
            if v is None or not -n <= v < n:
                raise Unk('axis')
            return v % n
        if s == 'rollaxis':
            a = norm(self.constint(kw.get('axis', args[0] if args else None)))
            st = kw.get('start', args[1] if len(args) > 1 else const(0))
            st = self.constint(st)
            if st is None or not -n <= st <= n:
                raise Unk('axis')
            if st < 0:
                st += n
            lab = ax[a]
            if a < st:
                st -= 1
            del ax[a]
            ax.insert(st, lab)
        elif s == 'moveaxis':
            a = norm(self.constint(kw.get('source', args[0] if args else None)))
            b = norm(self.constint(kw.get('destination', args[1] if len(args) > 1 else None)))
            lab = ax.pop(a)
            ax.insert(b, lab)
        elif s == 'swapaxes':
            a, b = [norm(self.constint(y)) for y in args[:2]]
            ax[a], ax[b] = ax[b], ax[a]
        else:
            p = args[0] if len(args) == 1 else kw.get('axes') if not args else None
            if p is None and not args:
                ax = ax[::-1]
            else:
                if p is None:
                    ps = [self.constint(y) for y in args]
                else:
                    v = self.ev(p)
                    if not isinstance(v, tuple):
                        raise Unk('axes')
                    ps = [int(y.v.const()) for y in v]
                ax = [ax[norm(i)] for i in ps]
        return x.like(x.cells, axes=ax)

    def squeeze(self, x, args, kw):
        if not isinstance(x, Arr):
            raise Unk('squeeze')
        a = kw.get('axis', args[0] if args else None)
        if a is None or (a.op == 'const' and a.a[0] is None):
            raise Wrong('squeezes every axis of length one')
        a = self.constint(a)
        if a is None or not -len(x.axes) <= a < len(x.axes):
            raise Unk('squeeze')
        lab = x.axes[a]
        if lab == '1':
            return x.like(x.cells, axes=x.axes[:a % len(x.axes)] + x.axes[a % len(x.axes) + 1:])
        if lab != K:
            raise Wrong('squeezes axis %s' % lab)
        if len(x.cells) != 1 or isinstance(x.cells[0], Rest):
            raise Unk('squeeze')
        a %= len(x.axes)
        return x.like(x.cells, axes=x.axes[:a] + x.axes[a + 1:])

    def method(self, name, obj, args, kw, t):
        if name == 'astype':
            x = self.ev(obj)
            if not isinstance(x, Arr):
                raise Unk('astype')
            return self.cast(x, self.dtype(args[0] if args else kw.get('dtype')).k)
        if name in ('copy', 'view', '__array__') and not args and not kw:
            return self.ev(obj)
        if name in ('flatten', 'ravel'):
            x = self.ev(obj)
            if args and not (args[0].op == 'const' and args[0].a[0] == 'C') or kw:
                raise Unk('flatten order')
            if not isinstance(x, Arr):
                raise Unk('flatten')
            if len(x.axes) == 1:
                return x
            if x.col:
                raise Unk('flattens the aggregated axis')
            if x.axes == ():
                return x.like(x.cells, axes=('F',), flat=())
            return x.like(x.cells, axes=('F',), flat=x.axes)
        if name == 'reshape':
            x = self.ev(obj)
            sh = args[0] if len(args) == 1 else T('tuple', *args)
            return self.reshape(x, self.shape(sh))
        if name == 'filled':
            return self.filled(self.ev(obj), args, kw)
        if name in ('sum', 'min', 'max', 'mean', 'any', 'all', 'count', 'var', 'std'):
            return self.reduce(name, self.ev(obj), args, kw)
        if name in ('transpose', 'swapaxes'):
            return self.transpose(name, self.ev(obj), args, kw)
        if name == 'squeeze':
            return self.squeeze(self.ev(obj), args, kw)
        if name == 'item' and not args:
            x = self.ev(obj)
            if isinstance(x, Sc):
                return x
        raise Unk('method %s' % name)

    # -------------------------------------------------------------- reductions
    def count(self, cells):
        n = F0
        for c in cells:
            n = n + (c.nu + c.nm if isinstance(c, Rest) else F1)
        return n

    def reduce(self, s, x, args, kw):
        if isinstance(x, Sc):
            raise Unk('reduces a scalar')
        if not isinstance(x, Arr):
            raise Unk('reduction')
        kw = dict(kw)
        ax = kw.pop('axis', args[0] if args else None)
        keep = kw.pop('keepdims', None)
        dt = kw.pop('dtype', None)
        ddof = kw.pop('ddof', None)
        if kw or len(args) > 1:
            raise Unk('arguments of %s' % s)
        if ax is None or (ax.op == 'const' and ax.a[0] is None):
            if len(x.axes) == 1 and x.col:
                a = 0
            elif self.rank == 1 and not x.axes:
                raise Unk('reduction')
            else:
                raise Wrong('%s over all the axes of a chunk' % s)
        else:
            a = self.constint(ax)
        if a is None:
            raise Unk('axis of %s' % s)
        if not -len(x.axes) <= a < len(x.axes):
            raise Wrong('%s over axis %d of an array with axes %s' % (s, a, x.axes))
        if x.axes[a] != K:
            raise Wrong('%s over axis %s of the chunk' % (s, x.axes[a]))
        a %= len(x.axes)
        kd = False
        if keep is not None:
            kd = self.truth(keep)
        ma = x.kind == 'ma' or s in ('count', 'count_masked')
        cell, rdt = self.fold(s, x, ddof)
        if dt is not None and not (dt.op == 'const' and dt.a[0] is None):
            rdt = self.dtype(dt).k
            if rdt == 'src' and s == 'sum':
                rdt = 'src'
        kind = 'nd' if s in ('count', 'count_masked') else x.kind
        return Arr(x.axes if kd else x.axes[:a] + x.axes[a + 1:], [cell], kind, rdt)

    def parts(self, x):
        """(cell, multiplicity or Rest) along the aggregated axis."""
        for c in x.cells:
            if isinstance(c, Rest):
                if c.u is not None:
                    yield c.u, c, True
                if c.w is not None:
                    yield c.w, c, False
            else:
                yield c, None, None

    def power(self, v, r):
        """Sum of an element expression over the unmasked part of a rest."""
        v = num(v)
        if not isinstance(v, Rat):
            if isinstance(v, Any_):
                return v
            raise Unk('sum of %r' % (v,))
        if any(s == r.xi for m in v.d for s, e in m):
            raise Unk('sum of quotients')
        tot = {}
        for m, c in v.n.items():
            e = dict(m).get(r.xi, 0)
            rest = tuple((s, k) for s, k in m if s != r.xi)
            tot.setdefault(e, {})[rest] = c
        out = F0
        for e, p in tot.items():
            if e not in (0, 1, 2):
                raise Unk('power sum %d' % e)
            out = out + Rat(p) * (r.nu if e == 0 else r.p[e])
        return out / Rat(v.d)

    def fold(self, s, x, ddof=None):
        masks = []
        vals = []
        nun = F0
        nmk = F0
        for c, r, un in self.parts(x):
            w = F1 if r is None else (r.nu if un else r.nm)
            if c.m:
                nmk = nmk + w
                continue
            nun = nun + w
            vals.append((c, r, un, w))
        if s == 'count':
            return Cell(nun), 'int'
        if s == 'count_masked':
            return Cell(nmk), 'int'
        if s in ('all', 'any'):
            res = [self.bool_(c.v) for c, r, un, w in vals if w.signs() != {0}]
            v = all(res) if s == 'all' else any(res)
            return Cell(v, x.kind == 'ma' and not vals), 'bool'
        empty = not vals
        if s == 'sum' or s == 'mean' or s in ('var', 'std'):
            def total(f):
                out = F0
                for c, r, un, w in vals:
                    v = f(num(c.v))
                    if isinstance(v, Any_):
                        return v
                    if not isinstance(v, Rat):
                        raise Unk('sum of %r' % (v,))
                    if r is None:
                        out = out + v
                    elif un:
                        out = out + self.power(v, r)
                    else:
                        if r.xi in v.symbols():
                            raise Unk('masked rest')
                        out = out + v * w
                    if isinstance(out, Any_):
                        return out
                return out
            if empty and x.kind == 'ma':
                return Cell(F0, True), 'wide' if x.dt in INTISH else x.dt
            t1 = total(lambda v: v)
            if s == 'sum':
                return Cell(t1), 'wide' if x.dt in INTISH else x.dt
            if isinstance(t1, Any_):
                return Cell(t1), 'float'
            if s == 'mean':
                return Cell(t1 / nun), 'float'
            t2 = total(lambda v: v * v if isinstance(v, Rat) else v)
            if isinstance(t2, Any_):
                return Cell(t2), 'float'
            d = F0
            if ddof is not None:
                d = self.ev(ddof).v
            q = (t2 - t1 * t1 / nun)
            dn = nun - d
            if dn.signs() & {0, -1}:
                raise Unk('variance')
            q = q / dn
            return Cell(q if s == 'var' else Root(q)), 'float'
        if s in ('min', 'max', 'amin', 'amax'):
            op = s[-3:]
            if empty:
                if x.kind == 'ma':
                    return Cell(Any_('data of a masked element'), True), x.dt
                raise Wrong('%s of nothing' % op)
            its = []
            for c, r, un, w in vals:
                if r is None:
                    its.append(c.v)
                    continue
                v = num(c.v)
                if un and isinstance(v, Rat) and v.equals(Rat.sym(r.xi)):
                    its.append(r.lo if op == 'min' else r.hi)
                elif isinstance(v, Rat) and r.xi not in v.symbols():
                    its.append(v)
                elif isinstance(v, Any_):
                    its.append(v)
                else:
                    raise Unk('extreme of the rest')
            return Cell(extreme(op, its)), x.dt
        raise Unk('reduction %s' % s)


def free_mus(t, depth):
    """The loop variables of that depth which t depends on."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.sid in seen:
            continue
        seen.add(x.sid)
        if x.op == 'mu':
            if x.a[0] == depth:
                yield x
            continue
        if x.op == 'loop' and x.a[0] == depth:
            continue                 # an earlier loop
        todo.extend(children(x))


REDUCE = ('sum', 'min', 'max', 'amin', 'amax', 'all', 'any', 'mean', 'var', 'std')
