"""Kind, dtype and mask of the NumPy value which a term denotes.

A term is evaluated in a *scenario*: every choice which NumPy semantics leaves open (the dtype
of a source, whether its elements are masked, whether the one element of a 0-dimensional
selection is masked, ...) is made by `Scenario.pick`, and `explore` enumerates the scenarios
exhaustively.  Types of NumPy operations come from the committed table np_model.json.
"""
import json
import os

from .terms import T, const, show

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'np_model.json')) as fh:
    MODEL = json.load(fh)
CHARS = MODEL['chars']
TYPES = MODEL['types']
NAMES = {'bool': '?', 'bool_': '?', 'bool8': '?', 'int8': 'b', 'uint8': 'B', 'int16': 'h',
         'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'l', 'uint64': 'L', 'int': 'l',
         'int_': 'l', 'intp': 'l', 'intc': 'i', 'long': 'l', 'longlong': 'l', 'short': 'h',
         'byte': 'b', 'ubyte': 'B', 'ushort': 'H', 'uintc': 'I', 'uint': 'L', 'uintp': 'L',
         'float16': 'e', 'half': 'e', 'float32': 'f', 'single': 'f', 'float64': 'd',
         'float': 'd', 'float_': 'd', 'double': 'd', 'complex64': 'F', 'csingle': 'F',
         'complex128': 'D', 'complex': 'D', 'complex_': 'D', 'cdouble': 'D'}
CODES = {'?': '?', 'b1': '?', 'b': 'b', 'i1': 'b', 'B': 'B', 'u1': 'B', 'h': 'h', 'i2': 'h',
         'H': 'H', 'u2': 'H', 'i': 'i', 'i4': 'i', 'I': 'I', 'u4': 'I', 'l': 'l', 'i8': 'l',
         'q': 'l', 'L': 'L', 'u8': 'L', 'Q': 'L', 'e': 'e', 'f2': 'e', 'f': 'f', 'f4': 'f',
         'd': 'd', 'f8': 'd', 'F': 'F', 'c8': 'F', 'D': 'D', 'c16': 'D'}
LONG = {v: k for k, v in reversed(sorted(NAMES.items(), key=lambda x: (
    len(x[0]), x[0])))}
for _n in ('bool int8 uint8 int16 uint16 int32 uint32 int64 uint64 float16 float32 float64 '
           'complex64 complex128').split():
    LONG[NAMES[_n]] = _n
BIN = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide', '//': 'floor_divide',
       '**': 'power', '|': 'bitwise_or', '&': 'bitwise_and', '^': 'bitwise_xor', '%': 'mod',
       '<<': 'left_shift', '>>': 'right_shift'}
CMP = {'==': 'equal', '!=': 'not_equal', '<': 'less', '<=': 'less_equal', '>': 'greater',
       '>=': 'greater_equal'}
ALL = ('*', ())
WRAPS = '?bBhHiIlL'
E0 = frozenset()


class Unk(Exception):
    """The evaluator does not know what the term denotes."""


class Stop(Exception):
    """The scenario does not occur (the operation raises)."""


class Need(Exception):
    def __init__(self, key, domain):
        self.key, self.domain = key, domain


class V(object):
    """kind: nd, ma (arrays), npsc (NumPy scalar), masked (the constant), py (number), op.

    data: which sources the elements come from, and how they were selected;
    tags: (ma) which of those are masked wherever the source is masked;
          (boolean nd) which are True wherever the source is masked.
    """
    __slots__ = ('kind', 'nd', 'dt', 'data', 'tags', 'shape', 'nm', 'py', 'owner')

    def __init__(self, kind, nd=None, dt=None, data=E0, tags=E0, shape=None, nm=None, py=None,
                 owner=None):
        self.kind, self.nd, self.dt, self.data, self.tags = kind, nd, dt, data, tags
        self.shape, self.nm, self.py, self.owner = shape, nm, py, owner

    def but(self, **kw):
        d = {n: getattr(self, n) for n in self.__slots__}
        d.update(kw)
        return V(**d)

    @property
    def array(self):
        return self.kind in ('nd', 'ma', 'masked')

    @property
    def masky(self):
        return self.kind in ('ma', 'masked')

    def key(self):
        return (self.kind, self.nd, self.dt, self.data, self.tags, self.nm, self.py)

    def __repr__(self):
        return '%s(%s, %s%s)' % (
            {'nd': 'ndarray', 'ma': 'MaskedArray', 'npsc': 'NumPy scalar',
             'masked': 'numpy.ma.masked', 'py': 'number', 'op': 'object'}.get(
                 self.kind, self.kind),
            'rank %s' % self.nd, LONG.get(self.dt, self.dt),
            ', masked by %s' % sorted(x[0] for x in self.tags) if self.tags else '')


class Dt(object):
    def __init__(self, c):
        self.c = c


class Seq(object):
    def __init__(self, items):
        self.items = tuple(items)


class Scenario(object):
    def __init__(self, fixed):
        self.fixed = fixed               # key -> choice
        self.unsure = []                 # conditions which were guessed
        self.intops = []                 # arithmetic on elements in an integer type

    def pick(self, key, domain):
        if key in self.fixed:
            return self.fixed[key]
        raise Need(key, domain)


def explore(f, limit=40000):
    """Yields (scenario, value or Unk) of f(scenario) for every scenario."""
    todo = [{}]
    n = 0
    while todo:
        fixed = todo.pop()
        s = Scenario(fixed)
        try:
            v = f(s)
        except Need as e:
            for c in reversed(e.domain):
                todo.append(dict(fixed, **{}) if False else _with(fixed, e.key, c))
            continue
        except Stop:
            continue
        except Unk as e:
            v = e
        n += 1
        if n > limit:
            yield s, Unk('too many scenarios')
            return
        yield s, v


def _with(d, k, v):
    d = dict(d)
    d[k] = v
    return d


def seqmode(kind):
    return 'numpy.ma.' if kind == 'ma' else 'numpy.'


class Eval(object):
    def __init__(self, C, sc, st, domains=None, names=None):
        self.C, self.I, self.sc, self.st = C, C.I, sc, st
        self.memo = {}
        self.env = {}
        self.domains = domains or {}
        self.names = names or {}         # sid of a source -> label
        self.busy = set()

    # ------------------------------------------------------------------ choices
    def pick(self, kind, key, domain):
        return self.sc.pick((kind, key), self.domains.get(kind, domain))

    def guess(self, t):
        """A condition about which nothing is known."""
        b = self.sc.pick(('cond', t.sid), (True, False))
        self.sc.unsure.append(show(t, 2)[:80])
        return b

    def srcdt(self, t):
        """dtype of a source symbol."""
        info = self.I.info(t) or {}
        d = (info.get('attrs') or {}).get('dtype')
        if d is not None and d.sid != t.sid:
            return self.dty(d)
        return self.pick('dt', 'dtype of %s' % self.label(t), tuple(CHARS))

    #: whether masks which are lost in conversions to plain arrays matter
    stripping = False

    def label(self, t):
        return self.names.get(t.sid) or show(t, 2)[:30]

    def masked(self, t):
        return self.pick('mask', 'elements of %s masked' % self.label(t), (True, False))

    # ------------------------------------------------------------------- driver
    def ev(self, t):
        if t.sid in self.env:
            return self.env[t.sid]
        if t.sid in self.memo:
            return self.memo[t.sid]
        f = getattr(self, 't_' + t.op, None)
        if f is None:
            raise Unk('term %s' % show(t, 2)[:80])
        r = f(t)
        if isinstance(r, V) and r.owner is None and r.array:
            sh = r.shape
            if sh is None and r.nd is not None:
                sh = tuple(('dim', t.sid, i) for i in range(r.nd))
            r = r.but(owner=t.sid, shape=sh)
        self.memo[t.sid] = r
        return r

    def val(self, t):
        v = self.ev(t)
        if not isinstance(v, V):
            raise Unk('value %s' % show(t, 2)[:60])
        return v

    # --------------------------------------------------------------------- atoms
    def t_const(self, t):
        v = t.a[0]
        if isinstance(v, (bool, int, float, complex)):
            return V('py', 0, py=v)
        return V('op', py=v)

    def t_sym(self, t):
        info = self.I.info(t) or {}
        k = info.get('kind')
        if k in ('nd', 'ma', 'concrete'):
            rank = info.get('ndim')
            if k == 'concrete':
                raise Unk('a file variable')
            return self.source(t, k, rank)
        if k in ('ndint', 'ndbool'):
            return V('nd', 1, 'l' if k == 'ndint' else '?')
        if k == 'npscalar':
            return V('npsc', 0, self.pick('dt', 'dtype of %s' % self.label(t), tuple(CHARS)))
        if k in ('int', 'float', 'bool'):
            return V('py', 0, py='?' + k)
        if k == 'dtype':
            return Dt(self.dty(t))
        raise Unk('symbol %s' % (t.a[0],))

    def source(self, t, kind, rank):
        p = frozenset([(self.label(t), ())])
        m = kind == 'ma' and self.masked(t)
        if kind == 'nd' and self.stripping and (self.I.info(t) or {}).get('kind') not in (
                'nd', 'concrete'):
            self.masked(t)              # what is converted may well have masked elements
        sh = None if rank is None else tuple(('dim', p, i) for i in range(rank))
        return V(kind, rank, self.srcdt(t), p, p if m else E0, sh,
                 nm=None if kind != 'ma' else not m)

    def t_ext(self, t):
        n = t.a[0]
        if n == 'numpy.ma.nomask':
            return V('npsc', 0, '?', nm=True)
        if n in ('numpy.ma.masked', 'numpy.ma.masked_singleton'):
            return V('masked', 0, 'd', tags=frozenset([ALL]))
        if n in ('numpy.nan', 'numpy.inf', 'numpy.pi'):
            return V('py', 0, py=2.5)
        if n == 'numpy.newaxis':
            return V('op')
        s = n.split('.')[-1]
        if s in NAMES:
            return Dt(NAMES[s])
        raise Unk('external %s' % n)

    def t_ref(self, t):
        raise Unk('object')

    def t_tuple(self, t):
        return Seq(t.a)

    t_list = t_ndlist = t_tuple

    # --------------------------------------------------------------- conversions
    def t_conv(self, t):
        kind, x = t.a[0], t.a[1]
        if x.op == 'sym':
            info = self.I.info(x) or {}
            rank = info.get('ndim')
            if rank is None:
                sh = (info.get('attrs') or {}).get('shape')
                rank = len(sh.a) if sh is not None and sh.op == 'tuple' else None
            return self.source(x, kind, rank)
        if x.op == 'ref':
            return self.convert(x, kind)
        if x.op == 'sub':
            # A selection from a virtual array is one, and selects from its elements.
            v = self.t_conv(T('conv', kind, x.a[0]))
            its = self.keyitems(x.a[1])
            if its is None or v.nd is None:
                raise Unk('rank of %s' % show(x, 2)[:60])
            how = ('sub', x.a[1].sid, False)
            return v.but(nd=v.nd - its.count('i') + its.count('N'), shape=None, owner=None,
                         data=frozenset((s, h + (how,)) for s, h in v.data),
                         tags=frozenset((s, h + (how,)) for s, h in v.tags))
        if x.op == 'phi':
            return self.t_conv(T('conv', kind, x.a[1] if self.truth(x.a[0]) else x.a[2]))
        raise Unk('conversion of %s' % show(x, 2)[:60])

    def convert(self, x, kind):
        """The result of converting an object of the package."""
        m = 'masked_array' if kind == 'ma' else 'ndarray'
        key = (x.sid, kind)
        if key in self.busy:
            raise Unk('recursive conversion')
        cache = self.C.__dict__.setdefault('_vtype_conv', {})
        if (key, id(self.st)) not in cache:
            cache[key, id(self.st)] = (self.C.method(x, m, [], st=self.st.copy()), self.st)
        r = cache[key, id(self.st)][0]
        if r.dead:
            raise Stop()
        v = r.val
        if v.op == 'conv' and v.a[1].sid == x.sid:
            # The engine evaluates it: see the rules for handlers and nodes.
            d = self.C.attr(x, 'dtype', st=self.st.copy())
            n = self.C.attr(x, 'ndim', st=self.st.copy())
            n = n.val.a[0] if not n.dead and n.val.op == 'const' else None
            return V(kind, n, self.dty(d.val), E0, E0)
        self.busy.add(key)
        st = self.st
        try:
            self.st = r.st
            return self.ev(v)
        finally:
            self.st = st
            self.busy.discard(key)

    # --------------------------------------------------------------------- dtypes
    def dty(self, t):
        if t.sid in self.env and isinstance(self.env[t.sid], Dt):
            return self.env[t.sid].c
        if t.op == 'attr' and t.a[1] == 'dtype':
            x = t.a[0]
            while x.op == 'sub' and self.isvirtual(x.a[0]):
                x = x.a[0]
            if x.op == 'sym' and x.sid not in self.env:
                return self.srcdt_of(x, t)
            v = self.ev(x)
            if isinstance(v, Dt):
                return v.c
            if isinstance(v, V) and v.dt is not None:
                return v.dt
            raise Unk('dtype of %s' % show(x, 2)[:60])
        if t.op == 'sym':
            return self.pick('dt', self.label(t), tuple(CHARS))
        if t.op == 'const':
            if t.a[0] is None:
                return 'd'
            if isinstance(t.a[0], str):
                s = t.a[0].lstrip('<>=|')
                c = CODES.get(s) or NAMES.get(s)
                if c:
                    return c
            raise Unk('dtype %r' % (t.a[0],))
        if t.op == 'ext':
            s = t.a[0].split('.')[-1]
            if s in NAMES:
                return NAMES[s]
            raise Unk('dtype %s' % t.a[0])
        if t.op == 'phi':
            return self.dty(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == 'call' and t.a[0].op == 'ext':
            n = t.a[0].a[0]
            if n == 'numpy.dtype' and t.a[1]:
                return self.dty(t.a[1][0])
            if n in ('numpy.result_type', 'numpy.promote_types', 'numpy.find_common_type'):
                cs = []
                for x in t.a[1]:
                    try:
                        cs.append(self.dty(x))
                    except Unk:
                        v = self.val(x)
                        if not v.array or v.nd == 0:
                            raise Unk('value-based promotion')
                        cs.append(v.dt)
                r = cs[0]
                for c in cs[1:]:
                    r = promote(r, c)
                return r
        v = self.ev(t)
        if isinstance(v, Dt):
            return v.c
        raise Unk('dtype %s' % show(t, 2)[:60])

    def isvirtual(self, x):
        while x.op == 'sub':
            x = x.a[0]
        return x.op == 'sym' and (self.I.info(x) or {}).get('kind') in ('array', 'concrete')

    def srcdt_of(self, x, t):
        info = self.I.info(x) or {}
        d = (info.get('attrs') or {}).get('dtype')
        if d is not None and d.sid != t.sid:
            return self.dty(d)
        return self.pick('dt', 'dtype of %s' % self.label(x), tuple(CHARS))

    # ----------------------------------------------------------------- conditions
    def truth(self, t):
        op = t.op
        if op == 'not':
            return not self.truth(t.a[0])
        if op == 'and':
            return all(self.truth(x) for x in t.a)
        if op == 'or':
            return any(self.truth(x) for x in t.a)
        if op == 'const':
            return bool(t.a[0])
        if op == 'isinst':
            r = self.isinst(t)
            return self.guess(t) if r is None else r
        if op == 'hasattr':
            r = self.hasattr(t)
            return self.guess(t) if r is None else r
        if op == 'cmp':
            r = self.compare(t)
            return self.guess(t) if r is None else r
        if op == 'phi':
            return self.truth(t.a[1] if self.truth(t.a[0]) else t.a[2])
        try:
            v = self.ev(t)
        except Unk:
            return self.guess(t)
        if isinstance(v, V) and v.nm is True and v.kind == 'npsc':
            return False
        if isinstance(v, V) and v.kind == 'py' and not isinstance(v.py, str):
            return bool(v.py)
        if isinstance(v, V) and v.kind == 'op' and v.py is None and t.op == 'const':
            return False
        return self.guess(t)

    def resolve(self, t):
        while t.op == 'phi':
            t = t.a[1] if self.truth(t.a[0]) else t.a[2]
        return t

    def isinst(self, t):
        x, c = t.a[0], t.a[1]
        if c.op in ('tuple', 'list'):
            rs = [self.isinst(T('isinst', x, y)) for y in c.a]
            return True if True in rs else None if None in rs else False
        if c.op != 'ext':
            return None
        try:
            v = self.ev(x)
        except Unk:
            return None
        if not isinstance(v, V):
            return None
        s = c.a[0].split('.')[-1]
        if s in ('MaskedArray', 'masked_array'):
            return v.masky
        if s == 'ndarray':
            return v.array
        if s == 'MaskedConstant':
            return v.kind == 'masked'
        if s == 'generic':
            return v.kind == 'npsc'
        return None

    def hasattr(self, t):
        x, n = t.a[0], t.a[1]
        n = n.a[0] if isinstance(n, T) else n
        if x.op == 'sym' and (self.I.info(x) or {}).get('kind') == 'concrete':
            return self.pick('attr', '%s has %s' % (self.label(x), n), (True, False))
        try:
            v = self.ev(x)
        except Unk:
            return None
        if n in ('mask', 'fill_value', 'filled', '_mask') and isinstance(v, V):
            return v.masky
        if n in ('dtype', 'shape', 'ndim', 'astype') and isinstance(v, V) and \
                v.kind in ('nd', 'ma', 'npsc', 'masked'):
            return True
        return None

    def compare(self, t):
        op, a, b = t.a[:3]
        if op == 'is':
            for x, y in ((a, b), (b, a)):
                if y.op == 'ext' and y.a[0] in ('numpy.ma.masked', 'numpy.ma.masked_singleton'):
                    v = self.ev(x)
                    return isinstance(v, V) and v.kind == 'masked'
                if y.op == 'ext' and y.a[0] == 'numpy.ma.nomask':
                    v = self.ev(x)
                    if isinstance(v, V):
                        if v.array:
                            return False
                        return v.nm
                if y.op == 'const' and y.a[0] is None:
                    x = self.resolve(x)
                    if x.op == 'const':
                        return x.a[0] is None
                    if x.op == 'attr' and x.a[0].op == 'sym':
                        return self.pick('attr', '%s is None' % show(x, 2), (True, False))
                    v = self.ev(x)
                    if isinstance(v, V) and v.kind != 'op':
                        return False
            return None
        for x, y in ((a, b), (b, a)):
            if (x.op == 'attr' and x.a[1] == 'dtype') or \
                    (x.op == 'sym' and (self.I.info(x) or {}).get('kind') == 'dtype'):
                if op in ('==', '!='):
                    try:
                        r = self.dty(a) == self.dty(b)
                    except Unk:
                        return None
                    return r if op == '==' else not r
        try:
            v, w = self.ev(a), self.ev(b)
        except Unk:
            return None
        if isinstance(v, Dt) and isinstance(w, Dt):
            r = v.c == w.c
            return r if op == '==' else (not r) if op == '!=' else None
        if isinstance(v, V) and isinstance(w, V) and v.kind == w.kind == 'py' and \
                not isinstance(v.py, str) and not isinstance(w.py, str):
            return {'==': v.py == w.py, '!=': v.py != w.py, '<': v.py < w.py,
                    '<=': v.py <= w.py, '>': v.py > w.py, '>=': v.py >= w.py}.get(op)
        return None

    def t_phi(self, t):
        return self.ev(t.a[1] if self.truth(t.a[0]) else t.a[2])

    def t_not(self, t):
        return V('py', 0, py=not self.truth(t))

    def t_isinst(self, t):
        return V('py', 0, py=self.truth(t))

    t_hasattr = t_and = t_or = t_isinst

    def t_cmp(self, t):
        if t.a[0] in CMP:
            try:
                a, b = self.ev(t.a[1]), self.ev(t.a[2])
            except Unk:
                a = b = None
            if isinstance(a, V) and isinstance(b, V) and (a.array or b.array):
                return self.ufunc(CMP[t.a[0]], [a, b], op=True)
        r = self.compare(t)
        return V('py', 0, py='?bool' if r is None else r)

    # -------------------------------------------------------------------- indexing
    def keyitems(self, k):
        """Items of a key: 'i' (integer), ':' (slice), 'a' (sequence), 'N', '.'; or None."""
        if k.op in ('tuple', 'list'):
            out = [self.keyitem(x) for x in k.a]
            return None if None in out else out
        x = self.keyitem(k)
        return None if x is None else [x]

    def keyitem(self, x):
        if x.op == 'const':
            if x.a[0] is None:
                return 'N'
            if x.a[0] is Ellipsis:
                return '.'
            if isinstance(x.a[0], bool):
                return None
            if isinstance(x.a[0], int):
                return 'i'
            return None
        if x.op == 'slice':
            return ':'
        if x.op in ('tuple', 'list', 'ndlist'):
            return 'a'
        if x.op == 'ext' and x.a[0] == 'numpy.newaxis':
            return 'N'
        info = self.I.info(x) or {}
        k = info.get('kind')
        if k in ('int', 'npint'):
            return 'i'
        if k == 'slice':
            return ':'
        if k in ('ndint', 'ndbool', 'seq', 'nd'):
            return 'a'
        if x.op == 'idx':
            return 'i'
        if x.op == 'phi':
            return self.keyitem(x.a[1] if self.truth(x.a[0]) else x.a[2])
        try:
            v = self.ev(x)
        except Unk:
            return None
        if isinstance(v, V):
            if v.kind in ('py', 'npsc'):
                return 'i'
            if v.kind == 'nd' and v.nd == 1:
                return 'a'
        return None

    def t_sub(self, t):
        x, k = t.a[0], t.a[1]
        info = (self.I.info(x) or {}) if x.op == 'sym' else {}
        if x.op == 'attr' and x.a[1] in ('shape', 'strides') or info.get('kind') == 'shape':
            return V('py', 0, py='?int')
        if info.get('kind') == 'concrete':
            return self.fetch(x, k, t)
        v = self.ev(x)
        if isinstance(v, Seq):
            i = k.a[0] if k.op == 'const' else None
            if isinstance(i, int) and -len(v.items) <= i < len(v.items):
                return self.ev(v.items[i])
            raise Unk('element of a sequence')
        if not isinstance(v, V) or v.kind not in ('nd', 'ma', 'npsc', 'masked'):
            raise Unk('selection from %s' % show(x, 2)[:60])
        return self.select(v, k, t)

    def select(self, v, k, t):
        its = self.keyitems(k)
        if v.kind == 'masked':
            return v
        nd = sel = None
        how = (('sub', k.sid, False),)
        if its is not None and v.nd is not None:
            n = v.nd
            if its == ['a'] and n != 1:
                sel = None               # one index array, or a mask of the whole array
            else:
                n -= its.count('i') - its.count('N')
                nd = n if its.count('a') <= 1 else None
                if nd is not None and nd < 0:
                    raise Stop()
            if all(x in ':.' for x in its) and all(
                    x.op == 'const' or (x.op == 'slice' and all(
                        y.op == 'const' and y.a[0] is None for y in x.a))
                    for x in (k.a if k.op in ('tuple', 'list') else (k,))):
                how = ()
        if its is not None and 'a' in its and len(its) == 1:
            sel = True
        data = frozenset((s, h + how) for s, h in v.data)
        tags = frozenset((s, h + how) if s != '*' else (s, h) for s, h in v.tags)
        r = V(v.kind, nd, v.dt, data, tags, None, nm=v.nm)
        if nd == 0 and '.' not in its and v.kind != 'npsc':
            if v.kind == 'nd':
                return r.but(kind='npsc')
            return self.element(r, t)
        return r

    def element(self, r, t):
        """A single element of a masked array."""
        if r.tags and self.pick('el', t.sid, (True, False)):
            return r.but(kind='masked', dt='d')
        return r.but(kind='npsc', data=E0, tags=E0, nm=None)

    def fetch(self, x, k, t):
        """A selection from a file variable."""
        rank = (self.I.info(x) or {}).get('ndim')
        its = self.keyitems(k)
        name = self.label(x)
        p = frozenset([(name, (('sub', k.sid, False),))])
        nd = None
        if its is not None and rank is not None:
            nd = rank - its.count('i') + its.count('N') if '.' not in its or \
                its.count('i') == 0 else rank - its.count('i')
            if nd < 0:
                raise Stop()
        ma = self.pick('file', 'masked arrays from %s' % name, (True, False))
        m = ma and self.masked(x)
        dt = self.srcdt(x)
        r = V('ma' if ma else 'nd', nd, dt, p, p if m else E0, None, nm=(not m) if ma else None)
        if nd == 0:
            how = self.pick('file0', t.sid, ('scalar', 'array'))
            if how == 'scalar':
                return self.element(r, t) if ma else r.but(kind='npsc')
        return r

    def t_at(self, t):
        v = self.ev(t.a[0])
        if isinstance(v, Seq):
            raise Unk('element of a sequence')
        if isinstance(v, V) and v.array and v.nd:
            how = ('at', t.a[1].sid, False)
            r = v.but(nd=v.nd - 1, data=frozenset((s, h + (how,)) for s, h in v.data),
                      tags=frozenset((s, h + (how,)) for s, h in v.tags), shape=None,
                      owner=None)
            if r.nd == 0:
                return self.element(r, t) if v.kind == 'ma' else r.but(kind='npsc')
            return r
        raise Unk('element')

    def t_idx(self, t):
        return V('py', 0, py='?int')

    def t_store(self, t):
        old, val = self.val(t.a[0]), self.ev(t.a[2])
        if not old.array:
            raise Unk('store')
        if isinstance(val, Seq):
            if not all(x.op == 'const' for x in val.items):
                raise Unk('stores a sequence')
            val = V('py', 0)
        if not isinstance(val, V):
            raise Unk('stored value')
        k = t.a[1]
        how = ('at', k.sid, False)
        data, tags = val.data, val.tags
        if old.kind == 'nd':
            tags = E0 if old.dt != '?' or not val.array or val.kind != 'nd' else tags
        whole = self.keyitems(k) in (['.'], [':'], []) and k.op in ('const', 'slice', 'tuple')
        keep = E0 if whole else old.data
        keept = E0 if whole else frozenset(x for x in old.tags if x != ALL)
        # Elements which were there before keep their own masks; the others get theirs.
        return old.but(data=keep | data, tags=keept | tags, nm=None, owner=old.owner)

    # ------------------------------------------------------------------- sequences
    def seq(self, t):
        """Tokens of a sequence of numbers (shape, strides, axes), or None."""
        if t.op in ('tuple', 'list', 'ndlist'):
            return tuple(self.token(x) for x in t.a)
        if t.op == 'attr' and t.a[1] in ('shape', 'strides'):
            v = self.ev(t.a[0])
            if not isinstance(v, V) or v.nd is None:
                return None
            if t.a[1] == 'strides':
                return tuple(('str', v.owner, i) for i in range(v.nd))
            return v.shape
        if t.op == 'cat':
            out = ()
            for x in t.a:
                s = self.seq(x)
                if s is None:
                    return None
                out += s
            return out
        if t.op == 'bin' and t.a[0] in ('+', '+='):
            a, b = self.seq(t.a[1]), self.seq(t.a[2])
            return None if a is None or b is None else a + b
        if t.op == 'bin' and t.a[0] == '*':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const' and isinstance(y.a[0], int):
                    s = self.seq(x)
                    return None if s is None else s * y.a[0]
            return None
        if t.op == 'seqset':
            s = self.seq(t.a[0])
            i = t.a[1]
            if s is None or i.op != 'const' or not -len(s) <= i.a[0] < len(s):
                return None
            s = list(s)
            s[i.a[0]] = self.token(t.a[2])
            return tuple(s)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in (
                'builtins.tuple', 'builtins.list') and len(t.a[1]) == 1:
            return self.seq(t.a[1][0])
        if t.op == 'sub' and t.a[1].op == 'slice':
            s = self.seq(t.a[0])
            if s is None or any(x.op != 'const' for x in t.a[1].a):
                return None
            return s[slice(*[x.a[0] for x in t.a[1].a])]
        if t.op == 'phi':
            return self.seq(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == 'sym':
            its = self.I.items(t, self.st)
            return None if its is None else tuple(self.token(x) for x in its)
        if t.op == 'ref':
            its = self.I.items(t, self.st)
            return None if its is None else tuple(self.token(x) for x in its)
        return None

    def token(self, x):
        if x.op == 'const':
            return ('c', x.a[0])
        if x.op == 'sub' and x.a[1].op == 'const':
            s = self.seq(x.a[0])
            i = x.a[1].a[0]
            if s is not None and isinstance(i, int) and -len(s) <= i < len(s):
                return s[i]
        return ('t', x.sid)

    def t_attr(self, t):
        n = t.a[1]
        if n == 'dtype':
            return Dt(self.dty(t))
        if t.a[0].op == 'sym' and (self.I.info(t.a[0]) or {}).get('kind') == 'concrete':
            if n == 'fill_value':
                return V('npsc', 0, self.srcdt(t.a[0]))
            raise Unk('attribute %s of a file variable' % n)
        v = self.ev(t.a[0])
        if not isinstance(v, V):
            raise Unk('attribute %s' % n)
        if n == 'ndim':
            return V('py', 0, py='?int' if v.nd is None else v.nd)
        if n in ('size', 'itemsize', 'nbytes'):
            return V('py', 0, py='?int')
        if n in ('shape', 'strides'):
            s = self.seq(t)
            if s is None:
                raise Unk(n)
            return Seq(())
        if n == 'T':
            return self.transpose(v, None)
        if n == 'fill_value':
            return V('npsc', 0, v.dt)
        if v.masky:
            if n == 'data':
                return V('nd', v.nd, v.dt, v.data, E0, v.shape)
            if n in ('mask', '_mask'):
                return self.maskof(v, t)
        if n in ('real', 'imag'):
            c = {'F': 'f', 'D': 'd'}.get(v.dt, v.dt)
            return v.but(dt=c, owner=None)
        raise Unk('attribute %s' % n)

    def maskof(self, v, t):
        nm = v.nm
        if v.kind == 'masked':
            nm = False
        if nm is None and v.tags:
            nm = False
        if nm is None:
            nm = self.pick('nomask', t.sid, (True, False))
        if nm:
            return V('npsc', 0, '?', nm=True)
        return V('nd', v.nd, '?', E0, v.tags, v.shape)

    def t_withattr(self, t):
        v, n = self.val(t.a[0]), t.a[1]
        if n == 'fill_value':
            return v
        if n == 'shape':
            return self.moved(v, ('reshape', t.a[2].sid, False), None)
        if n in ('mask', '_mask'):
            if v.kind != 'ma':
                raise Unk('sets a mask')
            m = self.masking(t.a[2])
            return v.but(tags=m, nm=None, owner=None)
        raise Unk('attribute %s' % n)

    def masking(self, t):
        """Which sources a value used as a mask masks."""
        m = self.ev(t)
        if isinstance(m, V):
            if m.kind == 'nd':
                return m.tags
            if m.nm is True or (m.kind == 'py' and m.py in (False, 0)) or m.kind == 'npsc':
                return m.tags
            if m.kind == 'py' and m.py in (True, 1):
                return frozenset([ALL])
            if m.masky:
                return m.tags if m.dt == '?' else E0
        raise Unk('mask %s' % show(t, 2)[:60])

    def t_invert(self, t):
        v = self.val(t.a[0])
        return v.but(tags=v.tags if v.masky else E0, owner=None)

    def t_neg(self, t):
        v = self.val(t.a[0])
        if v.kind == 'py':
            return v
        return self.ufunc('negative', [v], op=True)

    # ------------------------------------------------------------------ arithmetic
    def t_bin(self, t):
        op = t.a[0]
        if op in ('+', '*', '+='):
            s = self.seq(t)
            if s is not None and t.a[1].op in ('tuple', 'list', 'attr', 'cat', 'seqset',
                                               'call', 'sub'):
                return Seq(())
        a, b = self.val(t.a[1]), self.val(t.a[2])
        if a.kind == 'py' and b.kind == 'py':
            fl = any(isinstance(x.py, float) or x.py == '?float' for x in (a, b)) or \
                op in ('/', '/=')
            return V('py', 0, py='?float' if fl else '?int')
        inp = op.endswith('=')
        op = op[:-1] if inp else op
        if op not in BIN:
            raise Unk('operator %s' % op)
        r = self.ufunc(BIN[op], [a, b], op=True)
        if inp and a.kind in ('nd', 'ma'):
            if r.dt is not None and a.dt is not None and not same_kind(r.dt, a.dt):
                raise Stop()
            if a.dt in WRAPS and r.dt not in WRAPS and op in '+-*':
                self.sc.intops.append('%s= in %s' % (op, LONG[a.dt]))
            if a.kind == 'nd' and op not in ('|', '&', '^'):
                return a.but(data=a.data | b.data, tags=E0, owner=a.owner)
            return r.but(kind=a.kind, nd=a.nd, dt=a.dt, owner=a.owner)
        return r

    def ufunc(self, n, vs, op=False, pre='numpy.'):
        """A ufunc of NumPy, or its counterpart in numpy.ma."""
        for v in vs:
            if v.kind == 'op':
                raise Unk('operand of %s' % n)
        masky = any(v.masky for v in vs)
        if op and masky:
            pre = 'numpy.ma.'
            if pre + n not in TYPES:
                pre = 'numpy.'
        e = TYPES.get(pre + n)
        if e is None:
            raise Unk(pre + n)
        table = e.get('ma' if masky else 'nd')
        if table is None:
            raise Stop() if e else Unk(n)
        arrays = [v for v in vs if v.kind != 'py']
        big = [v for v in arrays if v.nd != 0]
        if not arrays:
            raise Unk('%s of numbers' % n)
        if len(vs) == 1:
            if 'un' not in table:
                raise Stop()
            dt = table['un'][CHARS.index(vs[0].dt)]
        elif len(vs) == 2:
            if 'bi' not in table:
                raise Stop()
            a, b = vs
            if a.kind != 'py' and b.kind != 'py':
                if (a.nd == 0) != (b.nd == 0) and a.dt != b.dt:
                    dt = self.valuebased(table, a, b, n)
                else:
                    dt = table['bi'][CHARS.index(a.dt) * len(CHARS) + CHARS.index(b.dt)]
            else:
                x, p = (b, a) if a.kind == 'py' else (a, b)
                if a.kind == 'py' and n == 'ldexp':
                    raise Unk('%s of a number and an array' % n)
                dt = self.withnumber(table, x, p, n)
        else:
            raise Unk(n)
        if dt == '!':
            raise Stop()
        nds = [v.nd for v in vs]
        nd = None if None in nds else max(nds)
        if dt in WRAPS and n in ('add', 'subtract', 'multiply', 'power', 'square',
                                 'left_shift') and any(v.data for v in vs):
            self.sc.intops.append('%s in %s' % (n, LONG[dt]))
        data = frozenset().union(*[v.data for v in vs])
        tags = E0
        if masky:
            k = e.get('kinds%d' % len(vs))
            if k is None:
                raise Unk(n)
            tags = frozenset().union(*[v.tags for v in vs if v.masky])
            kind = k[0]
            if not k[1]:
                tags = E0
            if pre == 'numpy.ma.' and not op and kind != 'ma':
                raise Unk(n)
        else:
            kind = 'nd'
            if dt == '?' and all(v.dt == '?' for v in vs):
                if n in ('bitwise_or', 'logical_or', 'maximum'):
                    tags = frozenset().union(*[v.tags for v in vs])
                elif n in ('bitwise_and', 'logical_and', 'minimum'):
                    tags = frozenset.intersection(*[v.tags for v in vs])
            k = e.get('kinds%d' % len(vs))
        if nd == 0 and not big:
            if masky:
                if tags and self.pick('el', ('u', n) + tuple(v.owner for v in vs),
                                      (True, False)):
                    kind = k[3]
                else:
                    kind, tags, data = k[2], E0, E0
                if kind == 'masked':
                    dt = 'd'
                elif kind == 'scalar':
                    kind = 'npsc'
            else:
                kind = 'npsc' if k is None or k[4] == 'scalar' else k[4]
        if kind not in ('nd', 'ma', 'masked', 'npsc'):
            raise Unk('%s of rank 0' % n)
        return V(kind, nd, dt, data, tags,
                 vs[0].shape if len(vs) == 1 else None)

    def withnumber(self, table, x, p, n):
        py = p.py
        row = table['py']
        i = CHARS.index(x.dt)
        if x.nd == 0:
            # A 0-dimensional array: promoted like two scalars.
            c = 'd' if isinstance(py, float) or py == '?float' else '?' if isinstance(
                py, bool) else 'l'
            return table['bi'][i * len(CHARS) + CHARS.index(c)]
        if not isinstance(py, str) and str(py) in row:
            return row[str(py)][i]
        if isinstance(py, str):
            ks = [k for k in row if ('.' in k) == (py == '?float')]
            rs = {row[k][i] for k in ks} - {'!'}
            if len(rs) == 1:
                return rs.pop()
            if rs:
                return self.pick('num', (n, x.owner, py), tuple(sorted(rs)))
        if isinstance(py, float):
            return row['2.5'][i]
        raise Unk('%s of an array and the number %s' % (n, py))

    def valuebased(self, table, a, b, n):
        x, z = (a, b) if b.nd == 0 else (b, a)
        cat = lambda c: '?bu'.find('?') if c == '?' else 1 if c in 'bBhHiIlL' else 2 \
            if c in 'efd' else 3
        if cat(z.dt) > cat(x.dt):
            return table['bi'][CHARS.index(a.dt) * len(CHARS) + CHARS.index(b.dt)]
        if cat(z.dt) < cat(x.dt) or cat(x.dt) >= 2:
            c = x.dt
            return table['bi'][CHARS.index(c) * len(CHARS) + CHARS.index(c)]
        raise Unk('%s of an array and a scalar' % n)

    # -------------------------------------------------------------------- loops
    def t_loop(self, t):
        from .cellwise import Eval as Cell
        try:
            slots = Cell.slots(_Loops(self.I.loops), t)
        except Exception:
            raise Unk('loop')
        n = self.pick('iterations', t.a[5].sid, (0, 1, 2))
        vals = {sid: self.ev(l.a[2]) for sid, l in slots.items()}
        for i in range(n):
            vals = self.step(slots, vals)
        if n == 2:
            again = self.step(slots, vals)
            for s in vals:
                a, b = again[s], vals[s]
                if isinstance(a, V) != isinstance(b, V) or (isinstance(a, V) and (
                        a.kind, a.nd, a.dt) != (b.kind, b.nd, b.dt)):
                    raise Unk('the loop changes the type at every step')
        for sid, l in slots.items():
            self.memo[l.sid] = vals[sid]
        return vals[t.a[3].sid]

    def step(self, slots, vals):
        e = Eval.__new__(type(self))
        e.__dict__.update(self.__dict__)
        e.env = dict(self.env)
        e.env.update(vals)
        e.memo = {}
        return {sid: e.ev(l.a[4]) for sid, l in slots.items()}

    def t_mu(self, t):
        raise Unk('loop variable %s' % (t.a[1],))

    # -------------------------------------------------------------------- calls
    def t_filled(self, t):
        v = self.val(t.a[0])
        return v.but(owner=v.owner)

    def t_call(self, t):
        f, args, kw = t.a[:3]
        kw = dict(kw)
        if f.op == 'bmx':
            return self.method(f.a[1], f.a[0], list(args), kw, t)
        if f.op != 'ext':
            raise Unk('call')
        n = f.a[0]
        if not n.startswith(('numpy.', 'builtins.')):
            raise Unk('call of %s' % n)
        out = kw.pop('out', None)
        if out is not None and not (out.op == 'const' and out.a[0] is None):
            raise Unk('out')
        return self.func(n, list(args), kw, t)

    def none(self, t):
        return t is None or (t.op == 'const' and t.a[0] is None)

    def shaped(self, sh):
        """(rank, tokens) of a shape argument."""
        if sh.op == 'const' and isinstance(sh.a[0], int):
            return 1, (('c', sh.a[0]),)
        s = self.seq(sh)
        if s is not None:
            return len(s), s
        info = self.I.info(sh) or {}
        if info.get('kind') == 'int':
            return 1, None
        return None, None

    def func(self, n, args, kw, t):
        ma = n.startswith('numpy.ma.')
        s = n.split('.')[-1]
        if n.startswith('builtins.'):
            if s in ('len', 'int', 'round') and args:
                return V('py', 0, py='?int')
            if s == 'float':
                return V('py', 0, py='?float')
            if s in ('abs', 'min', 'max', 'sum') and len(args) == 1:
                v = self.val(args[0])
                if v.kind == 'py':
                    return v
                if s == 'abs':
                    return self.ufunc('absolute', [v], op=True)
            raise Unk(n)
        if s in ('zeros', 'ones', 'empty', 'full'):
            if any(k not in ('shape', 'dtype', 'fill_value', 'order') for k in kw):
                raise Unk(n)
            sh = args[0] if args else kw.get('shape')
            k = 2 if s == 'full' else 1
            dt = kw.get('dtype', args[k] if len(args) > k else None)
            nd, tok = self.shaped(sh)
            if dt is None and s == 'full':
                raise Unk('full')
            return V('ma' if ma else 'nd', nd, 'd' if dt is None else self.dty(dt), E0, E0, tok,
                     nm=True if ma else None)
        if s == 'masked_all':
            dt = kw.get('dtype', args[1] if len(args) > 1 else None)
            nd, tok = self.shaped(args[0] if args else kw.get('shape'))
            return V('ma', nd, 'd' if dt is None else self.dty(dt), E0, frozenset([ALL]), tok,
                     nm=False)
        if s in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            v = self.val(args[0])
            k = 2 if s == 'full_like' else 1
            dt = kw.get('dtype', args[k] if len(args) > k else None)
            kind = v.kind if v.kind in ('nd', 'ma') else 'nd'
            return V(kind, v.nd, v.dt if self.none(dt) else self.dty(dt), E0,
                     v.tags if kind == 'ma' else E0, v.shape)
        if s in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'require') or \
                (ma and s in ('MaskedArray', 'masked_array')):
            return self.asarray(n, ma, s, args, kw, t)
        if n == 'numpy.dtype':
            return Dt(self.dty(args[0]))
        if s in ('as_strided',):
            return self.strided(args, kw, t)
        if s in ('getmaskarray',):
            v = self.val(args[0])
            return V('nd', v.nd, '?', E0, v.tags if v.masky else E0, v.shape)
        if s in ('getmask',):
            v = self.val(args[0])
            if not v.masky:
                return V('npsc', 0, '?', nm=True)
            return self.maskof(v, t)
        if s in ('getdata',):
            v = self.val(args[0])
            return V('nd', v.nd, v.dt, v.data, E0, v.shape)
        if s in ('filled',) and ma:
            v = self.val(args[0])
            return V('nd', v.nd, v.dt, v.data, E0, v.shape) if v.masky else v
        if s in ('masked_equal', 'masked_not_equal', 'masked_less', 'masked_greater',
                 'masked_less_equal', 'masked_greater_equal', 'masked_values'):
            v = self.val(args[0])
            if v.kind not in ('nd', 'ma'):
                raise Unk(n)
            return v.but(kind='ma', nm=None, owner=None)
        if s == 'masked_invalid':
            v = self.val(args[0])
            return v.but(kind='ma', nm=None, owner=None)
        if s == 'masked_where':
            v = self.val(args[1])
            c = self.masking(args[0])
            if v.kind not in ('nd', 'ma'):
                raise Unk(n)
            return v.but(kind='ma', tags=v.tags | c, nm=None, owner=None)
        if s in ('transpose',):
            return self.transpose(self.val(args[0]), args[1] if len(args) > 1
                                  else kw.get('axes'))
        if s in ('rollaxis', 'moveaxis', 'swapaxes'):
            v = self.val(args[0])
            return self.moved(v, (s, tuple(x.sid for x in args[1:]) + tuple(
                (k, x.sid) for k, x in sorted(kw.items())), False), v.nd)
        if s in ('squeeze', 'expand_dims'):
            v = self.val(args[0])
            ax = args[1] if len(args) > 1 else kw.get('axis')
            d = {'squeeze': -1, 'expand_dims': 1}[s]
            if ax is None or ax.op in ('tuple', 'list') or v.nd is None:
                raise Unk(s)
            if v.kind not in ('nd', 'ma'):
                raise Unk(s)
            return self.moved(v, (s, ax.sid, False), v.nd + d)
        if s in ('reshape', 'ravel'):
            v = self.val(args[0])
            nd = 1 if s == 'ravel' else self.shaped(args[1])[0]
            return self.moved(v, (s, tuple(x.sid for x in args[1:]), False), nd)
        if s == 'broadcast_to':
            v = self.val(args[0])
            if not self.none(kw.get('subok')):
                raise Unk('subok')
            nd, tok = self.shaped(args[1] if len(args) > 1 else kw['shape'])
            how = ('broadcast', tok, tok is not None)
            return V('nd', nd, v.dt, frozenset((x, h + (how,)) for x, h in v.data),
                     frozenset((x, h + (how,)) for x, h in v.tags) if v.kind == 'nd' else E0,
                     tok)
        if s in ('copy', 'copyto'):
            if s == 'copyto':
                raise Unk(s)
            v = self.val(args[0])
            return v if ma or not v.masky else v.but(kind='nd', tags=E0)
        if s in ('abs',):
            s = 'absolute'
        if s in ('concatenate', 'stack', 'vstack', 'hstack'):
            return self.concatenate(ma, s, args, kw, t)
        if s in ('count', 'count_masked'):
            v = self.val(args[0])
            ax = args[1] if len(args) > 1 else kw.get('axis')
            if ax is None or v.nd is None:
                raise Unk(s)
            return V('nd' if v.nd > 1 else 'npsc', v.nd - 1, 'l')
        if s in MODEL['reduce'] and (not ma or s in ('sum', 'min', 'max', 'prod', 'mean', 'std',
                                                     'var', 'all', 'any')):
            return self.reduce(s, args, kw, t)
        if s == 'where' and len(args) == 3:
            a, b = self.val(args[1]), self.val(args[2])
            if a.kind == 'py' or b.kind == 'py' or a.dt != b.dt:
                raise Unk('where')
            self.val(args[0])
            raise Unk('where')
        name = ('numpy.ma.' if ma else 'numpy.') + s
        if name in TYPES:
            kw = {k: v for k, v in kw.items() if not self.none(v)}
            dt = kw.pop('dtype', None)
            if kw:
                raise Unk('%s with %s' % (n, sorted(kw)))
            vs = [self.val(x) for x in args]
            r = self.ufunc(s, vs, pre='numpy.ma.' if ma else 'numpy.')
            if dt is not None:
                if ma:
                    raise Unk('dtype')
                r = r.but(dt=self.dty(dt))
            return r
        raise Unk(n)

    def listed(self, t):
        """The array which a list of numbers becomes."""
        vs = []
        for x in t.a:
            v = self.ev(x)
            if not isinstance(v, V) or v.kind not in ('py', 'npsc'):
                raise Unk('list of %s' % show(x, 2)[:40])
            vs.append(v)
        if not vs:
            return V('nd', 1, 'd')
        cs = []
        for v in vs:
            if v.kind == 'npsc':
                cs.append(v.dt)
            elif isinstance(v.py, bool):
                cs.append('?')
            elif isinstance(v.py, int) or v.py == '?int':
                cs.append('l')
            elif isinstance(v.py, float) or v.py == '?float':
                cs.append('d')
            else:
                raise Unk('number')
        r = cs[0]
        for c in cs[1:]:
            r = promote(r, c)
        return V('nd', 1, r)

    def asarray(self, n, ma, s, args, kw, t):
        known = ('dtype', 'copy', 'order', 'mask', 'fill_value', 'keep_mask', 'shrink',
                 'hard_mask', 'data', 'object', 'a')
        if any(k not in known for k in kw):
            raise Unk('%s with %s' % (n, sorted(set(kw) - set(known))))
        if 'keep_mask' in kw:
            raise Unk('keep_mask')
        args = list(args)
        x = args[0] if args else kw.get('data', kw.get('object', kw.get('a')))
        if x.op in ('list', 'tuple'):
            v = self.listed(x)
        else:
            v = self.ev(x)
            if isinstance(v, Seq):
                raise Unk('array of a sequence')
        if not isinstance(v, V) or v.kind == 'op':
            raise Unk('array of %s' % show(x, 2)[:60])
        masked = ma and s in ('MaskedArray', 'masked_array')
        pos = 2 if ma and s in ('array', 'MaskedArray', 'masked_array') and (
            masked) else 1
        dt = kw.get('dtype', args[pos] if len(args) > pos else None)
        mask = kw.get('mask', args[1] if masked and len(args) > 1 else None)
        if ma and s == 'array' and len(args) > 2:
            raise Unk('positional arguments')
        if v.kind == 'py':
            c = 'd' if isinstance(v.py, float) or v.py == '?float' else \
                '?' if isinstance(v.py, bool) or v.py == '?bool' else \
                'D' if isinstance(v.py, complex) else 'l'
        else:
            c = v.dt
        c = c if self.none(dt) else self.dty(dt)
        if ma or (s == 'asanyarray' and v.masky):
            tags = v.tags if v.masky else E0
            nm = v.nm if v.kind == 'ma' else None if v.masky else True
            if mask is not None and not self.none(mask):
                tags = tags | self.masking(mask)
                nm = None
            if v.masky:
                same = self.none(dt)
                if s == 'asanyarray' and v.kind == 'masked' and same and not ma:
                    return v
            return V('ma', v.nd, c, v.data, tags, v.shape, nm=nm)
        return V('nd', v.nd, c, v.data, E0 if v.kind != 'nd' or v.dt != '?' else v.tags,
                 v.shape)

    def strided(self, args, kw, t):
        x = args[0]
        v = self.val(x)
        if any(k not in ('x', 'shape', 'strides', 'writeable') for k in kw):
            raise Unk('as_strided')
        if v.kind not in ('nd', 'ma'):
            raise Unk('as_strided')
        sh = args[1] if len(args) > 1 else kw.get('shape')
        st = args[2] if len(args) > 2 else kw.get('strides')
        S = self.seq(sh) if sh is not None else None
        R = self.seq(st) if st is not None else None
        if S is None or R is None:
            how = ('strided', t.sid, False)
        else:
            R = tuple(('own', y[2]) if y[0] == 'str' and y[1] == v.owner else
                      ('other strides', y[2]) if y[0] == 'str' else y for y in R)
            how = ('strided', (S, R), True)
        nd = None if S is None else len(S)
        return V('nd', nd, v.dt, frozenset((a, h + (how,)) for a, h in v.data),
                 frozenset((a, h + (how,)) for a, h in v.tags)
                 if v.kind == 'nd' and v.dt == '?' else E0, S)

    def moved(self, v, how, nd):
        if v.kind == 'masked':
            v = v.but(kind='ma')
        return v.but(nd=nd, data=frozenset((s, h + (how,)) for s, h in v.data),
                     tags=frozenset((s, h + (how,)) if s != '*' else (s, h)
                                    for s, h in v.tags), shape=None, owner=None)

    def transpose(self, v, axes):
        if axes is None or self.none(axes):
            how = ('T', None, True)
        else:
            s = self.seq(axes)
            if s is not None and all(x[0] == 'c' for x in s):
                p = tuple(x[1] for x in s)
                how = ('T', p, True)
                if v.nd is not None and p == tuple(range(v.nd))[::-1]:
                    how = ('T', None, True)
            else:
                how = ('T', axes.sid, False)
        return self.moved(v, how, v.nd)

    def concatenate(self, ma, s, args, kw, t):
        x = args[0]
        its = self.I.items(x, self.st) if x.op not in ('list', 'tuple') else x.a
        if its is None:
            raise Unk(s)
        vs = [self.val(y) for y in its]
        if not vs or any(not v.array for v in vs):
            raise Unk(s)
        dt = vs[0].dt
        for v in vs[1:]:
            dt = promote(dt, v.dt)
        masky = ma or any(v.masky for v in vs)
        nd = vs[0].nd if s == 'concatenate' else None if vs[0].nd is None else vs[0].nd + 1
        data = frozenset().union(*[v.data for v in vs])
        return V('ma' if masky else 'nd', nd, dt, data,
                 frozenset().union(*[v.tags for v in vs]) if ma else E0)

    def reduce(self, s, args, kw, t):
        v = self.val(args[0])
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if any(k not in ('axis', 'dtype', 'keepdims', 'ddof') for k in kw) or len(args) > 2:
            raise Unk(s)
        if v.kind not in ('nd', 'ma'):
            raise Unk(s)
        dt = kw.get('dtype')
        c = MODEL['reduce'][s][v.kind][CHARS.index(v.dt)] if self.none(dt) else self.dty(dt)
        if c == '!':
            # The type depends on whether elements are masked.
            if s in ('mean', 'std', 'var') and v.kind == 'ma':
                c = self.pick('agg', t.sid, (v.dt.lower() if s != 'mean' else v.dt, 'd'))
            else:
                raise Stop()
        if s in ('sum', 'prod', 'cumsum') and c in WRAPS:
            self.sc.intops.append('%s in %s' % (s, LONG[c]))
        keep = kw.get('keepdims')
        keep = keep is not None and self.truth(keep)
        if v.nd is None:
            raise Unk(s)
        if self.none(ax):
            nd = v.nd if keep else 0
        elif ax.op in ('tuple', 'list'):
            raise Unk('axes')
        else:
            nd = v.nd if keep else v.nd - 1
        tags = frozenset([('aggregate', ())]) if v.kind == 'ma' else E0
        if s == 'all' and v.kind == 'nd':
            tags = E0
        r = V(v.kind, nd, c, frozenset([('aggregate', ())]), tags)
        if nd == 0 and not keep:
            if v.kind == 'nd':
                return r.but(kind='npsc', data=E0)
            return self.element(r, t)
        return r

    def method(self, name, obj, args, kw, t):
        if name == 'astype':
            v = self.val(obj)
            c = self.dty(args[0] if args else kw['dtype'])
            if v.kind == 'masked':
                return V('ma', 0, c, v.data, v.tags)
            if v.kind not in ('nd', 'ma', 'npsc'):
                raise Unk('astype')
            keep = v.tags if v.kind == 'ma' or (v.dt == '?' and c == '?') else E0
            if c in WRAPS and v.dt not in WRAPS and v.data:
                self.sc.intops.append('cast to %s' % LONG[c])
            return v.but(dt=c, tags=keep, owner=None)
        if name == 'transpose':
            v = self.val(obj)
            if not args or (len(args) == 1 and self.none(args[0])):
                return self.transpose(v, None)
            a = args[0] if len(args) == 1 and not (
                args[0].op == 'const' or (self.I.info(args[0]) or {}).get('kind') == 'int') \
                else T('tuple', *args)
            return self.transpose(v, a)
        if name == 'filled':
            v = self.val(obj)
            if not v.masky:
                raise Stop()
            return V('nd', v.nd, v.dt, v.data, E0, v.shape)
        if name in ('flatten', 'ravel'):
            v = self.val(obj)
            return self.moved(v, ('ravel', (), False), 1)
        if name == 'reshape':
            v = self.val(obj)
            a = args[0] if len(args) == 1 else T('tuple', *args)
            return self.moved(v, ('reshape', a.sid, False), self.shaped(a)[0])
        if name == 'squeeze':
            return self.func('numpy.squeeze', [obj] + args, kw, t)
        if name in ('copy', '__copy__', '__deepcopy__'):
            return self.val(obj).but(owner=None)
        if name in ('count',):
            return self.func('numpy.ma.count', [obj] + args, kw, t)
        if name in MODEL['reduce']:
            return self.reduce(name, [obj] + args, kw, t)
        if name in ('item', 'tolist'):
            raise Unk(name)
        if name == 'view' and len(args) == 1 and args[0].op == 'ext':
            v = self.val(obj)
            s = args[0].a[0].split('.')[-1]
            if s in ('MaskedArray', 'masked_array') and v.kind in ('nd', 'ma'):
                return v.but(kind='ma', nm=v.nm if v.kind == 'ma' else True, owner=None)
            if s == 'ndarray' and v.kind in ('nd', 'ma'):
                return V('nd', v.nd, v.dt, v.data, E0, v.shape)
        raise Unk('method %s' % name)


class _Loops(object):
    def __init__(self, loops):
        self.loops = loops


def promote(a, b):
    r = TYPES['numpy.add']['nd']['bi']
    c = r[CHARS.index(a) * len(CHARS) + CHARS.index(b)]
    return c


def same_kind(a, b):
    """Can dtype a be cast to dtype b with casting='same_kind'?"""
    def k(c):
        return 0 if c == '?' else 1 if c in 'BHIL' else 2 if c in 'bhil' else 3 if c in 'efd' \
            else 4
    if k(b) == 1 and k(a) == 2:
        return False
    return k(a) <= k(b) or (k(a) == 2 and k(b) == 1 and False)
