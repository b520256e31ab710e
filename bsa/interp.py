"""Abstract interpreter over the syntax tree of the analysed package.

Values are terms (terms.py), control-flow merges are gated joins (`phi`), loops
over unknown sequences are summarised by one generic iteration.  Calls to
functions of the analysed package are inlined; everything else is an opaque term
unless models.py knows what it means.
"""
import ast
import os

from .terms import *      # noqa
from . import terms as tm


class Dead(Exception):
    """The current path has ended (a definite raise)."""


class Unsupported(Exception):
    pass


class ClassInfo(object):
    def __init__(self, name, bases, module, node):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.attrs = {}
        self.fields = None       # namedtuple fields
        self.mro = None

    def __repr__(self):
        return '<class %s>' % self.name


class FuncVal(object):
    def __init__(self, name, qual, node, module, closure):
        self.name, self.qual, self.node = name, qual, node
        self.module, self.closure = module, closure
        self.defaults, self.kwdefaults = [], {}
        self.is_gen = False
        self.abstract = False
        self.display = name


class Inst(object):
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Lst(object):
    """A list (or 1-d object/number array if nd).  items: tuple of T, or None with
    `seq` a sequence term and `tail` the items appended since."""
    __slots__ = ('items', 'seq', 'tail', 'nd')

    def __init__(self, items=None, seq=None, tail=(), nd=False):
        self.items, self.seq, self.tail, self.nd = items, seq, tail, nd


class Dct(object):
    __slots__ = ('items', 'base')

    def __init__(self, items=(), base=None):
        self.items, self.base = tuple(items), base


UNDEF = T('undef')


class State(object):
    __slots__ = ('envs', 'heap', 'path', '_own', '_ownheap', 'fuzzy')

    def __init__(self):
        self.envs, self.heap, self.path = {}, {}, ()
        self._own, self._ownheap = set(), True
        self.fuzzy = 0          # something on the way here was approximated

    def copy(self):
        s = State()
        s.envs = dict(self.envs)
        s.heap = self.heap
        s.path = self.path
        s.fuzzy = self.fuzzy
        s._own, s._ownheap = set(), False
        self._own, self._ownheap = set(), False
        return s

    def become(self, o):
        self.envs, self.heap, self.path = o.envs, o.heap, o.path
        self._own, self._ownheap = o._own, o._ownheap

    def setvar(self, fid, name, v):
        if fid not in self._own:
            self.envs[fid] = dict(self.envs.get(fid, ()))
            self._own.add(fid)
        self.envs[fid][name] = v

    def delvar(self, fid, name):
        if fid not in self._own:
            self.envs[fid] = dict(self.envs.get(fid, ()))
            self._own.add(fid)
        self.envs[fid].pop(name, None)

    def put(self, oid, rec):
        if not self._ownheap:
            self.heap = dict(self.heap)
            self._ownheap = True
        self.heap[oid] = rec

    def assume(self, c):
        if c.op == 'and':
            for x in c.a:
                self.assume(x)
        elif not (c.op == 'const' and c.a[0] is True):
            self.path = self.path + (c,)


class Outcome(object):
    __slots__ = ('kind', 'st', 'val', 'node')

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


class Frame(object):
    def __init__(self, fid, func, module):
        self.fid, self.func, self.module = fid, func, module
        self.closure = ()
        self.globals_declared = set()
        self.nonlocals = set()
        self.cls = None
        self.line = 0


EXC_BASES = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'LookupError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'AttributeError': 'Exception', 'AssertionError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'StopIteration': 'Exception', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'UnicodeError': 'ValueError', 'NameError': 'Exception', 'OSError': 'Exception',
    'IOError': 'Exception', 'ImportError': 'Exception', 'MemoryError': 'Exception',
    'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
}


def exc_isa(name, target, user=None):
    user = user or {}
    while name is not None:
        if name == target:
            return True
        name = user.get(name) or EXC_BASES.get(name)
    return False


class Interp(object):
    MAXREC = 3
    UNROLL = 64

    def __init__(self, root='/repo', package='biggus'):
        self.once = set()
        self.nfuzz = 0
        self.nsoft = 0              # of these, tests of types which are kept as conditions
        self.hyp = None          # case split: callable(I, cond, st) -> bool or None
        self.root, self.package = root, package
        self.events = []
        self.views = {}
        self.funcs = []
        self.classes = {}        # qualname -> ClassInfo
        self.modules = {}        # module name -> fid
        self.modnodes = {}
        self.user_exc = {}
        self.oid = 0
        self.fidc = 0
        self.frames = []
        self.loops = {}
        self.raises = [[]]
        self.loopdepth = 0
        self.maythrow = [0]
        self.unsupported = []
        self.registry = {}       # sid of sym -> info
        self.nodes_analysed = set()
        self.calls_inlined = 0
        self.phi_memo = {}
        self._keep = []
        self.overrides = {}      # func qual -> python callable(I, st, args, kw)
        self.loading = State()
        self.concrete_loop_limit = self.UNROLL

    # ------------------------------------------------------------- loading
    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        path = os.path.join(self.root, *modname.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        with open(path) as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        fid = 'mod:' + modname
        self.modules[modname] = fid
        self.modnodes[modname] = (path, tree, src)
        st = self.loading
        st.setvar(fid, '__name__', const(modname))
        fr = Frame(fid, None, modname)
        self.frames.append(fr)
        try:
            outs = self.block(tree.body, st.copy())
        finally:
            self.frames.pop()
        norm = [o for o in outs if o.kind == 'normal']
        if not norm:
            raise Unsupported('module %s cannot be evaluated' % modname)
        st.become(norm[0].st)
        return fid

    def ismod(self, name):
        p = os.path.join(self.root, *name.split('.'))
        return name.split('.')[0] == self.package and (
            os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py')))

    # ---------------------------------------------------------------- basics
    def sym(self, name, kind, **info):
        d = dict(info, kind=kind)
        t = T('sym', name, info=d)
        self.registry[t.sid] = d
        return t

    def info(self, t):
        if t.info is not None:
            return t.info
        return self.registry.get(t.sid) or {}

    def alloc(self, st, rec):
        self.oid += 1
        st.put(self.oid, rec)
        return T('ref', self.oid)

    def rec(self, t, st):
        return st.heap.get(t.a[0]) if t.op == 'ref' else None

    def new_list(self, st, items, nd=False):
        return self.alloc(st, Lst(tuple(items), nd=nd))

    def mark_once(self, v, st):
        """v is an iterator: iterating it a second time yields nothing."""
        if v.op == 'ref' and isinstance(st.heap.get(v.a[0]), Lst):
            self.once.add(v.a[0])
        return v

    def consume(self, v, st):
        if v.op == 'ref' and v.a[0] in self.once:
            st.put(v.a[0], Lst(()))

    def new_seq(self, st, seq, nd=False):
        if seq.op == 'tuple':
            return self.alloc(st, Lst(seq.a, nd=nd))
        return self.alloc(st, Lst(None, seq, (), nd))

    def site(self, node=None):
        fr = self.frames[-1] if self.frames else None
        line = getattr(node, 'lineno', None) or (fr.line if fr else 0)
        q = fr.func.qual if fr and fr.func else '<module>'
        mod = fr.module if fr else '?'
        return (mod, q, line)

    def stack(self):
        return tuple(f.func.qual if f.func else f.module for f in self.frames)

    def ev(self, kind, st, node=None, **data):
        e = dict(kind=kind, site=self.site(node), path=st.path,
                 stack=self.stack(), approx=(st.fuzzy, self.nfuzz, len(self.unsupported)),
                 **data)
        self.events.append(e)
        if self.snap is not None:
            self.snap.append((e, st.copy()))
        return e

    def viewof(self, o, x):
        """x is a view of the object array o (assignments aren't passed on)."""
        if o.op == 'ref' and x.op == 'ref':
            self.views[x.a[0]] = o.a[0]
        return x

    snap = None             # the states at every event, where they are wanted

    def unk(self, reason, node=None):
        self.unsupported.append((self.site(node), reason))
        return T('unk', reason, len(self.unsupported))

    # ------------------------------------------------------------- deciding
    def decide(self, c, st, depth=0):
        if c.op == 'const':
            return bool(c.a[0])
        if c.op == 'not':
            r = self.decide(c.a[0], st, depth)
            return None if r is None else not r
        sid = c.sid
        nsid = None
        for p in st.path:
            if p.sid == sid:
                return True
            if p.op == 'not' and p.a[0].sid == sid:
                return False
        if depth > 12:
            return None
        if c.op == 'and':
            rs = [self.decide(x, st, depth + 1) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            # a negated conjunction on the path with all but this implied
            return self._from_neg_and(c, st, depth)
        if c.op == 'phi':
            d = self.decide(c.a[0], st, depth + 1)
            if d is not None:
                return self.decide(c.a[1 if d else 2], st, depth + 1)
            x = self.decide(c.a[1], st, depth + 1)
            y = self.decide(c.a[2], st, depth + 1)
            return x if x == y else None
        r = None
        if c.op == 'cmp':
            r = self._decide_cmp(c, st, depth)
        elif c.op in ('call', 'truthy'):
            r = self._decide_call(c.a[0] if c.op == 'truthy' else c)
        if r is None and self.hyp is not None:
            r = self.hyp(self, c, st)
        if r is None:
            r = self._from_neg_and(c, st, depth)
        return r

    def _decide_call(self, t):
        if t.op != 'call' or t.a[0].op != 'ext' or not t.a[1]:
            return None
        n, x = t.a[0].a[0], t.a[1][0]
        if n in ('numpy.isnan', 'math.isnan'):
            return self.info(x).get('nan')
        if n == 'numpy.issubdtype' and len(t.a[1]) == 2 and 'dkind' in self.info(x):
            y = t.a[1][1]
            sub = {'numpy.floating': 'f', 'numpy.inexact': 'fc', 'numpy.number': 'fciu',
                   'numpy.integer': 'iu', 'numpy.complexfloating': 'c', 'numpy.bool_': 'b',
                   'numpy.signedinteger': 'i', 'numpy.unsignedinteger': 'u'}
            if y.op == 'ext' and y.a[0] in sub:
                return self.info(x)['dkind'] in sub[y.a[0]]
        return None

    def _from_neg_and(self, c, st, depth):
        # path contains not(and(a, b, ...)): if all conjuncts but one are true,
        # the remaining one is false.
        if depth > 3:
            return None
        for p in st.path:
            if p.op == 'not' and p.a[0].op == 'and':
                rest = []
                for x in p.a[0].a:
                    if x.sid == c.sid:
                        rest.append((x, False))
                    elif mk_not(x).sid == c.sid:
                        rest.append((x, True))
                    else:
                        if self.decide(x, st, depth + 6) is not True:
                            rest = None
                            break
                if rest and len(rest) == 1:
                    return rest[0][1]
        return None

    def _linfacts(self, st):
        """Linear facts f >= 0 (integers) implied by the path."""
        out = []
        for p in st.path:
            neg = False
            q = p
            if q.op == 'not':
                neg, q = True, q.a[0]
            if q.op == 'cmp' and q.a[0] in ('<', '<=', '=='):
                op, x, y = q.a
                if op == '==' and neg:
                    continue
                if not (self.intish(x, st) and self.intish(y, st)):
                    continue
                d = lin_sub(lin(y), lin(x))      # y - x
                if op == '<':
                    f = (d[0] - 1, d[1]) if not neg else \
                        (-d[0], {k: (-v, a) for k, (v, a) in d[1].items()})
                    out.append(f)
                elif op == '<=':
                    f = d if not neg else \
                        (-d[0] - 1, {k: (-v, a) for k, (v, a) in d[1].items()})
                    out.append(f)
                else:
                    out.append(d)
                    out.append((-d[0], {k: (-v, a) for k, (v, a) in d[1].items()}))
        return out

    def nonneg(self, f, st, facts=None):
        """Is the linear form f >= 0 implied?"""
        facts = self._linfacts(st) if facts is None else facts
        c, m = f
        lo = c
        ok = True
        for k, (v, a) in m.items():
            b = self.lower(a, st)
            if v > 0 and b is not None:
                lo += v * b
            else:
                ok = False
        if ok and lo >= 0:
            return True
        for g in facts:
            r = lin_sub(f, g)
            if self._triv_nonneg(r, st):
                return True
        for i, g in enumerate(facts):
            r1 = lin_sub(f, g)
            for h in facts[i:]:
                if self._triv_nonneg(lin_sub(r1, h), st):
                    return True
        return False

    def _triv_nonneg(self, f, st):
        lo = f[0]
        for k, (v, a) in f[1].items():
            b = self.lower(a, st)
            if v > 0 and b is not None:
                lo += v * b
            else:
                return False
        return lo >= 0

    def lower(self, t, st):
        """A constant lower bound of an integer atom."""
        i = self.info(t)
        if 'lo' in i:
            return i['lo']
        if t.op == 'len':
            return 0
        if t.op == 'idx':
            return 0
        return None

    def intish(self, t, st):
        return self.kind(t, st) in ('int', 'bool', 'num', 'float')

    def distinct(self, a, b):
        ga, gb = self.info(a).get('group'), self.info(b).get('group')
        return ga is not None and ga == gb and a.sid != b.sid

    def eq(self, a, b, st, depth=0):
        """True / False / None: are the values equal?"""
        return self.decide(self.compare('==', a, b, st), st, depth + 1)

    def _decide_cmp(self, c, st, depth):
        op, a, b = c.a
        ka, kb = self.kind(a, st), self.kind(b, st)
        if op in ('is', '=='):
            for x, kx, y in ((a, ka, b), (b, kb, a)):
                if y.op == 'const' and y.a[0] is None:
                    if kx == 'none':
                        return True
                    if kx is not None and not self.maybe_none(x):
                        return False
                if y.op == 'const' and y.a[0] is Ellipsis and kx is not None \
                        and kx != 'ellipsis':
                    return False
            if self.distinct(a, b):
                return False
            if op == 'is' and a.op in ('ref', 'cls', 'func', 'ext') and \
                    b.op in ('ref', 'cls', 'func', 'ext'):
                return a.sid == b.sid
            for x, y in ((a, b), (b, a)):
                if x.op == 'type' and y.op in ('ext', 'cls'):
                    k = self.kind(x.a[0], st)
                    if k in ('array', 'concrete', 'engine') and y.op == 'ext' and \
                            y.a[0].startswith('builtins.'):
                        return False
                    if k in ('int', 'bool') and y.op == 'ext' and \
                            y.a[0] not in ('builtins.int', 'builtins.bool') and \
                            not y.a[0].startswith('numpy.'):
                        return False
            if op == '==':
                for x, y in ((a, b), (b, a)):
                    if self.info(x).get('isbool') is False and y.op == 'call' and \
                            y.a[0].op == 'ext' and y.a[0].a[0] == 'numpy.dtype' and \
                            y.a[1] and y.a[1][0].op in ('const', 'ext') and \
                            y.a[1][0].a[0] in ('bool', 'bool_', '?', 'builtins.bool',
                                               'numpy.bool_'):
                        return False
            if op == '==' and a.op in ('slice', 'tuple', 'const') and \
                    b.op in ('slice', 'tuple', 'const') and a.op != b.op:
                return False
            if op == '==' and a.op == 'slice' and b.op == 'slice':
                rs = [self.eq(x, y, st, depth) for x, y in zip(a.a, b.a)]
                if any(r is False for r in rs):
                    return False
                if all(rs):
                    return True
            simple = ('int', 'slice', 'tuple', 'none', 'str', 'ellipsis', 'list', 'func')
            if op == '==' and ka in simple and kb in simple and ka != kb:
                return False
        if op in ('<', '<=', '==') and self.intish(a, st) and self.intish(b, st):
            d = lin_sub(lin(b), lin(a))         # b - a
            neg = (-d[0], {k: (-v, x) for k, (v, x) in d[1].items()})
            facts = self._linfacts(st)
            isint = ka in ('int', 'bool') and kb in ('int', 'bool')
            one = 1 if isint else 0
            if op == '<':
                if isint and self.nonneg((d[0] - 1, d[1]), st, facts):
                    return True
                if self.nonneg(neg, st, facts):
                    return False
            elif op == '<=':
                if self.nonneg(d, st, facts):
                    return True
                if isint and self.nonneg((neg[0] - 1, neg[1]), st, facts):
                    return False
            else:
                if not d[1]:
                    return d[0] == 0
                if isint and (self.nonneg((d[0] - 1, d[1]), st, facts) or
                              self.nonneg((neg[0] - 1, neg[1]), st, facts)):
                    return False
                if self.nonneg(d, st, facts) and self.nonneg(neg, st, facts):
                    return True
        if op == 'in':
            return self._decide_in(a, b, st, depth)
        return None

    def _decide_in(self, a, b, st, depth):
        items = self.items(b, st)
        if items is None:
            return None
        rs = [self.eq(a, x, st, depth) for x in items]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None

    def maybe_none(self, t):
        return bool(self.info(t).get('maybe_none'))

    def refine(self, v, st):
        while v.op == 'phi':
            d = self.decide(v.a[0], st)
            if d is None:
                return v
            v = v.a[1] if d else v.a[2]
        return v

    # ----------------------------------------------------------------- kinds
    def kind(self, t, st):
        op = t.op
        if op == 'const':
            v = t.a[0]
            if v is None:
                return 'none'
            if isinstance(v, bool):
                return 'bool'
            if isinstance(v, int):
                return 'int'
            if isinstance(v, float):
                return 'float'
            if isinstance(v, str):
                return 'str'
            if v is Ellipsis:
                return 'ellipsis'
            return type(v).__name__
        i = self.info(t)
        if 'kind' in i:
            return i['kind']
        if op in ('tuple', 'nt', 'slice'):
            return 'tuple' if op == 'nt' else op
        if op == 'ref':
            r = st.heap.get(t.a[0])
            if isinstance(r, Lst):
                return 'objarray' if r.nd else 'list'
            if isinstance(r, Dct):
                return 'dict'
            if isinstance(r, Inst):
                return 'array' if self.isarraycls(r.cls) else 'inst'
            return None
        if op == 'phi':
            a, b = self.kind(t.a[1], st), self.kind(t.a[2], st)
            if a == b:
                return a
            if a in ('int', 'bool', 'float', 'num') and b in ('int', 'bool', 'float', 'num'):
                return 'num'
            if {a, b} <= {'nd', 'ma', 'anynd', 'npscalar'}:
                return 'anynd'
            if {a, b} <= {'tuple', 'list'}:
                return 'list' if 'list' in (a, b) else 'tuple'
            return None
        if op in ('cmp',):
            x, y = self.kind(t.a[1], st), self.kind(t.a[2], st)
            if t.a[0] in ('is', 'in'):
                return 'bool'
            if x in ('nd', 'ma', 'anynd') or y in ('nd', 'ma', 'anynd'):
                return 'ma' if 'ma' in (x, y) else 'nd'
            return 'bool'
        if op in ('and', 'isinst', 'hasattr', 'truthy', 'throws', 'forall', 'exists',
                  'issub'):
            return 'bool'
        if op == 'not':
            return self.kind(t.a[0], st)
        if op in ('len', 'idx', 'id', 'hash'):
            return 'int'
        if op in ('func', 'bm', 'bmx', 'cls', 'partial', 'ext', 'mod', 'lambda'):
            return 'func'
        if op == 'bin':
            x, y = self.kind(t.a[1], st), self.kind(t.a[2], st)
            for k in ('array', 'ma', 'nd', 'anynd', 'objarray'):
                if k in (x, y):
                    return k
            if x in ('tuple', 'list', 'str'):
                return x
            if x in ('int', 'bool') and y in ('int', 'bool'):
                return 'float' if t.a[0] == '/' else 'int'
            num = ('int', 'bool', 'float', 'num')
            if x in num and y in num:
                return 'float' if 'float' in (x, y) else 'num'
            return None
        if op == 'neg':
            return self.kind(t.a[0], st)
        if op in ('mu', 'loop'):
            init = t.a[2]
            if op == 'loop':
                a, b = self.kind(init, st), self.kind(t.a[4], st)
                return a if a == b else None
            return self.kind(init, st)
        if op == 'conv':
            return 'nd' if t.a[0] == 'nd' else 'ma'
        if op == 'store':
            return self.kind(t.a[0], st)
        if op == 'sub':
            b = self.kind(t.a[0], st)
            if b in ('array', 'nd', 'ma', 'anynd', 'concrete'):
                if b == 'concrete':
                    return 'anynd'
                return b
            if b == 'shape':
                return 'int' if t.a[1].op != 'slice' else 'shape'
            if b == 'intseq':
                return 'int' if t.a[1].op != 'slice' else 'intseq'
            return None
        if op == 'at':
            b = self.kind(t.a[0], st)
            if b in ('shape', 'intseq'):
                return 'int'
            if b in ('nd', 'ma', 'array', 'anynd'):
                return b
            return self.info(t.a[0]).get('elem')
        if op == 'attr':
            n = t.a[1]
            b = self.kind(t.a[0], st)
            if n == 'shape' and b in ('array', 'nd', 'ma', 'anynd', 'concrete'):
                return 'shape'
            if n in ('ndim', 'size', 'itemsize', 'nbytes') and \
                    b in ('array', 'nd', 'ma', 'anynd', 'concrete', 'dtype'):
                return 'int'
            if n == 'dtype':
                return 'dtype'
            if n in ('data',) and b == 'ma':
                return 'nd'
            if n == 'mask' and b == 'ma':
                return 'anynd'
            if n == 'T':
                return b
            return None
        if op == 'call':
            return self.callkind(t, st)
        if op == 'rngel':
            return 'int'
        if op in ('map', 'cat', 'seqslice'):
            return 'tuple'
        return None

    def isarraycls(self, ci):
        return any(isinstance(c, ClassInfo) and c.name == 'Array' for c in self.mro(ci))

    def callkind(self, t, st):
        from . import models
        return models.callkind(self, t, st)

    # --------------------------------------------------------------- classes
    def mro(self, ci):
        if ci.mro is None:
            out = [ci]
            for b in ci.bases:
                if b.op == 'cls':
                    for c in self.mro(self.cls(b)):
                        if c in out:
                            out.remove(c)
                        out.append(c)
            ci.mro = out
        return ci.mro

    def cls(self, t):
        return self.classes[t.a[0]]

    def clsT(self, ci):
        return T('cls', ci.key)

    def find(self, ci, name, after=None):
        m = self.mro(ci)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def func(self, t):
        return self.funcs[t.a[0]]

    # ------------------------------------------------------------- variables
    def lookup(self, name, st, node=None):
        fr = self.frames[-1]
        if name not in fr.globals_declared:
            for fid in (fr.fid,) + tuple(reversed(fr.closure)):
                env = st.envs.get(fid)
                if env is not None and name in env:
                    return self.refine(env[name], st)
        env = st.envs.get('mod:' + fr.module, {})
        if name in env:
            return env[name]
        from . import models
        b = models.builtin(name)
        if b is not None:
            return b
        if name == 'NotImplemented':
            return T('ext', 'builtins.NotImplemented')
        return self.unk('unbound name %s' % name, node)

    def assign_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals_declared:
            self.ev('setglobal', st, None, obj=T('mod', fr.module), name=name, val=v)
            st.setvar('mod:' + fr.module, name, v)
            return
        if name in fr.nonlocals:
            for fid in reversed(fr.closure):
                if name in st.envs.get(fid, {}):
                    st.setvar(fid, name, v)
                    return
        st.setvar(fr.fid, name, v)

    # ---------------------------------------------------------------- merging
    def merge(self, c, s1, s2, base=None):
        """State equal to s1 where c holds, else s2."""
        out = s1.copy()
        memo = self.phi_memo
        for fid in s2.envs:
            e1, e2 = s1.envs.get(fid), s2.envs.get(fid)
            if e1 is e2 or e1 is None:
                if e1 is None:
                    out.envs[fid] = e2
                continue
            for n in set(e1) | set(e2):
                a, b = e1.get(n, UNDEF), e2.get(n, UNDEF)
                if a is not b:
                    v = b if a is UNDEF else a if b is UNDEF else self.phi(c, a, b, memo)
                    out.setvar(fid, n, v)
        if s1.heap is not s2.heap:
            for oid, r2 in s2.heap.items():
                r1 = s1.heap.get(oid)
                if r1 is r2:
                    continue
                if r1 is None:
                    out.put(oid, r2)
                else:
                    out.put(oid, self.merge_rec(c, r1, r2, memo))
        n = 0
        for x, y in zip(s1.path, s2.path):
            if x.sid != y.sid:
                break
            n += 1
        common = s1.path[:n]
        # keep facts that hold on both sides
        sids = {p.sid for p in s2.path[n:]}
        out.path = common + tuple(p for p in s1.path[n:] if p.sid in sids)
        return out

    def phi(self, c, a, b, memo=None):
        self._keep.append((a, b))
        return mk_phi(c, a, b, memo)

    def merge_rec(self, c, r1, r2, memo):
        if isinstance(r1, Inst) and isinstance(r2, Inst):
            f = {}
            for n in set(r1.fields) | set(r2.fields):
                a, b = r1.fields.get(n, UNDEF), r2.fields.get(n, UNDEF)
                f[n] = b if a is UNDEF else a if b is UNDEF else \
                    a if a is b else self.phi(c, a, b, memo)
            return Inst(r1.cls, f)
        if isinstance(r1, Lst) and isinstance(r2, Lst):
            if r1.items is not None and r2.items is not None:
                if len(r1.items) == len(r2.items):
                    return Lst(tuple(self.phi(c, a, b, memo)
                                     for a, b in zip(r1.items, r2.items)), nd=r1.nd)
            elif r1.items is None and r2.items is None and r1.seq.sid == r2.seq.sid:
                t1, t2 = r1.tail, r2.tail
                n = 0
                while n < len(t1) and n < len(t2):
                    n += 1
                tail = tuple(self.phi(c, a, b, memo) for a, b in zip(t1, t2))
                tail += tuple(T('opt', c, x) for x in t1[n:])
                tail += tuple(T('opt', mk_not(c), x) for x in t2[n:])
                return Lst(None, r1.seq, tail, r1.nd)
            return Lst(None, mk_phi(c, self.seqterm_rec(r1), self.seqterm_rec(r2)), (),
                       r1.nd)
        if isinstance(r1, Dct) and isinstance(r2, Dct):
            k1 = [(k, v) for k, v in r1.items]
            k2 = {k.sid: (k, v) for k, v in r2.items}
            items = []
            for k, v in k1:
                if k.sid in k2:
                    items.append((k, self.phi(c, v, k2.pop(k.sid)[1], memo)))
                else:
                    items.append((k, T('opt', c, v)))
            items += [(k, T('opt', mk_not(c), v)) for k, v in k2.values()]
            base = r1.base if r1.base is r2.base else T('unk', 'dict merge', 0)
            return Dct(items, base)
        return r1

    def fold(self, outs, base):
        """Merge outcomes (mutually exclusive) into one (state, value)."""
        o = outs[-1]
        st, val = o.st, o.val
        for o in reversed(outs[:-1]):
            c = mk_and(list(o.st.path[len(base):]))
            nst = self.merge(c, o.st, st)
            if val is not None and o.val is not None:
                val = self.phi(c, o.val, val, self.phi_memo)
            st = nst
        return st, val

    # ------------------------------------------------------------- sequences
    def seqterm_rec(self, r):
        if ndims(r) is not None:
            return T('ndarr', T('tuple', *[const(d) for d in r.nd]), T('tuple', *r.items))
        if r.items is not None:
            return T('tuple', *r.items)
        parts = [r.seq]
        if r.tail:
            parts.append(T('tuple', *r.tail))
        return parts[0] if len(parts) == 1 else T('cat', *parts)

    def seqterm(self, t, st):
        """A structural term for a sequence value."""
        if t.op == 'ref':
            r = st.heap.get(t.a[0])
            if isinstance(r, Lst):
                return self.seqterm_rec(r)
        return t

    def items(self, t, st):
        """Known items of an iterable value, or None."""
        t = self.refine(t, st)
        if t.op == 'tuple':
            return list(t.a)
        if t.op == 'nt':
            return list(t.a[1])
        if t.op == 'ref':
            r = st.heap.get(t.a[0])
            if isinstance(r, Lst):
                if ndims(r) is not None:
                    n = len(r.items) // r.nd[0] if r.nd[0] else 0
                    sub = tuple(r.nd[1:])
                    return [self.alloc(st, Lst(r.items[i * n:(i + 1) * n],
                                               nd=sub if len(sub) != 1 else True))
                            for i in range(r.nd[0])]
                return list(r.items) if r.items is not None else None
            if isinstance(r, Dct) and r.base is None and \
                    not any(v.op == 'opt' for k, v in r.items):
                return [k for k, v in r.items]
            if isinstance(r, Inst) and r.cls.fields:
                return None
        if t.op == 'const' and isinstance(t.a[0], str):
            return [const(c) for c in t.a[0]]
        i = self.info(t)
        if 'items' in i:
            return list(i['items'])
        if t.op == 'call' and t.a[0].op == 'ext':
            n = t.a[0].a[0]
            args = t.a[1]
            if n == 'builtins.range' and all(is_const(x) for x in args):
                return [const(i) for i in range(*[x.a[0] for x in args])][:4096]
        if t.op == 'attr' and t.a[1] == 'shape':
            i = self.info(t)
            if 'items' in i:
                return list(i['items'])
        if t.op == 'cat':
            out = []
            for p in t.a:
                x = self.items(p, st)
                if x is None:
                    return None
                out += x
            return out
        return None

    def length(self, t, st):
        x = self.items(t, st)
        if x is not None:
            return const(len(x))
        t = self.seqterm(t, st)
        if t.op == 'map' and t.a[3].op == 'const' and t.a[3].a[0] is True:
            return self.length(t.a[0], st)
        if t.op == 'cat':
            out = ZERO
            for p in t.a:
                out = mk_bin('+', out, self.length(p, st))
            return out
        if t.op == 'phi':
            return mk_phi(t.a[0], self.length(t.a[1], st), self.length(t.a[2], st))
        if t.op == 'attr' and t.a[1] == 'shape':
            return self.getattr(t.a[0], 'ndim', st)
        return T('len', t)

    def element(self, seq, idx, st):
        """The generic element of an unknown sequence at index idx."""
        seq = self.seqterm(seq, st)
        if seq.op == 'phi':
            return mk_phi(seq.a[0], self.element(seq.a[1], idx, st),
                          self.element(seq.a[2], idx, st))
        if seq.op == 'map':
            src, var, body, cond = seq.a
            if cond.op == 'const':
                return subst(body, {var.sid: idx})
        if seq.op == 'call' and seq.a[0].op == 'ext' and seq.a[0].a[0] == 'builtins.range':
            a = seq.a[1]
            lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else \
                (a[0], a[1], ONE) if len(a) == 2 else a
            if step.op == 'const' and step.a[0] == 1:
                r = mk_bin('+', lo, idx)
            else:
                r = T('rngel', idx, lo, hi, step)
            return r
        if seq.op == 'enum':
            return T('tuple', mk_bin('+', seq.a[1], idx), self.element(seq.a[0], idx, st))
        if seq.op == 'zip':
            return T('tuple', *[self.element(x, idx, st) for x in seq.a])
        if seq.op == 'rev':
            return self.element(seq.a[0], mk_bin('-', mk_bin('-', self.length(seq.a[0], st),
                                                             ONE), idx), st)
        if seq.op == 'tuple':
            return T('at', seq, idx)
        if seq.op == 'ndindex':
            its = self.items(seq.a[0], st)
            if its is not None:
                return T('tuple', *[T('mi', idx, const(p), b, info={'kind': 'int', 'lo': 0})
                                    for p, b in enumerate(its)])
            return T('map', seq.a[0], T('idx', 'p', 0), T('mi', idx, T('idx', 'p', 0),
                     T('at', seq.a[0], T('idx', 'p', 0)), info={'kind': 'int', 'lo': 0}), TRUE)
        k = self.kind(seq, st)
        elem = self.info(seq).get('elemf')
        if elem is not None:
            return elem(idx)
        return T('at', seq, idx)

    # ------------------------------------------------------------- attributes
    def getattr(self, v, name, st, node=None):
        v = self.refine(v, st)
        if v.op == 'phi':
            return self.dist(v, st, lambda x, s: self.getattr(x, name, s, node))
        if v.op == 'ref':
            r = st.heap.get(v.a[0])
            if isinstance(r, Inst):
                return self.inst_attr(v, r, name, st, node)
            if isinstance(r, Lst) and r.nd:
                dims = ndims(r)
                if name == 'flat':
                    return v if dims is None else self.new_list(st, r.items, True)
                if name == 'shape':
                    return T('tuple', self.length(v, st)) if dims is None else \
                        T('tuple', *[const(d) for d in dims])
                if name == 'ndim':
                    return ONE if dims is None else const(len(dims))
                if name == 'size':
                    return self.length(v, st) if dims is None else const(len(r.items))
                if name == 'T' and dims is None:
                    return v
                if name == 'dtype':
                    return T('attr', v, 'dtype', info={'kind': 'dtype'})
            return T('bmx', v, name)
        if v.op == 'mod':
            fid = 'mod:' + v.a[0]
            env = st.envs.get(fid, {})
            if name in env:
                return env[name]
            sub = v.a[0] + '.' + name
            if self.ismod(sub):
                self.load(sub)
                return T('mod', sub)
            return self.unk('no attribute %s in module %s' % (name, v.a[0]), node)
        if v.op == 'ext':
            from . import models
            return models.ext_attr(self, v, name, st)
        if v.op == 'cls':
            ci = self.cls(v)
            a, owner = self.find(ci, name)
            if a is not None:
                if a.op == 'static':
                    return a.a[0]
                if a.op == 'clsm':
                    return T('bm', a.a[0], v)
                if a.op == 'prop':
                    return a
                return a
            if name == '__name__':
                return const(ci.name)
            if name == '__dict__':
                return T('clsdict', v)
            return T('attr', v, name)
        if v.op == 'prop':
            if name == 'fget':
                return v.a[0]
            if name in ('setter', 'getter', 'deleter'):
                return T('propset', v, name)
        if v.op == 'super':
            cls_t, self_t = v.a
            r = st.heap.get(self_t.a[0]) if self_t.op == 'ref' else None
            ci = r.cls if isinstance(r, Inst) else (
                self.cls(self_t) if self_t.op == 'cls' else None)
            if ci is None:
                return T('attr', v, name)
            a, owner = self.find(ci, name, after=self.cls(cls_t))
            if a is None:
                return T('noop', name)
            return self.bind(a, self_t, st, node)
        if v.op == 'nt':
            ci = self.classes[v.a[0]]
            if name in ci.fields:
                return v.a[1][ci.fields.index(name)]
            return T('bmx', v, name)
        if v.op == 'func':
            f = self.func(v)
            if name == '__name__':
                return const(f.display)
            return T('attr', v, name)
        if v.op == 'bm' and name == '__name__':
            return const(self.func(v.a[0]).display)
        if v.op == 'slice' and name in ('start', 'stop', 'step'):
            return v.a[('start', 'stop', 'step').index(name)]
        from . import models
        return models.value_attr(self, v, name, st, node)

    def inst_attr(self, v, r, name, st, node):
        a, owner = self.find(r.cls, name)
        if a is not None and a.op == 'prop':
            return self.call(a.a[0], [v], {}, st, node)
        if name in r.fields:
            return self.refine(r.fields[name], st)
        if a is not None:
            return self.bind(a, v, st, node)
        if name == '__class__':
            return self.clsT(r.cls)
        if name == '__dict__':
            return T('instdict', v)
        g, owner = self.find(r.cls, '__getattr__')
        if g is not None:
            return self.call(g, [v, const(name)], {}, st, node)
        if self.extbase(r.cls):
            return T('attr', v, name)
        self.ev('noattr', st, node, obj=v, name=name)
        self.do_raise(T('exc', 'AttributeError', T('tuple', const(name))), st, node)

    def extbase(self, ci):
        for c in self.mro(ci):
            for b in c.bases:
                if b.op != 'cls' and not (b.op == 'ext' and b.a[0] in (
                        'builtins.object', 'abc.ABC', 'builtins.Exception')):
                    return True
        return False

    def bind(self, a, self_t, st, node):
        if a.op == 'func':
            return T('bm', a, self_t)
        if a.op == 'static':
            return a.a[0]
        if a.op == 'clsm':
            c = self_t
            if self_t.op == 'ref':
                c = self.clsT(st.heap[self_t.a[0]].cls)
            return T('bm', a.a[0], c)
        if a.op == 'prop':
            return self.call(a.a[0], [self_t], {}, st, node)
        return a

    def dist(self, v, st, fn):
        """Apply fn to both branches of a phi and merge."""
        c = v.a[0]
        res = []
        for pol in (True, False):
            s = st.copy()
            s.assume(c if pol else mk_not(c))
            try:
                x = fn(v.a[1 if pol else 2], s)
                res.append((s, x))
            except Dead:
                pass
        if not res:
            raise Dead()
        if len(res) == 1:
            st.become(res[0][0])
            return res[0][1]
        m = self.merge(c, res[0][0], res[1][0])
        st.become(m)
        if res[0][1] is None:
            return None
        return self.phi(c, res[0][1], res[1][1], self.phi_memo)

    def setattr(self, v, name, val, st, node):
        v = self.refine(v, st)
        if v.op == 'phi':
            return self.dist(v, st, lambda x, s: self.setattr(x, name, val, s, node))
        if v.op == 'ref':
            r = st.heap.get(v.a[0])
            if isinstance(r, Inst):
                a, owner = self.find(r.cls, name)
                if a is not None and a.op == 'prop' and len(a.a) > 1 and a.a[1] is not None:
                    self.call(a.a[1], [v, val], {}, st, node)
                    return
                self.ev('setfield', st, node, obj=v, cls=r.cls.name, name=name, val=val,
                        old=r.fields.get(name))
                f = dict(r.fields)
                f[name] = val
                st.put(v.a[0], Inst(r.cls, f))
                return
        if v.op == 'func':
            if name == '__name__' and val.op == 'const':
                self.func(v).display = val.a[0]
            return
        if v.op in ('cls', 'ext', 'mod'):
            if v.op == 'mod':
                st.setvar('mod:' + v.a[0], name, val)
            self.ev('setglobal', st, node, obj=v, name=name, val=val)
            return
        self.ev('mutate', st, node, how='setattr', target=v, name=name, val=val)
        if self.kind(v, st) in ('nd', 'ma', 'anynd', None):
            self.replace(v, T('withattr', v, name, val), st)

    def replace(self, old, new, st):
        """The mutable object `old` now has value `new`: update all references."""
        def upd(x):
            # `old` may be one of the alternatives of a value
            if x is old:
                return new
            if x.op == 'phi':
                p, q = upd(x.a[1]), upd(x.a[2])
                if p is not x.a[1] or q is not x.a[2]:
                    return T('phi', x.a[0], p, q, info=x.info)
            return x
        for fid in list(st.envs):
            env = st.envs[fid]
            for n, x in list(env.items()):
                y = upd(x)
                if y is not x:
                    st.setvar(fid, n, y)
        for oid in list(st.heap):
            r = st.heap[oid]
            if isinstance(r, Inst):
                f = {n: upd(x) for n, x in r.fields.items()}
                if any(f[n] is not x for n, x in r.fields.items()):
                    st.put(oid, Inst(r.cls, f))
            elif isinstance(r, Lst) and r.items is not None:
                it = tuple(upd(x) for x in r.items)
                if any(x is not y for x, y in zip(it, r.items)):
                    st.put(oid, Lst(it, nd=r.nd))
        # `old` may be a view of something else
        if old.op == 'sub' and self.kind(old.a[0], st) in ('nd', 'ma', 'anynd', None) \
                and new.op != 'withattr':
            base = old.a[0]
            self.replace(base, T('store', base, old.a[1], new), st)
        elif old.op == 'call' and old.a[0].op == 'bmx' and \
                old.a[0].a[1] in ('view', 'transpose', 'reshape') and new.op != 'withattr':
            pass

    # -------------------------------------------------------------- raising
    def do_raise(self, exc, st, node=None):
        e = self.ev('raise', st, node, exc=exc)
        self.raises[-1].append(Outcome('raise', st.copy(), exc, self.site(node)))
        raise Dead()

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        outs = []
        cur = st
        for i, s in enumerate(stmts):
            try:
                res = self.stmt(s, cur)
            except Dead:
                return outs
            nxt = None
            normals = [o for o in res if o.kind == 'normal']
            outs += [o for o in res if o.kind != 'normal']
            if not normals:
                return outs
            if len(normals) == 1:
                cur = normals[0].st
            else:
                raise AssertionError('several normal outcomes')
        outs.append(Outcome('normal', cur))
        return outs

    def stmt(self, s, st):
        fr = self.frames[-1]
        fr.line = s.lineno
        self.nodes_analysed.add((fr.module, s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk('statement %s' % type(s).__name__, s)
            return [Outcome('normal', st)]
        r = m(s, st)
        if r is None:
            return [Outcome('normal', st)]
        return r

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.unk('assign target', t)

    def unpack(self, elts, v, st):
        v = self.refine(v, st)
        if v.op == 'phi' and v.a[1].op == 'tuple' and v.a[2].op == 'tuple' and \
                len(v.a[1].a) == len(v.a[2].a):
            v = T('tuple', *[self.phi(v.a[0], x, y, self.phi_memo)
                             for x, y in zip(v.a[1].a, v.a[2].a)])
        items = self.items(v, st)
        self.consume(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None:
            if star:
                i = star[0]
                n = len(elts) - 1
                head, mid, tail = items[:i], items[i:len(items) - (n - i)], \
                    items[len(items) - (n - i):]
                items = head + [self.new_list(st, mid)] + tail
            if len(items) != len(elts):
                self.do_raise(T('exc', 'ValueError', T('tuple')), st, elts[0])
            for e, x in zip(elts, items):
                self.assign(e, x, st)
        else:
            sv = self.seqterm(v, st)
            for i, e in enumerate(elts):
                self.assign(e, self.getitem(v, const(i), st, e), st)

    def setitem(self, o, k, v, st, node):
        o = self.refine(o, st)
        if o.op == 'phi':
            return self.dist(o, st, lambda x, s: self.setitem(x, k, v, s, node))
        r = self.rec(o, st)
        if isinstance(r, Lst):
            self.ev('listmut', st, node, obj=o, how='setitem', key=k, val=v)
            k = self.refine(k, st)
            if ndims(r) is not None:
                sel = nd_select(self, r, k, st)
                if sel == 'oob':
                    self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
                if sel is None or sel[1] != ():
                    self.unk('assignment to part of an object array', node)
                    return
                it = list(r.items)
                it[sel[0][0]] = v
                st.put(o.a[0], Lst(tuple(it), nd=r.nd))
                return
            kk = k
            if r.nd and k.op == 'tuple' and len(k.a) == 1:
                kk = k.a[0]
            if r.items is not None and kk.op == 'const' and isinstance(kk.a[0], int):
                i = kk.a[0]
                if not -len(r.items) <= i < len(r.items):
                    self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
                it = list(r.items)
                it[i] = v
                st.put(o.a[0], Lst(tuple(it), nd=r.nd))
                return
            if r.items is not None and k.op == 'slice' and \
                    all(is_const(x) for x in k.a):
                new = self.items(v, st)
                if new is not None:
                    it = list(r.items)
                    it[slice(*[x.a[0] for x in k.a])] = new
                    st.put(o.a[0], Lst(tuple(it), nd=r.nd))
                    return
            st.put(o.a[0], Lst(None, T('seqset', self.seqterm(o, st), k,
                                       self.seqterm(v, st)), (), r.nd))
            return
        if isinstance(r, Dct):
            self.ev('dictmut', st, node, obj=o, key=k, val=v)
            items = []
            done = False
            for k0, v0 in r.items:
                if k0.sid == k.sid:
                    items.append((k0, v))
                    done = True
                else:
                    items.append((k0, v0))
            if not done:
                items.append((k, v))
            st.put(o.a[0], Dct(items, r.base))
            return
        if isinstance(r, Inst):
            a, owner = self.find(r.cls, '__setitem__')
            if a is not None:
                self.call(T('bm', a, o), [k, v], {}, st, node)
                return
        if o.op == 'globals':
            if k.op == 'const':
                st.setvar('mod:' + self.frames[-1].module if o.a[0] is None else o.a[0],
                          k.a[0], v)
            return
        self.ev('mutate', st, node, how='setitem', target=o, key=k, val=v)
        self.replace(o, T('store', o, self.keyterm(k, st), v), st)

    def keyterm(self, k, st):
        if k.op == 'ref':
            r = st.heap.get(k.a[0])
            if isinstance(r, Lst):
                return T('list', *[self.keyterm(x, st) for x in r.items]) \
                    if r.items is not None else T('listseq', self.seqterm_rec(r))
        if k.op == 'tuple':
            return T('tuple', *[self.keyterm(x, st) for x in k.a])
        return k

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, t)
            rhs = self.eval(s.value, st)
            new = self.iop(op, old, rhs, st, s)
            if new is not None:
                self.assign_name(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.getattr(o, t.attr, st, t)
            rhs = self.eval(s.value, st)
            new = self.iop(op, old, rhs, st, s)
            if new is not None:
                self.setattr(o, t.attr, new, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            old = self.getitem(o, k, st, t)
            rhs = self.eval(s.value, st)
            okind = self.kind(o, st)
            if okind in ('nd', 'ma', 'anynd') or (okind is None and o.op not in ('ref',)):
                new = self.binop(op, old, rhs, st, s)
            else:
                new = self.iop(op, old, rhs, st, s, rebind=True)
            self.setitem(o, k, new, st, t)

    IMMUT = ('int', 'bool', 'float', 'num', 'str', 'tuple', 'none', 'slice', 'dtype',
             'shape', 'npscalar', 'complex')

    def iop(self, op, old, rhs, st, node, rebind=False):
        """In-place operation.  Returns the new value to bind, or None if the
        object itself was updated."""
        old = self.refine(old, st)
        r = self.rec(old, st)
        if isinstance(r, Lst) and not r.nd and op == '+':
            self.list_extend(old, rhs, st, node)
            return old if rebind else None
        k = self.kind(old, st)
        new = self.binop(op, old, rhs, st, node)
        if isinstance(r, Lst) and r.nd:
            rr = self.rec(new, st)
            if isinstance(rr, Lst):
                self.ev('listmut', st, node, obj=old, how='iop')
                st.put(old.a[0], rr)
                return old if rebind else None
            return new
        if k in self.IMMUT or isinstance(r, Inst):
            return new
        self.ev('mutate', st, node, how='iop', target=old, op=op, rhs=rhs, kindof=k)
        if new.op == 'bin' and new.a[0] == op and new.a[1].sid == old.sid and \
                k not in self.IMMUT:
            new = T('bin', op + '=', new.a[1], new.a[2], info=new.info)
        self.replace(old, new, st)
        return new

    def list_extend(self, lst, rhs, st, node):
        r = self.rec(lst, st)
        items = self.items(rhs, st)
        self.ev('listmut', st, node, obj=lst, how='extend', val=rhs)
        if items is not None:
            self.list_append(lst, items, st)
            self.consume(rhs, st)
        else:
            seq = self.seqterm(rhs, st)
            self.consume(rhs, st)
            base = self.seqterm_rec(r)
            parts = (base.a if base.op == 'cat' else (base,)) + (seq,)
            parts = tuple(p for p in parts if not (p.op == 'tuple' and not p.a))
            st.put(lst.a[0], Lst(None, parts[0] if len(parts) == 1 else T('cat', *parts)))

    def list_append(self, lst, items, st):
        r = self.rec(lst, st)
        if r.items is not None:
            st.put(lst.a[0], Lst(r.items + tuple(items), nd=r.nd))
        else:
            st.put(lst.a[0], Lst(None, r.seq, r.tail + tuple(items), r.nd))

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        return [Outcome('return', st, v, s)]

    def s_Break(self, s, st):
        return [Outcome('break', st, None, s)]

    def s_Continue(self, s, st):
        return [Outcome('continue', st, None, s)]

    def s_Global(self, s, st):
        self.frames[-1].globals_declared |= set(s.names)

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocals |= set(s.names)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.delvar(self.frames[-1].fid, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.delitem(o, k, st, t)
            else:
                self.unk('del', s)

    def delitem(self, o, k, st, node):
        o = self.refine(o, st)
        k = self.refine(k, st)
        r = self.rec(o, st)
        if isinstance(r, Lst):
            self.ev('listmut', st, node, obj=o, how='del')
            if r.items is not None and k.op == 'const':
                it = list(r.items)
                try:
                    del it[k.a[0]]
                except IndexError:
                    self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
                st.put(o.a[0], Lst(tuple(it), nd=r.nd))
                return
            if r.items is not None and k.op == 'slice' and all(is_const(x) for x in k.a):
                it = list(r.items)
                del it[slice(*[x.a[0] for x in k.a])]
                st.put(o.a[0], Lst(tuple(it), nd=r.nd))
                return
            st.put(o.a[0], Lst(None, T('delat', self.seqterm_rec(r), k), (), r.nd))
            return
        if isinstance(r, Dct):
            st.put(o.a[0], Dct([(a, b) for a, b in r.items if a.sid != k.sid], r.base))
            return
        self.ev('mutate', st, node, how='delitem', target=o, key=k)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.guard_raise(mk_not(c), T('exc', 'AssertionError', T('tuple')), st, s)

    def guard_raise(self, c, exc, st, node):
        """Raise exc where c holds; continue otherwise."""
        d = self.decide(c, st)
        if d is False:
            return
        if d is True:
            self.do_raise(exc, st, node)
        s2 = st.copy()
        s2.assume(c)
        try:
            self.do_raise(exc, s2, node)
        except Dead:
            pass
        st.assume(mk_not(c))

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = T('exc', '<reraise>', T('tuple'))
        else:
            exc = self.excterm(self.eval(s.exc, st), st)
        self.do_raise(exc, st, s)

    def excterm(self, v, st):
        if v.op == 'exc':
            return v
        if v.op == 'ext':
            return T('exc', v.a[0].split('.')[-1], T('tuple'))
        if v.op == 'cls':
            return T('exc', self.cls(v).name, T('tuple'))
        if v.op == 'ref':
            r = self.rec(v, st)
            if isinstance(r, Inst):
                return T('exc', r.cls.name, T('tuple'))
        if v.op == 'call' and v.a[0].op == 'ext':
            return T('exc', v.a[0].a[0].split('.')[-1], T('tuple'))
        return T('exc', 'Exception', T('tuple'))

    def s_If(self, s, st):
        return self.branch(self.cond(s.test, st), st,
                           lambda x: self.block(s.body, x),
                           lambda x: self.block(s.orelse, x))

    def branch(self, c, st, f, g):
        d = self.decide(c, st)
        if d is True:
            return self.norm1(f(st), st.path)
        if d is False:
            return self.norm1(g(st), st.path)
        base = st.path
        s1 = st.copy()
        s2 = st.copy()
        s1.assume(c)
        s2.assume(mk_not(c))
        o1 = f(s1)
        o2 = g(s2)
        outs = [o for o in o1 + o2 if o.kind != 'normal']
        n1 = [o for o in o1 if o.kind == 'normal']
        n2 = [o for o in o2 if o.kind == 'normal']
        if n1 and n2:
            outs.append(Outcome('normal', self.merge(c, n1[0].st, n2[0].st)))
        elif n1 or n2:
            outs.append((n1 or n2)[0])
        return outs

    def norm1(self, outs, base):
        return outs

    def s_FunctionDef(self, s, st):
        v = self.make_func(s, st)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            v = self.decorate(dv, v, st, s)
        self.assign_name(s.name, v, st)

    def decorate(self, dv, v, st, node):
        if dv.op == 'ext':
            n = dv.a[0].split('.')[-1]
            if n == 'property':
                return T('prop', v, None)
            if n == 'abstractproperty':
                self.func(v).abstract = True
                return T('prop', v, None)
            if n == 'staticmethod':
                return T('static', v)
            if n == 'classmethod':
                return T('clsm', v)
            if n == 'abstractmethod':
                if v.op == 'func':
                    self.func(v).abstract = True
                return v
        if dv.op == 'propset':
            return T('prop', dv.a[0].a[0], v)
        return self.call(dv, [v], {}, st, node)

    def make_func(self, s, st, name=None):
        fr = self.frames[-1]
        name = name or getattr(s, 'name', '<lambda>')
        q = (fr.func.qual + '.' if fr.func else
             (fr.cls + '.' if fr.cls else '')) + name
        f = FuncVal(name, q, s, fr.module,
                    fr.closure + ((fr.fid,) if fr.func is not None else ()))
        a = s.args
        f.defaults = [self.eval(d, st) for d in a.defaults]
        f.kwdefaults = {x.arg: self.eval(d, st)
                        for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not isinstance(s, ast.Lambda):
            f.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                           for n in own_nodes(s))
        self.funcs.append(f)
        return T('func', len(self.funcs) - 1)

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        bases = []
        for b in s.bases:
            bv = self.eval(b, st)
            bases.extend(self.base_classes(bv))
        qual = (fr.cls + '.' if fr.cls else '') + s.name
        ci = ClassInfo(s.name, bases, fr.module, s)
        ci.qual = qual
        key = '%s:%s' % (fr.module, qual)
        while key in self.classes:
            key += "'"
        ci.key = key
        self.classes[key] = ci
        for b in bases:
            if b.op == 'ext':
                n = b.a[0].split('.')[-1]
                if n in EXC_BASES or n == 'BaseException':
                    self.user_exc[s.name] = n
            elif b.op == 'cls' and self.cls(b).name in self.user_exc:
                self.user_exc[s.name] = self.cls(b).name
            if b.op == 'cls' and self.cls(b).fields:
                ci.fields = self.cls(b).fields
        self.fidc += 1
        cf = Frame('c%d' % self.fidc, None, fr.module)
        cf.closure = fr.closure + ((fr.fid,) if fr.func is not None else ())
        cf.cls = qual
        st.setvar(cf.fid, '__qualname__', const(qual))
        self.frames.append(cf)
        try:
            outs = self.block(s.body, st)
        finally:
            self.frames.pop()
        n = [o for o in outs if o.kind == 'normal']
        if n:
            st.become(n[0].st)
        ci.attrs = {k: v for k, v in st.envs.get(cf.fid, {}).items()}
        for k, v in ci.attrs.items():
            f = v.a[0] if v.op in ('prop', 'static', 'clsm') else v
            if f.op == 'func':
                fv = self.func(f)
                if not hasattr(fv, 'owner') or fv.owner is None:
                    fv.owner = ci
        v = self.clsT(ci)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, st), v, st, s)
        self.assign_name(s.name, v, st)

    def base_classes(self, bv):
        if bv.op == 'call' and bv.a[0].op == 'ext' and \
                bv.a[0].a[0] == 'six.with_metaclass':
            out = []
            for x in bv.a[1][1:]:
                out += self.base_classes(x)
            return out
        return [bv]

    def s_Import(self, s, st):
        for al in s.names:
            top = al.name.split('.')[0]
            if self.ismod(top):
                target = al.name if al.asname else top
                if al.name != self.frames[-1].module:
                    self.import_mod(al.name, st)
                v = T('mod', target)
                if not self.ismod(target):
                    v = T('ext', target)
            else:
                v = T('ext', al.name if al.asname else top)
            self.assign_name(al.asname or top, v, st)

    def import_mod(self, name, st):
        if name in self.modules:
            return
        # evaluate in the same global state
        save = self.loading
        self.loading = st
        try:
            # make parents
            parts = name.split('.')
            for i in range(1, len(parts)):
                p = '.'.join(parts[:i])
                if p not in self.modules:
                    self.load(p)
            if name not in self.modules:
                self.load(name)
        finally:
            self.loading = save

    def s_ImportFrom(self, s, st):
        mod = s.module or ''
        fr = self.frames[-1]
        if s.level:
            base = fr.module.split('.')
            path = os.path.join(self.root, *base)
            if not os.path.isdir(path):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod == '__future__':
            return
        if mod.split('.')[0] == self.package and self.ismod(mod):
            self.import_mod(mod, st)
            env = st.envs.get('mod:' + mod, {})
            names = s.names
            if len(names) == 1 and names[0].name == '*':
                allv = env.get('__all__')
                lst = self.items(allv, st) if allv is not None else None
                pub = [x.a[0] for x in lst if is_const(x)] if lst is not None else \
                    [n for n in env if not n.startswith('_')]
                for n in pub:
                    if n in env:
                        self.assign_name(n, env[n], st)
                self.assign_name(mod.split('.')[-1], T('mod', mod), st)
                return
            for al in names:
                if al.name in env:
                    v = env[al.name]
                elif self.ismod(mod + '.' + al.name):
                    self.import_mod(mod + '.' + al.name, st)
                    v = T('mod', mod + '.' + al.name)
                else:
                    v = self.unk('import %s from %s' % (al.name, mod), s)
                self.assign_name(al.asname or al.name, v, st)
            return
        from . import models
        for al in s.names:
            v = models.import_ext(mod, al.name)
            self.assign_name(al.asname or al.name, v, st)

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T('enter', v), st)
        return self.block(s.body, st)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        it = self.refine(it, st)
        items = self.items(it, st)
        if items is None and it.op == 'phi':
            a, b = self.items(it.a[1], st), self.items(it.a[2], st)
            if a is not None and b is not None and len(a) == len(b):
                items = [self.phi(it.a[0], x, y, self.phi_memo) for x, y in zip(a, b)]
        if items is not None and len(items) <= self.concrete_loop_limit:
            self.consume(it, st)
            return self.unrolled(s, items, st)
        if it.op == 'ref' and it.a[0] in self.once:
            r = st.heap[it.a[0]]
            self.consume(it, st)
            it = self.alloc(st, Lst(r.items, r.seq, r.tail, r.nd))
        return self.generic_loop(s, st, it)

    def unrolled(self, s, items, st):
        base = st.path
        outs = []
        breaks = []
        cur = st
        for x in items:
            try:
                self.assign(s.target, x, cur)
            except Dead:
                cur = None
                break
            b0 = cur.path
            res = self.block(s.body, cur)
            nxt = []
            for o in res:
                if o.kind in ('normal', 'continue'):
                    nxt.append(Outcome('normal', o.st))
                elif o.kind == 'break':
                    breaks.append(o)
                else:
                    outs.append(o)
            if not nxt:
                cur = None
                break
            cur, _ = self.fold(nxt, b0)
        ends = []
        if cur is not None:
            if s.orelse:
                res = self.block(s.orelse, cur)
                for o in res:
                    if o.kind == 'normal':
                        ends.append(o)
                    else:
                        outs.append(o)
            else:
                ends.append(Outcome('normal', cur))
        ends = [Outcome('normal', o.st) for o in breaks] + ends
        if ends:
            stt, _ = self.fold(ends, base)
            outs.append(Outcome('normal', stt))
        return outs

    def s_While(self, s, st):
        base = st.path
        outs, breaks = [], []
        cur = st
        for n in range(self.concrete_loop_limit):
            saved = cur.copy()
            ne, nr = len(self.events), len(self.raises[-1])
            c = self.cond(s.test, cur)
            d = self.decide(c, cur)
            if d is None or (n == 0 and isinstance(s.test, ast.Constant)) or \
                    (n == self.concrete_loop_limit - 1 and d):
                del self.events[ne:]
                del self.raises[-1][nr:]
                res = self.generic_loop(s, saved, None)
                for o in res:
                    if o.kind == 'normal':
                        breaks.append(o)
                    else:
                        outs.append(o)
                cur = None
                break
            if not d:
                break
            res = self.block(s.body, cur)
            nxt = []
            for o in res:
                if o.kind in ('normal', 'continue'):
                    nxt.append(Outcome('normal', o.st))
                elif o.kind == 'break':
                    breaks.append(o)
                else:
                    outs.append(o)
            if not nxt:
                cur = None
                break
            cur, _ = self.fold(nxt, saved.path)
        ends = [Outcome('normal', o.st) for o in breaks]
        if cur is not None:
            ends.append(Outcome('normal', cur))
        if ends:
            stt, _ = self.fold(ends, base)
            outs.append(Outcome('normal', stt))
        return outs

    def slots(self, s1, s2):
        """Slots whose value differs between two states."""
        env, heap = set(), set()
        for fid in s2.envs:
            e1, e2 = s1.envs.get(fid), s2.envs[fid]
            if e1 is e2 or e1 is None:
                continue
            for n in e2:
                if n in e1 and e1[n].sid != e2[n].sid:
                    env.add((fid, n))
        if s1.heap is not s2.heap:
            for oid, r2 in s2.heap.items():
                r1 = s1.heap.get(oid)
                if r1 is None or r1 is r2:
                    continue
                if isinstance(r1, Inst):
                    for n in set(r1.fields) | set(r2.fields):
                        a, b = r1.fields.get(n, UNDEF), r2.fields.get(n, UNDEF)
                        if a.sid != b.sid:
                            heap.add((oid, n))
                elif isinstance(r1, Lst):
                    if self.seqterm_rec(r1).sid != self.seqterm_rec(r2).sid:
                        heap.add((oid, None))
                elif isinstance(r1, Dct):
                    if r1.items != r2.items:
                        heap.add((oid, None))
        return env, heap

    def generic_loop(self, s, st, it, comp=None):
        """One generic iteration of a for loop (it given) or while loop."""
        self.loopdepth += 1
        depth = self.loopdepth
        try:
            return self._generic_loop(s, st, it, depth)
        finally:
            self.loopdepth -= 1

    def _generic_loop(self, s, st, it, depth):
        env, heap = set(), set()
        seq = self.seqterm(it, st) if it is not None else None
        if it is None:
            self.nfuzz += 1
        idx = T('idx', depth, seq if seq is not None else T('while', s.lineno),
                info={'kind': 'int', 'lo': 0})
        base = st.path
        for attempt in range(6):
            w = st.copy()
            mus = {}
            for fid, n in env:
                m = T('mu', depth, n, st.envs[fid][n])
                mus[(fid, n)] = m
                w.setvar(fid, n, m)
            for oid, n in heap:
                r = w.heap[oid]
                if isinstance(r, Inst):
                    m = T('mu', depth, n, st.heap[oid].fields.get(n, UNDEF))
                    mus[(oid, n)] = m
                    f = dict(r.fields)
                    f[n] = m
                    w.put(oid, Inst(r.cls, f))
                elif isinstance(r, Lst):
                    w.put(oid, Lst(None, T('mu', depth, 'list', self.seqterm_rec(st.heap[oid])),
                                   (), r.nd))
                elif isinstance(r, Dct):
                    w.put(oid, Dct((), T('mu', depth, 'dict', const(oid))))
            ne, nr = len(self.events), len(self.raises[-1])
            start = w.copy()
            outs = []
            try:
                if it is not None:
                    el = self.element(it, idx, w)
                    self.add_elem_facts(it, idx, el, w)
                    self.assign(s.target, el, w)
                else:
                    c = self.cond(s.test, w)
                    w.assume(c)
                b0 = w.path
                outs = self.block(s.body, w)
            except Dead:
                pass
            ends = [o for o in outs if o.kind in ('normal', 'continue')]
            e2, h2 = set(), set()
            for o in ends + [o for o in outs if o.kind == 'break']:
                a, b = self.slots(start, o.st)
                e2 |= a
                h2 |= b
            # only slots that exist before the loop matter
            e2 = {(f, n) for f, n in e2 if f in st.envs and n in st.envs[f]}
            h2 = {(o, n) for o, n in h2 if o in st.heap}
            if e2 <= env and h2 <= heap:
                break
            env |= e2
            heap |= h2
            del self.events[ne:]
            del self.raises[-1][nr:]
        res = [o for o in outs if o.kind in ('return',)]
        breaks = [o for o in outs if o.kind == 'break']
        after = st.copy()
        if ends:
            end, _ = self.fold([Outcome('normal', o.st) for o in ends], b0)
            for fid, n in env:
                after.setvar(fid, n, self.loopterm(
                    depth, n, st.envs[fid][n], mus[(fid, n)], end.envs[fid].get(n, UNDEF),
                    seq if seq is not None else T('while', s.lineno)))
            for oid, n in heap:
                r0, r1 = st.heap[oid], end.heap[oid]
                if isinstance(r0, Inst):
                    f = dict(after.heap[oid].fields)
                    f[n] = self.loopterm(
                        depth, n, r0.fields.get(n, UNDEF), mus[(oid, n)],
                        r1.fields.get(n, UNDEF),
                        seq if seq is not None else T('while', s.lineno))
                    after.put(oid, Inst(r0.cls, f))
                elif isinstance(r0, Lst):
                    after.put(oid, self.loop_list(r0, r1, seq, idx, s))
                elif isinstance(r0, Dct):
                    after.put(oid, Dct(r0.items, T('loopdict', seq or T('while', s.lineno), idx,
                                                   T('tuple', *[T('tuple', k, v) for k, v in
                                                                r1.items]))))
            # variables first bound inside the loop
            for fid in end.envs:
                if fid in st.envs:
                    for n, v in end.envs[fid].items():
                        if n not in st.envs[fid]:
                            after.setvar(fid, n, T('lastof', v))
            # objects allocated inside the loop
            for oid, r in end.heap.items():
                if oid not in after.heap:
                    after.put(oid, r)
        elif not breaks and it is None:
            # while loop whose body never completes
            pass
        # facts: no iteration raised
        n_r = [o for o in self.raises[-1][nr:]] if True else []
        for o in n_r:
            g = mk_and(list(o.st.path[len(base):]))
            if g.op != 'const' and seq is not None:
                after.assume(T('forall', seq, idx, mk_not(g)))
        outs2 = list(res)
        fin = []
        if it is not None or not (isinstance(s.test, ast.Constant) and s.test.value):
            if it is None:
                c = self.cond(s.test, after)
                after.assume(mk_not(c))
            if s.orelse:
                for o in self.block(s.orelse, after):
                    (fin if o.kind == 'normal' else outs2).append(o)
            else:
                fin.append(Outcome('normal', after))
        for o in breaks:
            if not o.st.path[len(base):]:
                o.st.assume(T('exists', depth, T('while', s.lineno)))
            fin.insert(0, Outcome('normal', o.st))
        if fin:
            stt, _ = self.fold(fin, base)
            outs2.append(Outcome('normal', stt))
        return outs2

    def loopterm(self, depth, n, init, mu, body, seq):
        t = T('loop', depth, n, init, mu, body, seq)
        k = (mu.sid, seq.sid)
        old = self.loops.get(k)
        # two different loops which cannot be told apart: neither is known
        self.loops[k] = t if old is None or (old is not False and old.sid == t.sid) else False
        return t

    def add_elem_facts(self, it, idx, el, st):
        if it is None:
            return
        seq = self.seqterm(it, st)
        if seq.op == 'call' and seq.a[0].op == 'ext' and seq.a[0].a[0] == 'builtins.range':
            a = seq.a[1]
            lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) < 3:
                st.assume(mk_cmp('<', el, hi))
            elif el.op == 'rngel' and self.kind(a[2], st) == 'int':
                if self.decide(mk_cmp('<', ZERO, a[2]), st):
                    st.assume(mk_cmp('<=', lo, el))
                    st.assume(mk_cmp('<', el, hi))
        else:
            st.assume(mk_cmp('<', idx, self.length(seq, st)))

    def loop_list(self, r0, r1, seq, idx, s):
        """List after a loop that only appended to it."""
        if r1.items is None and r1.seq.op == 'mu' and r1.tail and seq is not None:
            base = self.seqterm_rec(r0)
            if len(r1.tail) == 1:
                x = r1.tail[0]
                if x.op == 'opt':
                    m = T('map', seq, idx, x.a[1], x.a[0])
                else:
                    m = T('map', seq, idx, x, TRUE)
            else:
                m = T('flatmap', seq, idx, T('tuple', *r1.tail))
            if base.op == 'tuple' and not base.a:
                return Lst(None, m, (), r0.nd)
            parts = base.a if base.op == 'cat' else (base,)
            return Lst(None, T('cat', *(parts + (m,))), (), r0.nd)
        return Lst(None, T('looplist', self.seqterm_rec(r0), self.seqterm_rec(r1),
                           seq if seq is not None else T('while', s.lineno)), (), r0.nd)

    # -------------------------------------------------------------------- try
    def s_Try(self, s, st):
        base = st.path
        entry = st.copy()
        self.raises.append([])
        self.maythrow.append(0)
        try:
            outs = self.block(s.body, st)
        finally:
            raised = self.raises.pop()
            thrown = self.maythrow.pop()
        normal = [o for o in outs if o.kind == 'normal']
        others = [o for o in outs if o.kind != 'normal']
        tid = T('throws', s.lineno, self.frames[-1].func.qual if self.frames[-1].func else '')
        implicit = thrown > 0 and bool(s.handlers)
        results = []
        rem = list(raised)
        fallthrough = []
        self.raises.append([])
        try:
            if normal and s.orelse:
                n = []
                for o in normal:
                    if implicit:
                        o.st.assume(mk_not(tid))
                    for x in self.block(s.orelse, o.st):
                        (n if x.kind == 'normal' else others).append(x)
                normal = n
            elif implicit:
                for o in normal + others:
                    if o.kind != 'raise':
                        o.st.assume(mk_not(tid))
            for h in s.handlers:
                names = self.handler_names(h, entry)
                match = []
                keep = []
                for o in rem:
                    nm = o.val.a[0]
                    if names is None or any(exc_isa(nm, x, self.user_exc) for x in names) or \
                            nm == '<reraise>':
                        match.append(o)
                    else:
                        keep.append(o)
                rem = keep
                hs = [(o.st, o.val) for o in match]
                if implicit:
                    si = entry.copy()
                    si.assume(tid)
                    si.assume(T('throws', s.lineno, '|'.join(names or ['*'])))
                    hs.append((si, T('exc', (names or ['Exception'])[0], T('tuple'))))
                for hst, exc in hs:
                    if h.name:
                        hst.setvar(self.frames[-1].fid, h.name, exc)
                    for o in self.block(h.body, hst):
                        (fallthrough if o.kind == 'normal' else others).append(o)
        finally:
            hraised = self.raises.pop()
        up = rem + hraised
        ends = fallthrough + normal
        if s.finalbody:
            n2 = []
            for o in ends:
                for x in self.block(s.finalbody, o.st):
                    (n2 if x.kind == 'normal' else results).append(x)
            ends = n2
            for o in others:
                for x in self.block(s.finalbody, o.st):
                    if x.kind == 'normal':
                        results.append(Outcome(o.kind, x.st, o.val, o.node))
                    else:
                        results.append(x)
            for o in up:
                for x in self.block(s.finalbody, o.st.copy()):
                    if x.kind == 'normal':
                        self.raises[-1].append(Outcome('raise', x.st, o.val, o.node))
                    else:
                        results.append(x)
        else:
            results += others
            self.raises[-1].extend(up)
        if ends:
            stt, _ = self.fold(ends, base)
            results.append(Outcome('normal', stt))
        return results

    def handler_names(self, h, st):
        if h.type is None:
            return None
        v = self.eval(h.type, st.copy())
        vs = v.a if v.op == 'tuple' else (v,)
        out = []
        for x in vs:
            if x.op == 'ext':
                out.append(x.a[0].split('.')[-1])
            elif x.op == 'cls':
                out.append(self.cls(x).name)
        if 'BaseException' in out:
            return None
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        v = self.eval(e, st)
        return self.truth(v, st, e)

    def truth(self, v, st, node=None):
        v = self.refine(v, st)
        if v.op == 'const':
            return const(bool(v.a[0])) if v.a[0] is not Ellipsis else TRUE
        k = self.kind(v, st)
        if v.op in ('cmp', 'and', 'not', 'isinst', 'hasattr', 'truthy', 'throws',
                    'forall', 'exists', 'issub'):
            if v.op == 'not' and k not in ('bool', None):
                return mk_not(self.truth(v.a[0], st))
            return v
        if v.op == 'phi':
            return mk_phi(v.a[0], self.truth(v.a[1], st), self.truth(v.a[2], st))
        if k in ('none',):
            return FALSE
        items = self.items(v, st)
        if items is not None and k in ('tuple', 'list', 'dict', 'shape'):
            return const(len(items) > 0)
        if k == 'bool':
            return v
        if k in ('int', 'num', 'float'):
            return mk_not(mk_cmp('==', v, ZERO))
        if k in ('tuple', 'list', 'shape'):
            return mk_not(mk_cmp('==', self.length(v, st), ZERO))
        if k in ('func', 'inst', 'array', 'slice', 'dtype'):
            r = self.rec(v, st)
            if isinstance(r, Inst):
                for m in ('__bool__', '__nonzero__', '__len__'):
                    a, o = self.find(r.cls, m)
                    if a is not None:
                        return self.truth(self.call(T('bm', a, v), [], {}, st, node), st)
            if not self.maybe_none(v):
                return TRUE
        return T('truthy', self.seqterm(v, st))

    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression %s' % type(e).__name__, e)
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, st, e)

    def e_Tuple(self, e, st):
        return T('tuple', *self.eval_list(e.elts, st)) if not any(
            isinstance(x, ast.Starred) for x in e.elts) else self.star_seq(e.elts, st, False)

    def eval_list(self, elts, st):
        return [self.eval(x, st) for x in elts]

    def star_seq(self, elts, st, aslist):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = self.items(v, st)
                if it is None:
                    v = self.seqterm(v, st) if v.op == 'ref' and v.a[0] in self.once else v
                else:
                    self.consume(v, st)
                if it is not None:
                    cur += it
                else:
                    if cur:
                        parts.append(T('tuple', *cur))
                        cur = []
                    parts.append(self.seqterm(v, st))
            else:
                cur.append(self.eval(x, st))
        if cur or not parts:
            parts.append(T('tuple', *cur))
        seq = parts[0] if len(parts) == 1 else T('cat', *parts)
        if aslist:
            return self.new_seq(st, seq)
        return seq

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, st, True)
        return self.new_list(st, self.eval_list(e.elts, st))

    def e_Set(self, e, st):
        return T('set', *self.eval_list(e.elts, st))

    def e_Dict(self, e, st):
        items = []
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st)
                r = self.rec(d, st)
                if isinstance(r, Dct):
                    items += list(r.items)
                    base = base or r.base
                else:
                    base = d
            else:
                items.append((self.eval(k, st), self.eval(v, st)))
        return self.alloc(st, Dct(items, base))

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.eval(x, st)
        return T('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, st):
        return self.eval(e.value, st)

    def e_ExtSlice(self, e, st):
        return T('tuple', *[self.eval(x, st) for x in e.dims])

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        k = self.eval(e.slice, st)
        return self.getitem(o, k, st, e)

    def getitem(self, o, k, st, node=None):
        o = self.refine(o, st)
        k = self.refine(k, st)
        if o.op == 'phi':
            return self.dist(o, st, lambda x, s: self.getitem(x, k, s, node))
        r = self.rec(o, st)
        if isinstance(r, Inst):
            a, owner = self.find(r.cls, '__getitem__')
            if a is not None:
                return self.call(T('bm', a, o), [k], {}, st, node)
        if isinstance(r, Dct):
            maybe = []
            for k0, v in r.items:
                if v.op == 'opt':
                    maybe.append((k0, v))
                    continue
                d = self.eq(k0, k, st)
                if d:
                    return v
                if d is None:
                    maybe.append((k0, v))
            if not maybe and r.base is None:
                self.do_raise(T('exc', 'KeyError', T('tuple')), st, node)
            return T('dictget', o, k)
        if k.op == 'phi' and self.items(o, st) is not None:
            return self.dist(k, st, lambda x, s: self.getitem(o, x, s, node))
        if isinstance(r, Lst) and ndims(r) is not None:
            sel = nd_select(self, r, k, st)
            if sel == 'oob':
                self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
            if sel is not None:
                it = [r.items[i] for i in sel[0]]
                if sel[1] == ():
                    return self.refine(it[0], st)
                return self.viewof(o, self.alloc(st, Lst(
                    tuple(it), nd=sel[1] if len(sel[1]) > 1 else True)))
            return T('sub', self.seqterm(o, st), self.keyterm(k, st))
        if o.op == 'const' and (o.a[0] is None or type(o.a[0]) in (int, bool, float)):
            self.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
        items = self.items(o, st)
        isl = isinstance(r, Lst)
        if items is not None and not (o.op == 'sym' and self.kind(o, st) == 'concrete'):
            kk = k
            tr = self.info(k.a[0] if k.op == 'tuple' and len(k.a) == 1 else k).get('truth')
            if isl and r.nd and tr is not None:
                if len(tr) > len(items):
                    self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
                return self.new_list(st, [x for x, y in zip(items, tr) if y], True)
            if isl and r.nd and k.op == 'tuple' and len(k.a) == 1:
                kk = self.refine(k.a[0], st)
            if isl and r.nd and k.op == 'tuple' and len(k.a) == 0:
                return self.viewof(o, self.new_list(st, items, True))
            if kk.op == 'const' and isinstance(kk.a[0], int):
                i = kk.a[0]
                if not -len(items) <= i < len(items):
                    self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
                return self.refine(items[i], st)
            if kk.op == 'slice' and all(is_const(x) for x in kk.a):
                sl = items[slice(*[x.a[0] for x in kk.a])]
                x = self.new_list(st, sl, r.nd) if isl else T('tuple', *sl)
                return self.viewof(o, x) if isl and r.nd else x
            if isl and r.nd and kk.op in ('tuple', 'ref'):
                its = self.items(kk, st)
                if its is not None and all(x.op == 'const' for x in its):
                    try:
                        return self.new_list(st, [items[x.a[0]] for x in its], True)
                    except IndexError:
                        self.do_raise(T('exc', 'IndexError', T('tuple')), st, node)
            if kk.op not in ('slice', 'tuple', 'ref') and self.kind(kk, st) == 'int' and \
                    items and all(x.op == 'sym' and self.kind(x, st) == 'array'
                                  for x in items):
                # one of the arrays, which one is not known
                ats = [self.info(x).get('attrs', {}) for x in items]
                at = {n: ats[0][n] for n in ('shape', 'dtype', 'fill_value')
                      if all(n in y and y[n].sid == ats[0][n].sid for y in ats)}
                return T('sub', self.seqterm(o, st), kk, info={
                    'kind': 'array', 'attrs': at, 'pieces': items, 'ndim': self.info(
                        items[0]).get('ndim'),
                    'plain': all(self.info(x).get('plain') for x in items)})
        if o.op == 'map' and k.op != 'slice' and self.kind(k, st) == 'int' and \
                o.a[3].op == 'const' and self.decide(mk_cmp('<', k, ZERO), st) is not True:
            return subst(o.a[2], {o.a[1].sid: k})
        if isl:
            if r.items is None and k.op != 'slice' and r.seq.op == 'map' and not r.tail and \
                    self.kind(k, st) == 'int' and not r.nd:
                return self.getitem(r.seq, k, st, node)
            return T('sub', self.seqterm(o, st), self.keyterm(k, st),
                     info={'kind': 'list'} if k.op == 'slice' and not r.nd else None)
        from . import models
        return models.getitem(self, o, k, st, node)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, st, e)

    OPNAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
               '%': 'mod', '**': 'pow', '&': 'and', '|': 'or', '^': 'xor',
               '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}

    def binop(self, op, a, b, st, node=None):
        a, b = self.refine(a, st), self.refine(b, st)
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            r = self.rec(x, st)
            if isinstance(r, Inst):
                f, o = self.find(r.cls, '__%s%s__' % (pre, self.OPNAMES[op]))
                if f is not None:
                    return self.call(T('bm', f, x), [y], {}, st, node)
        ra, rb = self.rec(a, st), self.rec(b, st)
        if isinstance(ra, Lst) or isinstance(rb, Lst):
            from . import models
            return models.listop(self, op, a, b, st, node)
        if op == '+' and self.kind(a, st) == 'tuple' and self.kind(b, st) == 'tuple':
            ia, ib = self.items(a, st), self.items(b, st)
            if ia is not None and ib is not None:
                return T('tuple', *(ia + ib))
            pa = a.a if a.op == 'cat' else (a,)
            pb = b.a if b.op == 'cat' else (b,)
            return T('cat', *[p for p in pa + pb if not (p.op == 'tuple' and not p.a)])
        if op == '%' and a.op == 'const' and isinstance(a.a[0], str):
            return T('strfmt', a, b)
        self.opevent(op, a, b, st, node)
        return mk_bin(op, a, b)

    def opevent(self, op, a, b, st, node):
        for x in (a, b):
            if self.kind(x, st) == 'array':
                self.ev('arrayop', st, node, op=op, args=(a, b))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand, st))
        v = self.refine(self.eval(e.operand, st), st)
        if isinstance(e.op, ast.USub):
            if is_num(v):
                return const(-v.a[0])
            if self.kind(v, st) == 'int':
                return lin_term(lin(T('neg', v)))
            return T('neg', v)
        if isinstance(e.op, ast.Invert):
            if self.kind(v, st) in ('nd', 'anynd', 'bool', 'ma', None):
                return mk_not(v) if v.op in ('cmp', 'not', 'and') else T('invert', v)
            return T('invert', v)
        return v

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        return self._boolop(e.values, 0, isand, st)

    def _boolop(self, vals, i, isand, st):
        v = self.eval(vals[i], st)
        if i == len(vals) - 1:
            return v
        c = self.truth(v, st, vals[i])
        d = self.decide(c, st)
        if d is not None:
            if d == isand:
                return self._boolop(vals, i + 1, isand, st)
            return v if self.kind(v, st) != 'bool' else const(d)
        s = st.copy()
        s.assume(c if isand else mk_not(c))
        try:
            rest = self._boolop(vals, i + 1, isand, s)
        except Dead:
            st.assume(mk_not(c) if isand else c)
            return v
        o = st.copy()
        o.assume(mk_not(c) if isand else c)
        m = self.merge(c if isand else mk_not(c), s, o)
        st.become(m)
        kv, kr = self.kind(v, st), self.kind(rest, st)
        if kv == 'bool' and (kr == 'bool' or rest.op in ('truthy',)):
            rc = self.truth(rest, st)
            return mk_and([c, rc]) if isand else mk_or([c, rc])
        if isand:
            return self.phi(c, rest, v, self.phi_memo)
        return self.phi(c, v, rest, self.phi_memo)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        d = self.decide(c, st)
        if d is not None:
            return self.eval(e.body if d else e.orelse, st)
        vals = []
        for pol, ex in ((True, e.body), (False, e.orelse)):
            s = st.copy()
            s.assume(c if pol else mk_not(c))
            try:
                vals.append((s, self.eval(ex, s)))
            except Dead:
                vals.append(None)
        if vals[0] is None and vals[1] is None:
            raise Dead()
        if vals[0] is None or vals[1] is None:
            s, v = vals[0] or vals[1]
            st.become(s)
            return v
        st.become(self.merge(c, vals[0][0], vals[1][0]))
        return self.phi(c, vals[0][1], vals[1][1], self.phi_memo)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out.append(self.compare(CMPOPS[type(op)], left, right, st, e))
            left = right
        if len(out) == 1:
            return out[0]
        return mk_and([self.truth(x, st) for x in out])

    def compare(self, op, a, b, st, node=None):
        a, b = self.refine(a, st), self.refine(b, st)
        if op in ('is', 'is not'):
            c = mk_cmp('is', a, b)
            return c if op == 'is' else mk_not(c)
        if op in ('in', 'not in'):
            r = self.rec(b, st)
            if isinstance(r, Dct):
                if r.base is None and not any(v.op == 'opt' for k, v in r.items):
                    ks = T('tuple', *[k for k, v in r.items])
                    d = self._decide_in(a, ks, st, 0)
                    if d is not None:
                        return const(d if op == 'in' else not d)
                c = mk_cmp('in', a, T('dictkeys', b, T('tuple', *[
                    T('tuple', k, v) for k, v in r.items])))
                return c if op == 'in' else mk_not(c)
            bs = self.seqterm(b, st)
            if bs.op == 'tuple':
                d = self._decide_in(a, bs, st, 0)
                if d is not None:
                    return const(d if op == 'in' else not d)
            c = mk_cmp('in', a, bs)
            return c if op == 'in' else mk_not(c)
        sa, sb = self.seqterm(a, st), self.seqterm(b, st)
        ka, kb = self.kind(a, st), self.kind(b, st)
        if self.info(a).get('nan') or self.info(b).get('nan'):
            return const(op == '!=')
        if op in ('==', '!='):
            if {ka, kb} == {'list', 'tuple'} and a.op in ('ref', 'tuple') and \
                    b.op in ('ref', 'tuple'):
                return const(op == '!=')
            ia = self.items(a, st) if ka in ('tuple', 'list', 'shape') else None
            ib = self.items(b, st) if kb in ('tuple', 'list', 'shape') else None
            if ia is not None and ib is not None:
                if len(ia) != len(ib):
                    return const(op == '!=')
                c = mk_and([self.compare('==', x, y, st) for x, y in zip(ia, ib)])
                return c if op == '==' else mk_not(c)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            for x in (a, b):
                if self.kind(x, st) == 'array' and x.op != 'ref':
                    pass
        if sa.op == 'slice' and sb.op == 'slice' and op in ('==', '!='):
            c = mk_and([self.compare('==', x, y, st) for x, y in zip(sa.a, sb.a)])
            return c if op == '==' else mk_not(c)
        c = mk_cmp(op, sa, sb)
        return c

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            ci = getattr(fr.func, 'owner', None)
            if ci is not None:
                args = fr.func.node.args.args
                selfv = st.envs[fr.fid][args[0].arg]
                return T('super', self.clsT(ci), selfv)
        f = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = self.items(v, st)
                if it is not None:
                    args += it
                else:
                    args.append(T('star', self.seqterm(v, st)))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                r = self.rec(self.refine(v, st), st)
                if isinstance(r, Dct) and r.base is None:
                    for kk, vv in r.items:
                        if kk.op == 'const' and vv.op != 'opt':
                            kw[kk.a[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def e_Lambda(self, e, st):
        return self.make_func(e, st)

    def e_JoinedStr(self, e, st):
        vals = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                vals.append(self.eval(v.value, st))
        return T('str', *vals, info={'kind': 'str'})

    def e_FormattedValue(self, e, st):
        return T('str', self.eval(e.value, st), info={'kind': 'str'})

    def e_Starred(self, e, st):
        return T('star', self.seqterm(self.eval(e.value, st), st))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        fid = self.frames[-1].fid
        lst = st.envs[fid].get('<yields>')
        self.ev('yield', st, e, val=v)
        if lst is not None:
            self.list_append(lst, [v], st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        fid = self.frames[-1].fid
        lst = st.envs[fid].get('<yields>')
        if lst is not None:
            self.list_extend(lst, v, st, e)
        return NONE

    # comprehensions: evaluated as a loop appending to a list
    def comp(self, e, st, kind):
        fid = self.frames[-1].fid
        hidden = '<comp%d>' % len(st.envs.get(fid, ()))
        if kind == 'dict':
            res = self.alloc(st, Dct())
        else:
            res = self.new_list(st, [])
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.envs.get(fid, {}).get(n) for n in names}
        st.setvar(fid, hidden, res)
        line = e.lineno

        def inner(i):
            if i == len(e.generators):
                if kind == 'dict':
                    n = ast.Assign(targets=[ast.Subscript(
                        value=ast.Name(id=hidden, ctx=ast.Load()), slice=e.key,
                        ctx=ast.Store())], value=e.value)
                else:
                    n = ast.Expr(value=ast.Call(func=ast.Attribute(
                        value=ast.Name(id=hidden, ctx=ast.Load()), attr='append',
                        ctx=ast.Load()), args=[e.elt], keywords=[]))
                ast.copy_location(n, e)
                for x in ast.walk(n):
                    if not hasattr(x, 'lineno'):
                        ast.copy_location(x, e)
                return [n]
            g = e.generators[i]
            body = inner(i + 1)
            for c in reversed(g.ifs):
                n = ast.If(test=c, body=body, orelse=[])
                ast.copy_location(n, e)
                body = [n]
            n = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
            ast.copy_location(n, e)
            return [n]
        if not hasattr(e, '_desugared'):
            e._desugared = {}
        if hidden not in e._desugared:
            e._desugared[hidden] = inner(0)
        line0 = self.frames[-1].line
        outs = self.block(e._desugared[hidden], st)
        self.frames[-1].line = line0
        n = [o for o in outs if o.kind == 'normal']
        if not n:
            raise Dead()
        st.become(n[0].st)
        st.delvar(fid, hidden)
        for nme, v in saved.items():
            if v is None:
                st.delvar(fid, nme)
            else:
                st.setvar(fid, nme, v)
        return res

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list')

    def e_GeneratorExp(self, e, st):
        return self.mark_once(self.comp(e, st, 'list'), st)

    def e_SetComp(self, e, st):
        return T('setof', self.seqterm(self.comp(e, st, 'list'), st))

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict')

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kw, st, node=None):
        f = self.refine(f, st)
        if f.op == 'phi':
            return self.dist(f, st, lambda x, s: self.call(x, args, kw, s, node))
        if f.op == 'func':
            return self.call_func(f, args, kw, st, node)
        if f.op == 'bm':
            s = self.refine(f.a[1], st)
            return self.call_func(f.a[0], [s] + args, kw, st, node) \
                if f.a[0].op == 'func' else self.call(f.a[0], [s] + args, kw, st, node)
        if f.op == 'cls':
            return self.instantiate(self.cls(f), args, kw, st, node)
        if f.op == 'noop':
            return NONE
        if f.op == 'partial':
            kw2 = dict(f.a[2])
            kw2.update(kw)
            return self.call(f.a[0], list(f.a[1]) + args, kw2, st, node)
        if f.op == 'static':
            return self.call(f.a[0], args, kw, st, node)
        if f.op == 'identity_deco':
            return args[0]
        if f.op == 'ref':
            r = self.rec(f, st)
            if isinstance(r, Inst):
                a, o = self.find(r.cls, '__call__')
                if a is not None:
                    return self.call(T('bm', a, f), args, kw, st, node)
        from . import models
        return models.call(self, f, args, kw, st, node)

    def instantiate(self, ci, args, kw, st, node):
        if ci.fields is not None:
            vals = list(args)
            for n in ci.fields[len(vals):]:
                vals.append(kw.get(n, UNDEF))
            a, o = self.find(ci, '__new__')
            self.ev('newnt', st, node, cls=ci)
            return T('nt', ci.key, tuple(vals))
        if ci.name in self.user_exc:
            return T('exc', ci.name, T('tuple', *args))
        ref = self.alloc(st, Inst(ci, {}))
        self.ev('new', st, node, obj=ref, cls=ci)
        a, owner = self.find(ci, '__init__')
        if a is not None and a.op == 'func':
            self.call_func(a, [ref] + args, kw, st, node)
        return ref

    def call_func(self, ft, args, kw, st, node=None):
        f = self.func(ft)
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, st, args, kw, node)
            if r is not None:
                return r
        rec = sum(1 for fr in self.frames if fr.func is not None and
                  fr.func.node is f.node)
        if rec >= self.MAXREC or len(self.frames) > 60:
            self.ev('recursion', st, node, func=f.qual, args=tuple(args))
            return T('call', T('rec', f.qual), tuple(args), ())
        self.calls_inlined += 1
        self.fidc += 1
        fid = 'f%d' % self.fidc
        fr = Frame(fid, f, f.module)
        fr.closure = f.closure
        st.setvar(fid, '<func>', const(f.qual))
        base = st.path
        self.ev('enter', st, node, func=f.qual, args=tuple(args))
        self.frames.append(fr)
        fr.line = f.node.lineno if hasattr(f.node, 'lineno') else 0
        try:
            self.bind_args(f, args, kw, fid, st, node)
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st)
                st.envs.pop(fid, None) if False else None
                return v
            if f.is_gen:
                st.setvar(fid, '<yields>', self.new_list(st, []))
            outs = self.block(f.node.body, st)
        finally:
            self.frames.pop()
        rets = []
        for o in outs:
            if o.kind == 'normal':
                rets.append(Outcome('return', o.st, NONE))
            elif o.kind == 'return':
                rets.append(o)
        if not rets:
            raise Dead()
        stt, val = self.fold(rets, base)
        st.become(stt)
        if f.is_gen:
            y = st.envs[fid]['<yields>']
            return self.mark_once(y, st)
        return self.refine(val, st)

    def bind_args(self, f, args, kw, fid, st, node):
        a = f.node.args
        params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kw = dict(kw)
        vals = {}
        pos = list(args)
        star = None
        for i, x in enumerate(pos):
            if x.op == 'star':
                star = (i, x.a[0])
                break
        if star is not None:
            i, seq = star
            rest = pos[i + 1:]
            pos = pos[:i]
            if a.vararg and len(pos) >= len(params) and not rest:
                vals[a.vararg.arg] = T('cat', T('tuple', *pos[len(params):]), seq) \
                    if pos[len(params):] else seq
                pos = pos[:len(params)]
            else:
                j = 0
                while len(pos) < len(params) - len(rest) and \
                        params[len(pos)] not in kw:
                    pos.append(T('sub', seq, const(j)))
                    j += 1
                pos += rest
                if a.vararg:
                    vals[a.vararg.arg] = T('sub', seq, T('slice', const(j), NONE, NONE))
        for p, v in zip(params, pos):
            vals[p] = v
        extra = pos[len(params):]
        if a.vararg and a.vararg.arg not in vals:
            vals[a.vararg.arg] = T('tuple', *extra)
        elif extra and not a.vararg:
            self.ev('badcall', st, node, func=f.qual)
            self.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
        allnames = params + [x.arg for x in a.kwonlyargs]
        extra_kw = {}
        for k, v in kw.items():
            if k in allnames:
                vals[k] = v
            else:
                extra_kw[k] = v
        if a.kwarg:
            base = extra_kw.pop('**', None)
            vals[a.kwarg.arg] = self.alloc(st, Dct(
                [(const(k), v) for k, v in sorted(extra_kw.items())], base))
        elif '**' in extra_kw:
            base = extra_kw.pop('**')
            for p in allnames:
                if p not in vals:
                    vals[p] = T('dictget', base, const(p))
        if extra_kw and not a.kwarg:
            self.ev('badcall', st, node, func=f.qual)
            self.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            vals.setdefault(p, d)
        for p, d in f.kwdefaults.items():
            vals.setdefault(p, d)
        for p in allnames:
            if p not in vals:
                self.ev('badcall', st, node, func=f.qual)
                self.do_raise(T('exc', 'TypeError', T('tuple')), st, node)
        for p, v in vals.items():
            st.setvar(fid, p, v)


def ndims(r):
    """The shape of an N-dimensional object array (None for lists and 1-d arrays)."""
    return r.nd if isinstance(r.nd, tuple) and r.items is not None else None


def nd_select(I, r, k, st):
    """(positions, shape) that a constant basic index selects, 'oob' or None."""
    ks = list(k.a) if k.op == 'tuple' else I.items(k, st) if k.op == 'ref' else [k]
    if ks is None:
        return None
    ks = [I.refine(x, st) for x in ks]
    dims = list(r.nd)
    ell = [i for i, x in enumerate(ks) if x.op == 'const' and x.a[0] is Ellipsis]
    if len(ell) > 1:
        return None
    fill = [T('slice', NONE, NONE, NONE)] * (len(dims) - len(ks) + len(ell))
    ks = ks[:ell[0]] + fill + ks[ell[0] + 1:] if ell else ks + fill
    if len(ks) != len(dims):
        return 'oob'
    pos, shape = [0], []
    for x, n in zip(ks, dims):
        if x.op == 'slice' and all(is_const(y) for y in x.a):
            sel = range(n)[slice(*[y.a[0] for y in x.a])]
            shape.append(len(sel))
        elif x.op == 'const' and isinstance(x.a[0], int):
            if not -n <= x.a[0] < n:
                return 'oob'
            sel = [x.a[0] % n]
        else:
            return None
        pos = [p * n + i for p in pos for i in sel]
    return pos, tuple(shape)


def own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
          ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
          ast.NotIn: 'not in'}
