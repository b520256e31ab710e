"""Analysis contexts: abstract inputs for the entry points of the package."""
import sys
import time

from .terms import *      # noqa
from .interp import Interp, Dead, Lst, Dct, Inst, Unsupported, Frame

DEADLINE = [time.time() + 1e9]
FULL = T('slice', NONE, NONE, NONE)


class Deadline(BaseException):
    """The time of a check is used up; what is left stays undecided."""


class Fuzz(object):
    """Whether the runs since the last verdict approximated anything that the code of
    the package as first analysed did not need; see Check.bad."""
    flag = 0
    judged = False


class Result(object):
    def __init__(self, val, st, raises, events, unsupported):
        self.val, self.st = val, st
        self.raises = raises          # outcomes
        self.events = events
        self.unsupported = unsupported

    @property
    def dead(self):
        return self.st is None

    def exc_names(self):
        return sorted({o.val.a[0] for o in self.raises})


class Ctx(object):
    def __init__(self, root='/repo', extra=()):
        sys.setrecursionlimit(20000)
        self.I = I = Interp(root)
        I.load('biggus')
        self.st0 = I.loading
        for m in extra:
            s = self.st0.copy()
            I.loading = s
            I.import_mod(m, s)
            self.st0 = s
        self.engine = I.sym('biggus.engine', 'engine')
        if 'engine' in self.st0.envs['mod:biggus']:
            self.real_engine = self.st0.envs['mod:biggus']['engine']
            self.st0.setvar('mod:biggus', 'engine', self.engine)
        self.M = 'biggus._init'
        self.load_unsupported = list(I.unsupported)
        self.n_calls = 0
        self.functions = set()
        self.totev = 0

    # ---------------------------------------------------------------- naming
    def mod(self, m=None):
        return self.st0.envs['mod:' + (m or self.M)]

    def get(self, name, m=None):
        """A module attribute, `Class.attr` or None."""
        parts = name.split('.')
        v = self.mod(m).get(parts[0])
        for p in parts[1:]:
            if v is None or v.op != 'cls':
                return None
            a, o = self.I.find(self.I.cls(v), p)
            v = a
        return v

    def cls(self, name, m=None):
        v = self.get(name, m)
        return self.I.cls(v) if v is not None and v.op == 'cls' else None

    def array_classes(self):
        return [c for k, c in sorted(self.I.classes.items()) if self.I.isarraycls(c)]

    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, **kw):
        if lo is not None:
            kw['lo'] = lo
        return self.I.sym(name, 'int', **kw)

    def dtype(self, name, **kw):
        return self.I.sym(name, 'dtype', **kw)

    def array(self, name, ndim, dtype=None, shape=None, fill=None, **kw):
        shape = shape or [self.int('%s.shape[%d]' % (name, i), 0) for i in range(ndim)]
        at = {'shape': T('tuple', *shape),
              'dtype': dtype or self.dtype(name + '.dtype'),
              'fill_value': fill or self.I.sym(name + '.fill_value', 'npscalar')}
        return self.I.sym(name, 'array', ndim=ndim, attrs=at, **kw)

    def concrete(self, name, ndim, **kw):
        shape = [self.int('%s.shape[%d]' % (name, i), 0) for i in range(ndim)]
        at = {'shape': T('tuple', *shape), 'dtype': self.dtype(name + '.dtype')}
        if kw.pop('fill', False):
            at['fill_value'] = self.I.sym(name + '.fill_value', 'npscalar')
        return self.I.sym(name, 'concrete', ndim=ndim, attrs=at, **kw)

    def nd(self, name, ndim, kind='nd', **kw):
        shape = [self.int('%s.shape[%d]' % (name, i), 0) for i in range(ndim)]
        at = {'shape': T('tuple', *shape), 'dtype': self.dtype(name + '.dtype')}
        at.update(kw.pop('attrs', {}))
        return self.I.sym(name, kind, ndim=ndim, attrs=at, **kw)

    def ndbool(self, name, size=None):
        n = size or self.int(name + '.size', 0)
        return self.I.sym(name, 'ndbool', ndim=1, attrs={
            'shape': T('tuple', n), 'size': n,
            'dtype': T('call', T('ext', 'numpy.dtype'), (const('bool'),), (),
                       info={'kind': 'dtype'})})

    def ndint(self, name, items=None):
        n = const(len(items)) if items is not None else self.int(name + '.size', 0)
        kw = {}
        if items is not None:
            kw['items'] = items
        else:
            kw['elemf'] = lambda idx: T('elem', const(name), idx, info={'kind': 'int'})
        return self.I.sym(name, 'ndint', ndim=1, attrs={
            'shape': T('tuple', n), 'size': n, 'dtype': self.dtype(name + '.dtype',
                                                                   isbool=False)}, **kw)

    # ------------------------------------------------------------------ runs
    def state(self):
        return self.st0.copy()

    def frame(self):
        fr = Frame('q', None, self.M)
        return fr

    def run(self, fn, st=None, assume=()):
        """fn(I, st) -> value, evaluated in a fresh state."""
        I = self.I
        if time.time() > DEADLINE[0]:
            raise Deadline()
        st = st or self.state()
        for c in assume:
            st.assume(c)
        if Fuzz.judged:
            Fuzz.flag, Fuzz.judged = 0, False
        fuzzy, nf, ns = st.fuzzy, I.nfuzz, I.nsoft
        ne, nu = len(I.events), len(I.unsupported)
        I.frames = [self.frame()]
        I.raises = [[]]
        I.maythrow = [0]
        I.loopdepth = 0
        self.n_calls += 1
        val, out = None, st
        try:
            val = fn(I, st)
        except Dead:
            out = None
        except RecursionError:
            I.unsupported.append((('?', '?', 0), 'recursion'))
            out = None
        if I.nfuzz - I.nsoft != nf - ns or len(I.unsupported) != nu:
            fuzzy = 2
        elif I.nsoft != ns:
            fuzzy = max(fuzzy, 1)
        Fuzz.flag = max(Fuzz.flag, fuzzy)
        if out is not None:
            out.fuzzy = fuzzy
        ev = I.events[ne:]
        un = I.unsupported[nu:]
        del I.events[ne:]
        for e in ev:
            if e['kind'] == 'enter':
                self.functions.add(e['func'])
        self.totev += len(ev)
        res = Result(val, out, I.raises[0], ev, un)
        res.approx0 = (nf, nu)
        I.frames, I.raises = [], [[]]
        return res

    def define(self, src, st=None):
        """Definitions added to the analysed module (probes for its extension points)."""
        import ast
        st = st or self.state()
        fr = Frame('mod:' + self.M, None, self.M)

        def go(I, s):
            I.frames.append(fr)
            try:
                outs = I.block(ast.parse(src).body, s)
            finally:
                I.frames.pop()
            s.become(outs[0].st)
            return NONE
        return self.run(go, st)

    def call(self, f, args=(), kw=None, st=None, assume=()):
        if isinstance(f, str):
            f = self.get(f)
        return self.run(lambda I, s: I.call(f, list(args), dict(kw or {}), s), st, assume)

    def method(self, obj, name, args=(), kw=None, st=None, assume=()):
        return self.run(lambda I, s: I.call(I.getattr(obj, name, s), list(args),
                                            dict(kw or {}), s), st, assume)

    def attr(self, obj, name, st=None):
        return self.run(lambda I, s: I.getattr(obj, name, s), st)


def exact_at(res, ev):
    """Whether nothing had been approximated before an event."""
    return not ev['approx'][0] and ev['approx'][1:] == res.approx0


def loc(ev):
    m, q, line = ev['site']
    return '%s.py:%d (%s)' % (m.replace('.', '/'), line, q)
