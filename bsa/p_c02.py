"""C02: operations never modify their inputs; evaluation is repeatable.

Ownership and effects: every in-place write that an operation can reach is traced back to the
object whose memory it changes.  Whatever existed before the operation began is off limits,
except for fields in which an object remembers something; for those, everything that can be
done with the object afterwards (or meanwhile, from another thread) is compared with what it
gives on an untouched object.
"""
from .zoo import *        # noqa
from . import c02_engine
from .alias import origins, bases, DATA_ATTRS
from .interp import Lst, Dct, Inst
from .p_c03 import Ctx as PkgCtx
from .typestate import Package

RULES = {
    'inputs': 'no in-place write of an operation reaches a source, another array, a key or an '
              'argument',
    'history': 'what an operation leaves behind in an object changes nothing that is done with '
               'the object later, or meanwhile',
    'handlers': 'every evaluation gets a stream handler of its own',
    'chunks': 'a stream handler does not change the chunks it is given',
    'emitted': 'a stream handler does not change a result which it has handed on',
    'results': 'the result of an evaluation is filled without changing the chunks it is '
               'filled from',
    'nodes': 'no thread of an evaluation changes data that it was sent',
    'evaluations': 'two evaluations share nothing that they change',
}
LOOKS = ('shape', 'ndim', 'dtype', 'fill_value', 'nbytes')


def protector(C, st, allow=()):
    """A function telling the data which exists in a state, by name."""
    I = C.I
    known = {}

    def note(v, name, depth=0):
        if not isinstance(v, T) or depth > 6:
            return
        if v.op in ('tuple', 'phi', 'nt'):
            for x in v.a:
                note(x, name, depth + 1)
            return
        if v.op in ('call', 'sub', 'bin', 'conv', 'store', 'filled', 'mutated', 'withattr',
                    'attr') and I.kind(v, st) not in ('int', 'dtype', 'bool', 'str', 'shape'):
            known[id(v)] = name
            known.setdefault('keep', []).append(v)
    for oid, r in st.heap.items():
        if oid in allow:
            continue
        if isinstance(r, Inst):
            for n, v in r.fields.items():
                note(v, 'the attribute %s of a %s' % (n, r.cls.name))
        elif isinstance(r, Lst) and r.items is not None:
            for v in r.items:
                note(v, 'an item of a list')
    for e, env in st.envs.items():
        if str(e).startswith('mod:'):
            for n, v in env.items():
                note(v, 'the module variable %s' % n)

    def what(t):
        if id(t) in known:
            return known[id(t)]
        if t.op == 'sym':
            k = I.kind(t, st)
            if k in ('nd', 'ma', 'concrete', 'array', 'ndint', 'ndbool', 'anynd'):
                return {'array': 'the array %s', 'concrete': 'the data source %s'}.get(
                    k, 'the data of %s') % t.a[0]
        if t.op == 'conv':
            k = t.a[1]
            return None if getattr(t, 'how', None) == 'engine' else \
                'the result of converting %s' % show(k, 2)[:40]
        return None
    return what


class Q2(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier
        self.engine_convs = set()

    # ------------------------------------------------------------- writes
    def writes(self, rule, lab, r, before, inputs, protected, own=()):
        """Judge the in-place writes of one run -> the effects on objects which existed."""
        chk, I = self.chk, self.I
        st = r.st
        if st is None:
            st = next((o.st for o in r.raises if getattr(o, 'st', None) is not None),
                      self.C.state())
        fine, effects, published = True, [], set()
        eng = {e['obj'].sid for e in r.events if e['kind'] == 'convert' and
               str(e.get('how')).startswith('engine')}
        direct = {e['obj'].sid for e in r.events if e['kind'] == 'convert' and
                  not str(e.get('how')).startswith('engine')}

        def prot(t):
            if t.op == 'conv' and t.a[1].sid in eng and t.a[1].sid not in direct:
                return None
            return protected(t)

        def bad(e, text):
            chk.gate = not exact_at(r, e)
            chk.bad(rule, lab, loc(e), '%s, called from %s' % (text, ' < '.join(
                reversed([str(x) for x in e['stack'][-4:]]))))
            chk.gate = True
            return False

        def dunno(text):
            chk.dunno(rule, lab, text)
            return False
        for e in r.events:
            k = e['kind']
            if k == 'mutate':
                t = e['target']
                os_, unk = origins(I, t, st, prot)
                if e['how'] == 'setattr' and e.get('name') not in DATA_ATTRS:
                    os_ = [x for x in os_ if x[1]]
                sure = [x for x in os_ if x[2]]
                if sure:
                    fine = bad(e, 'an in-place write (%s) changes %s' % (
                        e['how'] if e['how'] != 'setattr' else 'of .%s' % e.get('name'),
                        sure[0][0]))
                elif os_ or unk:
                    fine = dunno('a write to %s at %s' % (show(t, 2)[:60], loc(e)))
            elif k in ('listmut', 'dictmut'):
                o = e['obj']
                root = o.a[0] if o.op == 'ref' else None
                while root in I.views:
                    root = I.views[root]
                if o.op != 'ref':
                    fine = dunno('a write to %s' % show(o, 2)[:60])
                elif root != o.a[0] and root in before and root not in own:
                    fine = bad(e, 'an object array which existed before is changed')
                elif o.a[0] in own:
                    pass
                elif o.a[0] in inputs:
                    fine = bad(e, 'a %s of the caller is changed' % (
                        'dictionary' if k == 'dictmut' else 'list'))
                elif o.a[0] in before:
                    effects.append(e)
                elif o.a[0] in published:
                    fine = bad(e, 'an object is changed after another thread can see it')
            elif k == 'setfield':
                o = e['obj']
                if o.a[0] in own:
                    pass
                elif o.a[0] in before:
                    if e.get('old') is None or e['old'].sid != e['val'].sid:
                        effects.append(e)
                    if e['val'].op == 'ref' and e['val'].a[0] not in before:
                        published.add(e['val'].a[0])
            elif k == 'setglobal':
                effects.append(e)
        if r.unsupported:
            fine = dunno(str(r.unsupported[0])[:140])
        if fine:
            chk.ok(rule, lab)
        return effects

    # -------------------------------------------------------------- operations
    def keys(self, s, st):
        """Index operations; lists are objects of the caller."""
        C, n = self.C, s.rank
        kinds = ['i', 's', '.', 'l', 'N', 'a', 'b', 'i' * n, 's' * n, 'is'[:n], 'si'[:n],
                 'ls'[:n], 'sl'[:n], 'al'[:n], '.i']
        if s.dims is not None:
            kinds = [(k.replace('i', 'c') if k[0] != 's' or len(k) > 1 else k)
                     for k in kinds]
            kinds = [':' + k[1:] if k[:1] == 's' else k for k in kinds]
            kinds = [k.replace('sl', ':l') for k in kinds]
        out, seen = [], set()
        for k in kinds:
            if k not in seen and len(k.replace('N', '').replace('.', '')) <= n:
                seen.add(k)
                out.append(k)
        return out

    def operations(self, s, v, st, derive=True):
        """(label, function of a state -> Result, caller's objects) for one array."""
        C, I = self.C, self.I
        ops = []
        for n in ('ndarray', 'masked_array'):
            ops.append((n + '()', lambda q, n=n: C.method(v, n, [], st=q), ()))
        for n in LOOKS:
            ops.append((n, lambda q, n=n: C.attr(v, n, st=q), ()))
        for n in ('__str__', '__repr__'):
            ops.append((n, lambda q, n=n: C.method(v, n, [], st=q), ()))
        for k in self.keys(s, st):
            def at(q, k=k):
                its = []
                for x in keyset(C, s, k):
                    if x.op == 'tuple':
                        x = I.alloc(q, Lst(tuple(x.a)))
                    its.append(x)
                refs = [x.a[0] for x in its if x.op == 'ref']
                r = C.run(lambda I_, q: I_.getitem(v, T('tuple', *its) if len(its) != 1 else
                                                   its[0], q, None), q)
                r.callers = refs
                return r
            ops.append(('[%s]' % k, at, ()))
        for m in (FALSE, TRUE):
            ops.append(('streams_handler(%s)' % show(m), lambda q, m=m: C.method(
                v, 'streams_handler', [m], st=q), ()))
        if derive:
            for w, f in ways(C, v, st, s.rank):
                ops.append((w, f, ()))
        return ops

    def deep(self, v, st, depth=0, seen=None):
        """A description of a value with the objects it consists of."""
        seen = {} if seen is None else seen
        if not isinstance(v, T):
            if isinstance(v, tuple):
                return tuple(self.deep(x, st, depth + 1, seen) for x in v)
            return repr(v)
        if depth > 40:
            return '...'
        if v.op == 'ref':
            if v.a[0] in seen:
                return ('ref', seen[v.a[0]])
            seen[v.a[0]] = len(seen)
            r = st.heap.get(v.a[0])
            if isinstance(r, Inst):
                return ('inst', r.cls.name, tuple(
                    (n, self.deep(x, st, depth + 1, seen)) for n, x in sorted(r.fields.items())
                    if n not in self.skip))
            if isinstance(r, Lst):
                if r.items is None:
                    return ('seq', r.base.sid if r.base is not None else None)
                return ('list',) + tuple(self.deep(x, st, depth + 1, seen) for x in r.items)
            if isinstance(r, Dct):
                return ('dict',) + tuple((self.deep(a, st, depth + 1, seen),
                                          self.deep(b, st, depth + 1, seen))
                                         for a, b in r.items)
            return ('obj', type(r).__name__)
        if v.op in ('tuple', 'nt', 'call', 'conv', 'sub', 'store', 'bin', 'phi', 'bm'):
            return (v.op,) + tuple(self.deep(x, st, depth + 1, seen) for x in v.a)
        return ('t', v.sid)

    skip = ()

    def outcome(self, r):
        """What a run gives."""
        if r.unsupported or (r.st is not None and r.st.fuzzy):
            return None
        if r.dead:
            return ('raises', tuple(r.exc_names()))
        return (self.deep(r.val, r.st), tuple(r.exc_names()))

    def history(self, s, lab, effs, run, st0, ops):
        """Whether what a run leaves behind in old objects can be noticed."""
        chk, I = self.chk, self.I
        self.skip = {e['name'] for e in effs if e['kind'] == 'setfield'}
        I.snap = []
        try:
            r = run(st0.copy())
            states = [(e, q) for e, q in I.snap]
        finally:
            I.snap = None
        if r.st is not None:
            states.append((effs[-1], r.st))
        old = set(st0.heap)
        seen = {}
        names = {'mod:' + self.C.M}
        for e, q in states:
            sig = tuple(sorted((o, self.sig(q, o)) for o in old
                               if q.heap.get(o) is not st0.heap.get(o))) + tuple(
                sorted((m, n, v.sid) for m in names for n, v in q.envs.get(m, {}).items()
                       if st0.envs.get(m, {}).get(n) is not v))
            if sig and sig not in seen:
                seen[sig] = (e, q)
        e0 = effs[0]
        what = 'the attribute %s of a %s' % (e0['name'], e0['cls']) \
            if e0['kind'] == 'setfield' else 'an object which existed before' \
            if e0['kind'] != 'setglobal' else 'the module variable %s' % e0.get('name')
        n, und, skipped = 0, None, 0
        for sig, (e, q) in list(seen.items())[:6]:
            for name, f, _ in ops:
                key = (name, tuple(c.sid for c in q.path))
                fresh = self.base.get(key)
                if fresh is None:
                    u = st0.copy()
                    u.path = q.path
                    fresh = self.base[key] = (self.outcome(f(u)),)
                u = q.copy()
                now = self.outcome(f(u))
                if fresh[0] is None:
                    skipped += 1
                    continue
                if now is None:
                    und = und or '%s afterwards is not understood' % name
                    continue
                n += 1
                if fresh[0] != now:
                    chk.gate = not exact_at(r, e)
                    chk.bad('history', lab, loc(e0), '%s is changed (at %s), and %s gives '
                            'something else afterwards or meanwhile' % (what, loc(e), name))
                    chk.gate = True
                    self.skip = ()
                    return
        self.skip = ()
        if not n:
            und = und or 'nothing can be compared'
        if und:
            chk.dunno('history', lab, '%s is changed: %s' % (what, und))
        else:
            chk.ok('history', lab, '%s is changed; %d operations compared' % (what, n))

    def sig(self, st, o):
        r = st.heap.get(o)
        if isinstance(r, Inst):
            return repr(sorted((n, v.sid) for n, v in r.fields.items()))
        if isinstance(r, Lst):
            return repr([x.sid for x in r.items] if r.items is not None else None)
        if isinstance(r, Dct):
            return repr([(a.sid, b.sid) for a, b in r.items])
        return repr(r)

    # --------------------------------------------------------------- specimens
    def one(self, s):
        C, I, chk = self.C, self.I, self.chk
        if s.r.dead or s.r.val.op != 'ref':
            chk.dunno('inputs', s.label, s.why)
            return
        inputs = set(s.inputs)
        effs = self.writes('inputs', 'making a %s' % s.label, s.r, s.before, inputs,
                           protector(C, C.st0))
        if effs:
            chk.dunno('history', 'making a %s' % s.label, 'changes existing objects at %s'
                      % loc(effs[0]))
        v, st = s.r.val, s.r.st
        st.path = st.path
        self.base = {}
        ops = self.operations(s, v, st)
        prot = protector(C, st)
        cmpops = None
        for name, f, _ in ops:
            q = st.copy()
            before = set(q.heap)
            r = f(q)
            lab = '%s: %s' % (s.label, name)
            if r.dead and not r.events:
                continue
            callers = set(getattr(r, 'callers', ())) | inputs
            effs = self.writes('inputs', lab, r, before | callers, callers, prot)
            if effs:
                if cmpops is None:
                    cmpops = [o for o in ops if not o[0].startswith('__') or
                              o[0] in ('__str__',)][:60]
                self.history(s, lab, effs, f, st, cmpops)
            if name.startswith('streams_handler') and not r.dead:
                self.handlers(s, lab, f, r, before)
            if self.isarray(r) and name[0] == '[' and self.tier != 'quick':
                s2 = Spec(lab, r, s.sources, s.rank, s.dims)
                for n2, f2, _ in self.operations(s2, r.val, r.st, derive=False)[:4]:
                    r2 = f2(r.st.copy())
                    self.writes('inputs', '%s: %s' % (lab, n2), r2, set(r.st.heap),
                                callers, protector(C, r.st))

    def handlers(self, s, lab, f, r, before):
        chk = self.chk
        if r.unsupported:
            return
        r2 = f(r.st.copy())
        if r2.dead or r2.unsupported or r.val.op != 'ref' or r2.val.op != 'ref':
            chk.dunno('handlers', lab, 'not understood')
            return
        if r.val.a[0] != r2.val.a[0] and r.val.a[0] not in before:
            chk.ok('handlers', lab)
            return
        chk.verdict(False if self.stateful(r2) else None if self.stateful(r2) is None else True,
                    'handlers', lab, '%s.py (%s)' % (self.C.M.replace('.', '/'),
                                                     r.st.heap[r.val.a[0]].cls.name),
                    'two calls give the same handler, which has a state')

    def stateful(self, r):
        """Whether the methods of a handler set its fields."""
        import ast
        ci = r.st.heap[r.val.a[0]].cls
        for c in getattr(ci, 'mro', None) or [ci]:
            for fn in c.node.body:
                if isinstance(fn, ast.FunctionDef) and fn.name != '__init__':
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                isinstance(x.value, ast.Name) and fn.args.args and \
                                x.value.id == fn.args.args[0].arg:
                            return True
        return None

    def isarray(self, r):
        if r.dead or r.val.op != 'ref':
            return False
        rec = r.st.heap.get(r.val.a[0])
        return getattr(rec, 'cls', None) is not None and self.I.isarraycls(rec.cls)


# --------------------------------------------------------------------------- stream handlers
def new_group(I_, c, s):
    """The keys of the chunks of different results differ."""
    return False if c.op == 'cmp' and c.a[0] == '==' and {c.a[1].op, c.a[2].op} <= {
        'sym', 'slice', 'tuple'} and any('.k' in str(x.a[0]) for x in c.a[1:]
                                         if x.op == 'sym') else None


class H2(object):
    """The writes of a stream handler, chunk by chunk."""

    def __init__(self, chk, C, label, h, st, protected0):
        self.chk, self.C, self.I, self.label = chk, C, C.I, label
        self.h, self.st = h, st
        self.prot0 = protected0
        self.fine = {'chunks': True, 'emitted': True}
        self.rule = lambda k: k
        self.emitted = {}
        self.data = {}

    def bad(self, rule, r, e, text):
        if self.fine[rule]:
            self.chk.gate = not exact_at(r, e)
            self.chk.bad(self.rule(rule), self.label, loc(e), text)
            self.chk.gate = True
        self.fine[rule] = False

    def dunno(self, rule, why):
        if self.fine[rule]:
            self.chk.dunno(self.rule(rule), self.label, why)
        self.fine[rule] = False

    def step(self, r, what):
        """Judge one call and note what it hands on."""
        I = self.I
        if r.unsupported:
            for k in self.fine:
                self.dunno(k, str(r.unsupported[0])[:120])
            return False

        def prot(t):
            if t.sid in self.data:
                return self.data[t.sid]
            if t.op == 'conv':
                return None
            return self.prot0(t)
        st = r.st
        if st is None:
            for k in self.fine:
                self.dunno(k, '%s raises' % what)
            return False
        last = max([i for i, e in enumerate(r.events) if e['kind'] == 'newnt'] or [-1])
        later = {}
        if last >= 0 and r.val is not None:
            was = dict(self.emitted)
            self.emit(r.val, r.st, 'the result which it hands on')
            later, self.emitted = self.emitted, was
        for n, e in enumerate(r.events):
            if n == last:
                self.emitted = later
            if e['kind'] == 'mutate':
                t = e['target']
                os_, unk = origins(I, t, st, prot)
                if e['how'] == 'setattr' and e.get('name') not in DATA_ATTRS:
                    os_ = [x for x in os_ if x[1]]
                sure = [x for x in os_ if x[2]]
                if sure:
                    self.bad('chunks', r, e, '%s: an in-place write (%s) changes %s' % (
                        what, e['how'], sure[0][0]))
                elif os_ or unk:
                    self.dunno('chunks', 'a write to %s at %s' % (show(t, 2)[:60], loc(e)))
                bs = bases(I, t, st)
                for i in bs:
                    if i in self.emitted:
                        self.bad('emitted', r, e, '%s: an in-place write (%s) changes %s' % (
                            what, e['how'], self.emitted[i][0]))
            elif e['kind'] in ('listmut', 'dictmut') and e['obj'].op == 'ref' and \
                    e['obj'].a[0] in self.emitted:
                self.bad('emitted', r, e, '%s changes %s' % (
                    what, self.emitted[e['obj'].a[0]][0]))
            elif e['kind'] == 'setfield' and ('obj', e['obj'].a[0]) in self.emitted:
                self.bad('emitted', r, e, '%s: the attribute %s of %s is changed' % (
                    what, e['name'], self.emitted[('obj', e['obj'].a[0])][0]))
        return True

    def emit(self, v, st, what):
        """Remember a chunk which is handed on."""
        if v.op == 'phi':
            for x in v.a[1:]:
                self.emit(x, st, what)
            return
        if v.op == 'const':
            return
        if v.op == 'ref':
            self.emitted[('obj', v.a[0])] = (what, v)
        d = self.C.attr(v, 'data', st=st.copy())
        if d.dead or d.unsupported:
            return self.dunno('emitted', 'what is handed on is not understood')
        for i, t in bases(self.I, d.val, st).items():
            if t.sid not in self.data:
                self.emitted[i] = (what, t)

    def done(self):
        for k, v in self.fine.items():
            if v:
                self.chk.ok(k, self.label)


def agg_handler(chk, C, name, masked, axis, rank, kw):
    from .p_c05 import Handler
    I = C.I
    label = '%s %s, axis %d of %d%s' % ('masked' if masked else 'plain', name, axis, rank,
                                        ''.join(', ' + k for k in kw))
    H = Handler(C, name, masked, axis, rank, kw)
    if not H.ok:
        chk.dunno('chunks', label, H.why)
        return
    own = {H.h.a[0]}
    own |= {f.a[0] for f in H.fields(H.st0).values() if f.op == 'ref' and
            f.a[0] not in C.st0.heap}
    q = H2(chk, C, label, H.h, H.st0, protector(C, H.st0, own))
    st = H.st0.copy()
    prev = None
    groups = 'gghh' if rank > 1 else 'ggg'
    try:
        for i, g in enumerate(groups):
            c, D, sh, ok = H.chunk('D%d' % i, st, g)
            q.data[D.sid] = 'the data of a chunk'
            I.hyp = new_group if prev not in (None, g) else None
            p = C.method(H.h, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st)
            I.hyp = None
            if not q.step(p, 'chunk %d' % i):
                return
            q.emit(p.val, p.st, 'the result of an earlier group of chunks')
            st, prev = p.st, g
        f = C.method(H.h, 'finalise', [], st=st)
        if q.step(f, 'finalise'):
            q.done()
    finally:
        I.hyp = None


def chunk_of(C, tag, rank, masked, st):
    I = C.I
    D = I.sym(tag, 'ma' if masked else 'nd', ndim=rank, attrs={
        'shape': T('tuple', *[C.int('%s.s%d' % (tag[-1], i), 0) for i in range(rank)]),
        'dtype': C.dtype(tag + '.dtype')})
    c = C.call(C.get('Chunk'), [T('tuple', *[I.sym('%s.k%d' % (tag[-1], i), 'slice')
                                             for i in range(rank)]), D], st=st)
    return c, D


def ew_handler(chk, C, name, v, k, masked):
    I = C.I
    A = C.array('A', 2)
    B = C.array('B', 2, shape=list(C.I.info(A)['attrs']['shape'].a))
    label = '%s %s' % ('masked' if masked else 'plain', name)
    r = C.call(v, [A, B][:k])
    h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st)
    if h.dead and not h.unsupported:
        chk.ok('chunks', label, 'refused: %s' % h.exc_names())
        return
    if h.dead or h.val.op != 'ref' or h.unsupported:
        chk.dunno('chunks', label, 'no streams handler')
        return
    q = H2(chk, C, label, h.val, h.st, protector(C, h.st, {h.val.a[0]}))
    st = h.st.copy()
    for i in range(2):
        cs = []
        for j in range(k):
            c, D = chunk_of(C, 'D%d%d' % (j, i), 2, masked, st)
            q.data[D.sid] = 'the data of a chunk'
            cs.append(c.val)
            st = c.st
        p = C.method(h.val, 'process_chunks', [I.new_list(st, cs)], st=st)
        if not q.step(p, 'step %d' % i):
            return
        q.emit(p.val, p.st, 'an earlier result')
        st = p.st
    f = C.method(h.val, 'finalise', [], st=st)
    if not f.dead and q.step(f, 'finalise'):
        q.done()


def result_nodes(chk, C):
    """The in-memory results of an evaluation."""
    if C.get('NdarrayNode') is None:
        chk.dunno('results', 'NdarrayNode', 'the class does not exist')
        return
    I = C.I
    for masked in (False, True):
        for rank in (0, 1, 2):
            label = '%s result of rank %d' % ('masked' if masked else 'plain', rank)
            A = C.array('A', rank)
            r = C.call('NdarrayNode', [A, const(masked)])
            if r.dead or r.val.op != 'ref':
                chk.dunno('results', label, 'not understood')
                continue
            q = H2(chk, C, label, r.val, r.st, protector(C, r.st, {r.val.a[0]}))
            q.fine = {'chunks': True}
            q.rule = lambda k: 'results'
            st = r.st
            for i in range(2 if rank else 1):
                c, D = chunk_of(C, 'D%d' % i, rank, masked, st)
                q.data[D.sid] = 'the data of a chunk'
                p = C.method(r.val, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st)
                rule = q.fine
                if not q.step(p, 'chunk %d' % i):
                    break
                st = p.st
            else:
                f = C.method(r.val, 'finalise', [], st=st)
                if q.step(f, 'finalise') and rule['chunks']:
                    chk.ok('results', label)


def streams(chk, C, tier):
    names = elementwise_names(C)
    for n, v, k in names:
        for masked in (False, True):
            ew_handler(chk, C, n, v, k, masked)
    from .p_c05 import STATS
    for name in STATS:
        if C.get(name) is None:
            continue
        for masked in (False, True):
            for axis, rank in [(0, 1), (0, 2), (1, 2)] + ([(1, 3), (2, 3)]
                                                          if tier != 'quick' else []):
                kws = [{}]
                if name == 'mean' and masked:
                    kws.append({'mdtol': C.I.sym('mdtol', 'float')})
                if name in ('std', 'var'):
                    kws.append({'ddof': C.int('ddof', 0)})
                for kw in kws:
                    agg_handler(chk, C, name, masked, axis, rank, kw)
    result_nodes(chk, C)


def check(chk, root, tier):
    threads = c02_engine.start(root, tier)
    C = Ctx(root)
    q = Q2(chk, C, tier)
    n = 0
    for s in specimens(C, tier != 'quick'):
        n += 1
        q.one(s)
    chk.extra['specimens'] = n
    streams(chk, C, tier)
    fns, n = c02_engine.finish(chk, threads)
    chk.assumptions = [
        'a NumPy function changes only what it is documented to change',
        'slices of a data source may share its memory; index arrays and lists give copies',
    ]
    return [C, PkgCtx(root, Package(root), fns, n)]
