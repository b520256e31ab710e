"""C09: streaming evaluation and save hold a bounded number of chunks."""
import concurrent.futures as cf

from .engine import *          # noqa
from .typestate import _MISSING
from . import zoo as X
from .terms import NONE, T, const, show
from .p_c03 import Ctx as PkgCtx

RULES = {
    'queues': 'every queue between the threads has a constant, positive limit',
    'threads': 'what a thread can still reach of the chunks it has read, received or made does '
               'not grow with their number',
    'pieces': 'a source is only read at the keys of one chunk at a time',
    'save': 'save reads the source one chunk at a time and keeps none of them',
    'state': 'the state of a running aggregation does not grow with the length of a chunk, the '
             'number of chunks or the number of results',
    'indexed-read': 'converting an indexed adapter reads nothing but the indexed part',
    'indexed-convert': 'converting an indexed array converts nothing but indexed sources',
}
CONV = ('ndarray', 'masked_array', '__array__')
WHOLE = ('asarray', 'array', 'asanyarray', 'masked_array', 'ascontiguousarray', 'require',
         'getdata', 'getmaskarray', 'MaskedArray')
META = ('shape', 'dtype', 'ndim', 'size', 'keys', 'itemsize', 'nbytes')


def weight(o, depth=0):
    """Whether an opaque value holds data."""
    if isinstance(o, Stub) or depth > 12:
        return False
    if o.kind in ('chunk', 'out'):
        return True
    if o.kind in ('item', 'handler', 'lock', 'sentinel'):
        return False
    w = lambda v, d=depth + 1: weight(v, d)                 # noqa
    ow = getattr(o, 'owner', None)
    if ow is not None:
        return isinstance(ow[0], Opaque) and ow[1] not in META and w(ow[0])
    mt = getattr(o, 'method', None)
    if mt is not None:
        return mt[1] in CONV or w(mt[0]) or any(w(x) for v in mt[2] for x in _flat(v))
    md = getattr(o, 'made', None)
    if md is not None:
        last = md[0].split('.')[-1]
        return last not in META + ('len', 'id', 'repr', 'str') and \
            any(w(x) or (last in WHOLE and isinstance(x, Stub)) for v in md[1] for x in _flat(v))
    b = getattr(o, 'base', None)
    if b is not None:
        return w(b)
    return any(d.kind in ('chunk', 'out') for d in o.deps)


_M = Machine.__new__(Machine)


def _flat(v):
    try:
        return Machine.flat(_M, v)
    except Exception:
        return []


class Probe9(Probe):
    """One run of a thread with so many rounds, and the data it holds."""

    def __init__(self, m, thread, info, rounds):
        Probe.__init__(self, m, thread, info)
        self.rounds = rounds
        self.peak, self.where = 0, ''
        self.bad, self.dunno_, self.nconv = {}, {}, 0
        self.rts = [thread.target] + list(thread.args or []) if thread is not None else []

    def next_item(self, it):
        self.sample()
        n = self.__dict__.setdefault('counts', {})
        c = n.get(id(it), 0)
        self.m.keep.append(it)
        n[id(it)] = c + 1
        if c >= self.rounds:
            return None
        o = Opaque('key', roots=it.roots)
        o = self.new(o, 'item')
        return o

    def get(self, q, block, node):
        if not q.content and block:
            raise Blocked('waiting for queue %d at %s' % (q.qid, self.m.site(node)))
        r = Probe.get(self, q, block, node)
        if isinstance(r, Tok) and 'keys' in r.attrs:
            r.attrs['keys'].truth = True            # one chunk is all there is of rank zero
        self.sample(node)
        return r

    def put(self, q, v, block, node):
        self.sample(node)
        return Probe.put(self, q, v, block, node)

    def made(self, r, node):
        """A value has been computed."""
        mt = getattr(r, 'method', None)
        if mt is not None and mt[1] in CONV and mt[0].kind not in ('chunk', 'out', 'handler') \
                and not weight(mt[0]):
            self.converted(mt[0], node)
        md = getattr(r, 'made', None)
        if md is not None and md[0].split('.')[-1] in WHOLE:
            for v in md[1]:
                if isinstance(v, Opaque) and not weight(v) and (
                        isinstance(v, Stub) or isinstance(getattr(v, 'base', None), Stub)):
                    self.converted(v, node)
        self.sample(node)

    def converted(self, o, node):
        self.nconv += 1
        site = self.m.site(node)
        base, keyed = o, False
        while getattr(base, 'base', None) is not None:
            k = base.key
            ops = self.m.flat(k)
            if any(x.kind == 'item' or any(d.kind == 'item' for d in x.deps) for x in ops):
                keyed = True
            base = base.base
        if not isinstance(base, Stub):
            self.dunno_[site] = 'the conversion of %s' % o.tag
        elif base is o:
            self.bad[site] = 'the whole of %s is converted' % o.tag
        elif not keyed:
            self.dunno_[site] = 'the conversion of %s' % o.tag

    def sample(self, node=None):
        seen, live = set(), set()
        stack = list(self.rts)
        for fr in self.m.frames:
            stack += list(fr.tmp)
            e = fr.env
            while e is not None:
                stack.append(e)
                e = e.parent
        for e in self.m.genv.values():
            stack.append(e)
        stack += list(self.m.curexc)
        while stack:
            v = stack.pop()
            if v is None or id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Opaque):
                if weight(v):
                    live.add(id(v))
                continue
            if isinstance(v, Env):
                stack += list(v.vars.values())
            elif isinstance(v, Bound):
                stack += [v.self_, v.func]
            elif isinstance(v, Func):
                stack += [v.env] + list(v.defaults) + [x for x in v.kwdefaults if x]
            elif isinstance(v, Inst):
                stack += list(v.attrs.values())
            elif isinstance(v, Class):
                stack += list(v.ns.values()) if isinstance(v.ns, dict) else []
            elif isinstance(v, Thread):
                stack += list(v.attrs.values()) + [v.target] + list(v.args or ())
            elif isinstance(v, (VList, VSet, Iter)):
                stack += list(v.items)
            elif isinstance(v, tuple):
                stack += list(v)
            elif isinstance(v, NTInst):
                stack += list(v.vals)
            elif isinstance(v, VDict):
                stack += [x for p in v.pairs for x in p]
            elif isinstance(v, ExcVal):
                stack += list(v.attrs.values())
            elif isinstance(v, BuiltinMethod):
                stack.append(v.obj)
        if len(live) > self.peak:
            self.peak = len(live)
            self.where = self.m.site(node)


class Undone(Unsupported):
    pass


class Blocked(Unsupported):
    """A thread waits for an input."""


class Script(object):
    """Decisions about keys, explored one after the other (depth first)."""

    def __init__(self, most=12):
        self.todo, self.most, self.runs, self.cut = [()], most, 0, False

    def __iter__(self):
        while self.todo:
            if self.runs >= self.most:
                self.cut = True
                return
            self.runs += 1
            self.past, self.taken = self.todo.pop(), []
            yield self

    def decide(self, n, why):
        if why != 'equal':
            return None
        i = len(self.taken)
        if i < len(self.past):
            c = self.past[i]
        else:
            c = 0
            self.todo += [tuple(self.taken) + (k,) for k in range(1, n)]
        self.taken.append(c)
        return c


def setup(m, policy, script=None):
    """Calls with data are looked into; values which may be None are or aren't throughout."""
    def inside(f, args, kw):
        vals = [x for v in list(args) + list(kw.values()) for x in m.flat(v)]
        if any(isinstance(x, Stub) or weight(x) or getattr(x, 'base', None) is not None or
               isinstance(x, Tok) for x in vals):
            return _MISSING
        m.inside = None
        try:
            return m.pure(f, args, kw, None)
        finally:
            m.inside = inside
    m.inside = inside
    orig = m.choose

    def choose(n, why=''):
        if n <= 1:
            return 0
        if why.endswith(' is None'):
            if 'finalise' in why:
                return 0
            return policy
        c = script.decide(n, why) if script is not None else None
        if c is not None:
            return c
        raise Undone('a decision: %s' % (why or '?'))
    m.choose = choose
    return orig


class A9(Analysis):
    probe = Probe9

    def __init__(self, pkg, graph):
        Analysis.__init__(self, pkg, graph)
        self.found = []

    def variant(self, v):
        """The threads are run one after the other, each after those that feed it."""
        m0 = M(self, v, {}, 0)
        try:
            self.call_engine(m0)
        except PyExc:
            pass
        left = [t.tid for t in m0.threads if t.started]
        self.names = {t.tid: self.name_of(m0, t) for t in m0.threads}
        self.order = []
        try:
            while left:
                why = None
                for tid in left:
                    try:
                        self.rounds(v, 2, 0, self.order + [tid])
                    except Blocked as e:
                        why = e
                        continue
                    self.order.append(tid)
                    left.remove(tid)
                    break
                else:
                    raise why
        except (Unsupported, Killed, Pruned, RecursionError) as e:
            self.dunno('threads', 'not understood: %s' % e)
        return m0

    def rounds(self, v, n, policy, order, script=None):
        m = M(self, v, {}, 0)
        self.call_engine(m)
        out = {}
        for tid in order:
            x = [y for y in m.threads if y.tid == tid][0]
            m.frames = [Frame(m.genv[self.mod], 'thread')]
            m.curexc = []
            mon = self.probe(m, x, ThreadInfo(self, x.tid, self.names[tid]), n)
            m.mon = mon
            orig = setup(m, policy, script)
            m.item_truth = True if self.graph.rank else False
            try:
                if x.target is not None:
                    m.call(x.target, list(x.args), {}, None)
            except PyExc as e:
                raise Unsupported('%s raises %s' % (mon.info.name, e.exc.cls))
            finally:
                m.mon, m.inside, m.choose, m.item_truth = None, None, orig, None
            out[tid] = (mon, x.site)
        return out

    def after(self, v, m0):
        g = self.graph.name
        for policy in (0, 1):
            try:
                few, many = (self.rounds(v, n, policy, self.order) for n in (4, 8))
            except (Unsupported, PyExc, Killed, Pruned) as e:
                self.found.append(('threads', None, g, '', 'not understood: %s' % e))
                continue
            for tid in few:
                a, b = few[tid][0], many[tid][0]
                what = '%s, %s%s' % (g, a.info.name, ', partial results' if policy else '')
                self.found.append(('threads', b.peak <= a.peak, what, b.where,
                                   'holds up to %d pieces of data with 4 chunks and %d with 8' % (
                                       a.peak, b.peak)))
                for s, t in a.bad.items():
                    self.found.append(('pieces', False, what, s, t))
                for s, t in a.dunno_.items():
                    self.found.append(('pieces', None, what, s, t))
                if a.nconv and not a.bad and not a.dunno_:
                    self.found.append(('pieces', True, what, '', '%d conversions' % a.nconv))


def one(job):
    import sys
    root, tier, n = job
    sys.setrecursionlimit(20000)
    g = graphs(tier)[n]
    a = A9(Package(root), g)
    try:
        a.run()
    except (Unsupported, RecursionError) as e:
        a.dunno('analysis', '%s' % e)
    except PyExc as e:
        a.dunno('analysis', 'the program raises %s' % e.exc.cls)
    return (g.name, a.variants, a.found, dict(a.queues), {k: str(v) for k, v in
            a.undecided.items()}, {k: v[-3:] for k, v in a.viol.items()}, a.functions)


# ------------------------------------------------------------------------------- save
def save_run(pkg, masked, n):
    m = Machine(pkg)
    mod = 'biggus._init'
    m.module(mod)
    f = m.module_attr(mod, 'save')
    if f is _MISSING:
        return None
    stub = Stub('L1', None, 'shape', 2)
    target = Opaque('target', roots=('target',))
    mon = Probe9(m, None, None, n)
    m.frames = [Frame(m.genv[mod], 'save')]
    m.mon = mon
    setup(m, 0)
    mon.rts = [stub, target]
    kw = {'masked': True} if masked else {}
    m.call(f, [VList([stub]), VList([target])], kw, None)
    return m, mon


def saves(chk, pkg):
    for masked in (False, True):
        what = 'save%s' % (' (masked)' if masked else '')
        try:
            r = save_run(pkg, masked, 4)
            if r is None:
                chk.bad('save', what, 'biggus/_init.py', 'the function does not exist')
                continue
            m, a = r
            b = save_run(pkg, masked, 8)[1]
        except (Unsupported, Killed, Pruned, PyExc, RecursionError) as e:
            chk.dunno('save', what, 'not understood: %s' % (e.exc.cls if isinstance(e, PyExc)
                                                            else e))
            continue
        for s, t in a.bad.items():
            chk.bad('save', what, s, t)
        for s, t in a.dunno_.items():
            chk.dunno('save', what, t)
        if not a.nconv:
            chk.dunno('save', what, 'nothing is converted')
        elif not a.bad and not a.dunno_:
            chk.verdict(b.peak <= a.peak, 'save', what, b.where, 'holds up to %d pieces of data '
                        'with 4 chunks and %d with 8' % (a.peak, b.peak))


# ------------------------------------------------------------------------ aggregations
class Size(object):
    """How much an object holds."""

    def __init__(self, H, st, ev):
        self.H, self.st, self.ev, self.seen = H, st, ev, set()

    def of(self, v):
        from .cellwise import Arr, Rest, Unk
        I = self.H.C.I
        if v.op == 'ref':
            if v.a[0] in self.seen:
                return 0
            self.seen.add(v.a[0])
            rec = self.st.heap[v.a[0]]
            if isinstance(rec, X.Lst):
                if rec.items is None:
                    raise Unk('a list of unknown length')
                return sum(1 + self.of(x) for x in rec.items)
            if isinstance(rec, X.Dct):
                if rec.base is not None:
                    raise Unk('a dictionary of unknown size')
                return sum(1 + self.of(x) for kv in rec.items for x in kv)
            if isinstance(rec, X.Inst):
                return sum(self.of(x) for _, x in sorted(rec.fields.items()))
            raise Unk('a %s' % type(rec).__name__)
        if v.op == 'tuple':
            return sum(self.of(x) for x in v.a)
        if v.op == 'nt':
            return sum(self.of(x) for x in (v.a[1].a if hasattr(v.a[1], 'op') else v.a[1]))
        if v.op == 'phi':
            return max(self.of(v.a[1]), self.of(v.a[2]))
        if v.op == 'const':
            return 0
        k = I.kind(v, self.st)
        if k in ('int', 'bool', 'float', 'num', 'npscalar', 'dtype', 'none', 'slice', 'shape',
                 'array', 'func', 'str'):
            return 0
        if v.op in ('func', 'ext', 'cls', 'bound', 'closure', 'undef', 'partial'):
            return 0
        r = self.ev.ev(v)
        if isinstance(r, Arr):
            return len(r.cells) if r.col else 1
        return 0


def sized(H, chunks, st):
    from .cellwise import F0, Rat
    e = H.evaluator(chunks, Rat(sum(len(c) for _, _, c in chunks)), {})
    return Size(H, st, e).of(H.h)


def states(chk, C, name, masked, axis, rank):
    from .p_c05 import Handler, some
    from .cellwise import Unk, Wrong
    label = '%s %s, axis %d of %d' % ('masked' if masked else 'plain', name, axis, rank)
    H = Handler(C, name, masked, axis, rank, {})
    if not H.ok:
        chk.dunno('state', label, H.why)
        return
    site = '%s.py:%d (%s)' % (H.cls.module.replace('.', '/'), H.cls.node.lineno, H.cls.name)
    I = C.I

    def grow(groups, cells):
        """The size after each of some chunks."""
        st, out, chunks = H.st0.copy(), [], []
        prev = None
        for i, g in enumerate(groups):
            if g != prev and prev is not None:
                I.hyp = differ
            p, D, sh, ok = H.process('D%d' % i, st, g)
            I.hyp = None
            prev = g
            chunks.append((D, sh, [some(False) for _ in range(cells)]))
            st = p.st
            out.append(sized(H, chunks, st))
        return out

    def differ(I_, c, s):
        return False if c.op == 'cmp' and c.a[0] == '==' and {c.a[1].op, c.a[2].op} <= {
            'sym', 'slice', 'tuple'} and any('.k' in str(x.a[0]) for x in c.a[1:]
                                             if x.op == 'sym') else None
    try:
        two, three = grow('ggg', 2), grow('ggg', 3)
        if two[0] != three[0]:
            chk.bad('state', label, site, 'the state has the size of the chunk: %d values per '
                    'result cell after a chunk of 2 elements, %d after a chunk of 3' % (
                        two[0], three[0]))
            return
        if two[2] > two[1]:
            chk.bad('state', label, site, 'the state grows with every chunk: %s' % two)
            return
        if rank > 1:
            gs = grow('ghij', 1)
            if gs[3] > gs[2]:
                chk.bad('state', label, site, 'the state grows with every result: %s' % gs)
                return
        chk.ok('state', label, 'sizes %s' % (two,))
    except Unk as x:
        chk.dunno('state', label, str(x)[:150])
    except Wrong as x:
        chk.dunno('state', label, str(x)[:150])
    finally:
        I.hyp = None


def aggregations(chk, root, tier):
    from .p_c05 import STATS
    C = X.Ctx(root)
    for name in STATS:
        if C.get(name) is None:
            chk.dunno('state', name, 'the function does not exist')
            continue
        for masked in (False, True):
            for axis, rank in [(0, 2), (1, 2)] + ([(0, 1), (1, 3), (0, 3)]
                                                  if tier == 'thorough' else []):
                states(chk, C, name, masked, axis, rank)
    return C


# ---------------------------------------------------------------------- indexed arrays
def full(k):
    return k.op == 'slice' and all(x.op == 'const' and x.a[0] is None for x in k.a)


class Pieces(object):
    """What converting an indexed array converts or reads."""

    def __init__(self, chk, C):
        self.chk, self.C, self.I = chk, C, C.I

    def part(self, v, st, sources, spare, depth=0):
        """None, or why a value is more than a part of the sources."""
        I = self.I
        if v.op == 'sub':
            base, k = v.a[0], v.a[1]
            while base.op == 'sub':
                base = base.a[0]
            if base.sid not in sources:
                return None
            ks = list(k.a) if k.op == 'tuple' else [k]
            ks = [x for x in ks if not (x.op == 'const' and x.a[0] in (None, Ellipsis))]
            n = I.info(base).get('ndim') or len(ks)
            whole = sum(1 for x in ks if full(x)) + max(0, n - len(ks))
            if whole > spare and v.a[0].op != 'sub':
                return '%s is taken whole along %d of %d axes' % (show(base, 2), whole, n)
            return None
        if v.sid in sources:
            return 'the whole of %s' % show(v, 2)
        if v.op == 'ref' and depth < 6:
            rec = st.heap.get(v.a[0])
            if getattr(rec, 'cls', None) is None:
                return None
            for _, x in sorted(rec.fields.items()):
                for y in I.items(x, st) if I.items(x, st) is not None and \
                        x.op in ('tuple', 'ref') and not self.isarray(x, st) else [x]:
                    if y.sid in sources or y.op == 'sub' or self.isarray(y, st):
                        w = self.part(y, st, sources, spare, depth + 1)
                        if w:
                            return w
        return None

    def isarray(self, v, st):
        rec = st.heap.get(v.a[0]) if v.op == 'ref' else None
        return getattr(rec, 'cls', None) is not None and self.I.isarraycls(rec.cls)

    def one(self, s):
        C, I, chk = self.C, self.I, self.chk
        if not s.ok:
            chk.dunno('indexed-convert', s.label, s.why)
            return
        kinds = [I.kind(x, s.r.st) for x in s.sources]
        if any(k in ('nd', 'ma') for k in kinds):
            return
        concrete = 'concrete' in kinds
        rule = 'indexed-read' if concrete else 'indexed-convert'
        agg = s.label.split(' ')[0] in X.AGGS and '(axis' in s.label
        spare = 1 if agg or s.label.startswith(('BroadcastArray', 'NewAxes', 'LinearMosaic',
                                                'add with broad')) else 0
        src = {x.sid for x in s.sources}

        def sl(i, p='b'):
            return T('slice', C.int('%s%d' % (p, i), 0), C.int('%s%d.e' % (p, i), 0), NONE)

        def key(kind, p):
            out = []
            for i, c in enumerate(kind):
                d = s.dims[i] if s.dims else None
                if d is not None and d.op == 'const':
                    out.append(T('slice', const(1), const(d.a[0]), NONE) if c == 's'
                               else const(0))
                else:
                    out.append(sl(i, p) if c == 's' else C.int('i%d' % i, 0))
            return out
        n = s.rank
        for kind in ('s' * n, 'i' + 's' * (n - 1), 's' * (n - 1) + 'i') if n > 1 else ('s', 'i'):
            lab = '%s[%s]' % (s.label, kind)
            r = X.indexed(C, s, key(kind, 'b'))
            if r.dead or r.unsupported:
                chk.dunno(rule, lab, 'indexing is not understood')
                continue
            sts = [(lab, r)]
            if 'i' not in kind and s.dims is None and not concrete:
                r2 = C.run(lambda I_, q: I_.getitem(r.val, T('tuple', *[sl(i, 'c')
                                                                       for i in range(n)])
                                                    if n > 1 else sl(0, 'c'), q, None),
                           r.st.copy())
                if not r2.dead and not r2.unsupported:
                    sts.append((lab + ' indexed again', r2))
            for what, x in sts:
                for how in ('ndarray', 'masked_array'):
                    self.convert(rule, what, x, how, src, spare, concrete)

    def convert(self, rule, what, x, how, src, spare, concrete):
        C, chk = self.C, self.chk
        lab = '%s.%s()' % (what, how)
        r = C.method(x.val, how, [], st=x.st.copy())
        evs = [e for e in r.events if e['kind'] in ('convert', 'read', 'coerce')]
        for e in evs:
            why = None
            o = e['obj']
            if e['kind'] == 'read' and o.sid in src:
                if e.get('key') is None:
                    why = 'all of the source is read'
                else:
                    why = self.part(T('sub', o, e['key']), r.st or x.st, src, spare)
            elif e['kind'] in ('convert', 'coerce'):
                why = self.part(o, r.st or x.st, src, spare)
            if why:
                chk.gate = not X.exact_at(r, e)
                chk.bad(rule, lab, X.loc(e), why)
                chk.gate = True
                return
        if r.unsupported:
            chk.dunno(rule, lab, str(r.unsupported[0])[:120])
        elif not evs and concrete:
            chk.dunno(rule, lab, 'nothing is read')
        else:
            chk.ok(rule, lab, '%d reads' % len(evs))


def pieces(chk, C, tier):
    q = Pieces(chk, C)
    for s in X.specimens(C, tier == 'thorough'):
        q.one(s)


def check(chk, root, tier):
    pkg = Package(root)
    jobs = [(root, tier, n) for n in range(len(graphs(tier)))]
    with cf.ProcessPoolExecutor(min(8, len(jobs))) as ex:
        res = list(ex.map(one, jobs))
    chk.assumptions = [
        'what can be reached from the frames, objects and globals of a thread is what it holds; '
        'the arrays of results are not counted',
        'a view or a slice of a chunk counts as one piece of data, whatever it keeps alive',
        'a source which is indexed by the keys of a chunk reads no more than that (rules '
        'indexed-read and indexed-convert for the arrays of the package)',
        'the size of a chunk is limited by C13']
    fns, paths = set(), 0
    queues = {}
    for name, variants, found, qs, und, viol, fs in res:
        fns |= fs
        for site, mx in qs.items():
            queues.setdefault(site, []).append(mx)
        if und or viol:
            why = '; '.join(map(str, sorted(und.items(), key=str)[:2])) or \
                'the threads break the rules of C03: ' + \
                '; '.join('%s: %s' % (k[0], k[3]) for k in sorted(viol, key=str)[:2])
            chk.dunno('threads', name, why)
        seen = set()
        for rule, v, construct, site, detail in found:
            if (rule, construct, v) in seen:
                continue
            seen.add((rule, construct, v))
            paths += 1
            chk.verdict(v, rule, construct, site, detail)
    for site, mxs in sorted(queues.items()):
        for mx in mxs[:1] if len({repr(x) for x in mxs}) == 1 else mxs:
            if isinstance(mx, int):
                chk.verdict(mx > 0, 'queues', 'the queue made at %s' % site, site,
                            'it has no limit' if mx <= 0 else 'limit %d' % mx)
            elif isinstance(mx, Opaque) and (mx.roots or mx.src):
                chk.bad('queues', 'the queue made at %s' % site, site,
                        'its limit depends on the data: %s' % mx.tag)
            else:
                chk.dunno('queues', 'the queue made at %s' % site, 'limit %r' % (mx,))
    saves(chk, pkg)
    C = aggregations(chk, root, tier)
    pieces(chk, C, tier)
    return [PkgCtx(root, pkg, fns, paths), C]
