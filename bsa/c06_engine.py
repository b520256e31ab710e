"""C06 for evaluations by threads and for save: which conversions are asked for, and what
happens to the masks on the way."""
import concurrent.futures as cf

from .engine import *          # noqa
from .typestate import _MISSING
from .p_c09 import A9, Probe9, Script, setup, CONV

# What keeps the masks of masked data (True), and what makes plain data of it (False).
FUNCS = {'asarray': False, 'array': False, 'ascontiguousarray': False, 'require': False,
         'asfortranarray': False, 'asarray_chkfinite': False, 'getdata': False,
         'filled': False, 'compressed': False, 'asanyarray': True, 'getmaskarray': False,
         'getmask': False}
METHODS = {'filled': False, 'compressed': False, 'tolist': False, '__array__': False,
           'getdata': False, 'copy': True, 'reshape': True, 'transpose': True, 'astype': True,
           'ravel': True, 'swapaxes': True, 'squeeze': True, '__getitem__': True,
           'harden_mask': True}
ATTRS = {'data': False, '_data': False, 'baseclass': False, 'mask': False, 'T': True,
         '_mask': False}


def status(o, depth=0):
    """What kind of array a value is, and why: ('ma' | 'nd' | 'kept', how) or None.

    'kept': like the chunks which the thread has received."""
    if depth > 20 or not isinstance(o, Opaque):
        return None
    b = getattr(o, 'base', None)
    if b is not None:
        if isinstance(b, Stub):
            return None
        return status(b, depth + 1)
    mt = getattr(o, 'method', None)
    if mt is not None:
        if mt[1] in CONV and array_like(mt[0]):
            return ('ma' if mt[1] == 'masked_array' else 'nd'), mt[1] + '()'
        return through(METHODS.get(mt[1]), status(mt[0], depth + 1), mt[1] + '()')
    ow = getattr(o, 'owner', None)
    if ow is not None:
        if isinstance(ow[0], Tok) or getattr(ow[0], 'kind', '') in ('chunk', 'out'):
            return ('kept', 'the chunk') if ow[1] == 'data' else None
        return through(ATTRS.get(ow[1]), status(ow[0], depth + 1), '.' + ow[1])
    md = getattr(o, 'made', None)
    if md is not None:
        last = md[0].split('.')[-1]
        if '.ma.' in md[0] + '.' and last not in ('getdata', 'filled', 'compressed',
                                                  'getmask', 'getmaskarray'):
            vs = [s for s in (status(v, depth + 1) for v in md[1]) if s is not None]
            if last in ('array', 'asarray', 'asanyarray', 'masked_array', 'MaskedArray') and \
                    len(md[1]) == 1 and vs:
                return ('ma' if vs[0][0] != 'kept' else 'kept'), last
            return None
        if md[1] and isinstance(md[1][0], Stub):
            return ('nd', last) if FUNCS.get(last) is False else None
        return through(FUNCS.get(last), status(md[1][0], depth + 1) if md[1] else None, last)
    if isinstance(o, Tok) or o.kind in ('chunk', 'out'):
        return 'kept', 'the chunk'
    return None


def array_like(o):
    while getattr(o, 'base', None) is not None:
        o = o.base
    return isinstance(o, Stub) or getattr(o, 'kind', '') == 'array'


def through(keeps, s, how):
    if s is None or keeps is None:
        return None
    return s if keeps else ('nd', how)


class Probe6(Probe9):
    """What one thread does to masked (or plain) data."""
    masked = False

    def __init__(self, m, thread, info, rounds):
        Probe9.__init__(self, m, thread, info, rounds)
        self.seen = {}               # site -> (verdict, text)

    def sample(self, node=None):
        pass

    def converted(self, o, node):
        pass

    def note(self, v, node, text):
        site = self.m.site(node)
        old = self.seen.get(site, (True, ''))
        rank = {True: 0, None: 1, False: 2}
        if rank[v] >= rank[old[0]]:
            self.seen[site] = (v, text)

    def data(self, v, node, what):
        """Data is passed on."""
        s = status(v)
        if s is None:
            self.note(None, node, '%s is %s' % (what, getattr(v, 'tag', v)))
        elif s[0] == 'kept':
            self.note(True, node, '%s is passed on' % what)
        elif self.masked:
            self.note(s[0] == 'ma', node, '%s comes from %s, so masks are lost' % (what, s[1])
                      if s[0] != 'ma' else '%s is masked' % what)
        elif s[0] == 'nd':
            self.note(True, node, '%s is plain' % what)
        else:
            self.note(False, node, '%s comes from %s in an evaluation which is not masked' % (
                what, s[1]))

    def put(self, q, v, block, node):
        if isinstance(v, NTInst):
            for x in v.vals:
                if isinstance(x, Opaque) and x.kind != 'item' and (
                        status(x) is not None or x.src or getattr(x, 'method', None)):
                    if getattr(x, 'owner', None) is not None and x.owner[1] == 'keys':
                        continue
                    self.data(x, node, 'the data of a chunk')
        elif isinstance(v, Opaque) and v.kind not in ('sentinel', 'out', 'chunk') and \
                not isinstance(v, Tok) and not self.m.nullness(v):
            self.note(None, node, 'what is sent is %s' % v.tag)
        return Probe9.put(self, q, v, block, node)

    def handler_call(self, h, name, vals, node):
        flag(self, h, node, self.masked)
        for v in vals:
            for x in self.m.flat(v):
                s = status(x)
                if s is not None and s[0] != 'kept':
                    self.data(x, node, 'the data given to a handler')
        return Probe9.handler_call(self, h, name, vals, node)

    def passed(self, o, name, vals, node):
        Probe9.passed(self, o, name, vals, node)
        if name in ('__setitem__', 'setitem') and isinstance(o, Opaque) and len(vals) > 1:
            self.data(vals[1], node, 'what is stored')
        elif name.split('.')[-1] == 'copyto' and len(vals) > 1:
            self.data(vals[1], node, 'what is stored')


def flag(mon, h, node, masked):
    a = list(getattr(h, 'args', ()))
    if len(a) == 1 and a[0] in (True, False):
        mon.note(a[0] is masked, node, 'the handler of %s is %s' % (
            h.array.label, 'made for %s data in a%s evaluation' % (
                'masked' if a[0] else 'plain', ' masked' if masked else 'n ordinary')))
    else:
        mon.note(None, node, 'the handler of %s is made with %s' % (h.array.label, a))


class A6(A9):
    public = False

    def probe(self, *a):
        p = Probe6(*a)
        p.masked = self.graph.masked
        return p

    def call_engine(self, m):
        if not self.public:
            return A9.call_engine(self, m)
        stubs = self.graph.build()
        m.stubs = stubs
        m.module(self.mod)
        m.frames.append(Frame(m.genv[self.mod], '<caller>'))
        m.frames[-1].node = None
        m.engine = None
        f = m.module_attr(self.mod, 'masked_arrays' if self.graph.masked else 'ndarrays')
        return m.call(f, [VList(stubs)], {}, None)

    def after(self, v, m0):
        g = self.graph.name
        rule = 'threads'
        for policy in (0, 1):
            for script in Script():
                try:
                    res = self.rounds(v, 3, policy, self.order, script)
                except (Unsupported, PyExc, Killed, Pruned) as e:
                    self.found.append((rule, None, g, '', 'not understood: %s' % e))
                    continue
                for tid, (a, site) in res.items():
                    what = '%s, %s%s' % (g, a.info.name, ', partial results' if policy else '')
                    for s, (ok, t) in a.seen.items():
                        self.found.append((rule, ok, what, s, t))
        try:
            m = M(self, v, {}, 0)
            r = self.call_engine(m)
        except (Unsupported, PyExc, Killed, Pruned) as e:
            self.found.append(('results', None, g, '', 'not understood: %s' % e))
            return
        if not isinstance(r, (VList, tuple)):
            self.found.append(('results', None, g, '', 'the call returns %s' % type(r).__name__))
            return
        for n, x in enumerate(m.to_list(r)):
            what = '%s, result %d' % (self.graph.name, n)
            md = getattr(x, 'made', None)
            if md is None:
                self.found.append(('results', None, what, '', 'result %d is %s' % (
                    n, getattr(x, 'tag', x))))
                continue
            ma = '.ma.' in md[0] + '.'
            last = md[0].split('.')[-1]
            if last not in ('empty', 'zeros', 'ones', 'full', 'masked_all', 'ndarray',
                            'MaskedArray'):
                self.found.append(('results', None, what, '', 'result %d is made by %s' % (
                    n, md[0])))
                continue
            self.found.append(('results', ma == self.graph.masked, what, md[0],
                               '%s fills %s' % ('a masked evaluation' if self.graph.masked else
                                                'an ordinary evaluation', 'a masked array'
                                                if ma else 'a plain array')))


def of_graph(job):
    import sys
    root, g, public = job
    sys.setrecursionlimit(20000)
    a = A6(Package(root), g)
    a.public = public
    try:
        a.run()
    except (Unsupported, RecursionError) as e:
        a.dunno('analysis', '%s' % e)
    except PyExc as e:
        a.dunno('analysis', 'the program raises %s' % e.exc.cls)
    return (g.name, a.found, {k: str(v) for k, v in a.undecided.items()},
            {k: v[-3:] for k, v in a.viol.items()}, a.functions)


def save_run(root, masked, script):
    pkg = Package(root)
    m = Machine(pkg)
    mod = 'biggus._init'
    m.module(mod)
    f = m.module_attr(mod, 'save')
    if f is _MISSING:
        return None
    stub = Stub('L1', None, 'shape', 2)
    target = Opaque('target', roots=('target',))
    mon = Probe6(m, None, None, 3)
    mon.masked = bool(masked)
    m.frames = [Frame(m.genv[mod], 'save')]
    m.mon = mon
    setup(m, 0, script)
    m.item_truth = True
    m.call(f, [VList([stub]), VList([target])], {} if masked is None else {'masked': masked},
           None)
    return m, mon


def of_save(root):
    import sys
    sys.setrecursionlimit(20000)
    out = []
    for masked in (None, False, True):
        what = 'save(..., masked=%s)' % masked if masked is not None else 'save(...)'
        for script in Script():
            try:
                r = save_run(root, masked, script)
            except (Unsupported, Killed, Pruned, RecursionError) as e:
                out.append(('save', None, what, '', 'not understood: %s' % e))
                continue
            except PyExc as e:
                out.append(('save', None, what, '', 'it raises %s' % e.exc.cls))
                continue
            if r is None:
                out.append(('save', False, what, 'biggus/_init.py', 'the function does not exist'))
                continue
            if not r[1].seen:
                out.append(('save', None, what, '', 'nothing is stored'))
            for s, (ok, t) in r[1].seen.items():
                out.append(('save', ok, what, s, t))
    return out


def plans(tier):
    gs = [g for g in graphs(tier) if not g.masked]
    if tier == 'quick':
        gs = [g for g in gs if g.name in (
            'two sources', 'a pair of sources', 'a nested pair sharing a source',
            'an aggregation', 'a pair and an aggregation of one of its sources',
            'a pair of aggregations of one source')]
    out = []
    for g in gs:
        for masked in (False, True):
            out.append((Graph(g.name + (' (masked)' if masked else ''), g.spec, g.requests,
                              masked), False))
    for rank in (0, 1):
        for masked in (False, True):
            out.append((Graph('a pair of sources of rank %d%s' % (
                rank, ' (masked)' if masked else ''), gs[0].spec, ['E'], masked, rank), False))
    for masked in (False, True):
        out.append((Graph('biggus.%s of a source, a pair and an aggregation' % (
            'masked_arrays' if masked else 'ndarrays'), gs[0].spec, ['L1', 'E', 'A'],
            masked), True))
    return out


def start(root, tier):
    jobs = [(root, g, p) for g, p in plans(tier)]
    ex = cf.ProcessPoolExecutor(min(7, len(jobs)))
    return ex, [ex.submit(of_graph, j) for j in jobs], ex.submit(of_save, root)


def finish(chk, started):
    ex, fs, sv = started
    fns = set()
    for f in fs:
        name, found, und, viol, fn = f.result()
        fns |= fn
        if und or viol:
            why = '; '.join(map(str, sorted(und.items(), key=str)[:2])) or \
                'the threads break the rules of C03: ' + \
                '; '.join('%s: %s' % (k[0], k[3]) for k in sorted(viol, key=str)[:2])
            chk.dunno('threads', name, why)
        add(chk, found)
    add(chk, sv.result())
    ex.shutdown()
    return fns


def add(chk, found):
    seen = set()
    for rule, v, construct, site, detail in found:
        if (rule, construct, v, detail) in seen:
            continue
        seen.add((rule, construct, v, detail))
        chk.verdict(v, rule, construct, site, detail)
