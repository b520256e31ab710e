"""The evaluation engine's threads and queues, analysed with bsa.typestate.

A request graph is a small graph of arrays of which nothing is known but their
sources.  For each graph
  wiring   every way in which the engine can build its nodes, queues and threads,
  threads  every thread on its own, against every behaviour of its inputs and every
           failure of what it calls,
  whole    the composition, with at most one failure anywhere
are explored.
"""
from .typestate import *          # noqa
from .typestate import _MISSING

ENGINE = 'AllThreadedEngine'


class Graph(object):
    def __init__(self, name, spec, requests, masked=False, rank=2):
        """spec: {label: None or [source labels] or ('agg', [source labels])}."""
        self.name, self.spec, self.requests, self.masked = name, spec, requests, masked
        self.rank = rank

    def build(self):
        out = {}

        def get(label):
            if label not in out:
                s = self.spec[label]
                if s is None:
                    out[label] = Stub(label, None, 'shape', self.rank)
                else:
                    agg = isinstance(s, tuple)
                    srcs = [get(x) for x in (s[1] if agg else s)]
                    nd = srcs[0].ndim - (1 if agg else 0)
                    shape = srcs[0].attrs['shape'].eq[1]
                    out[label] = Stub(label, srcs, ('reduced ' + shape) if agg else shape, nd)
                    out[label].agg = agg
            return out[label]
        return [get(r) for r in self.requests]


E_ = {'L1': None, 'L2': None, 'L3': None, 'E': ['L1', 'L2'], 'F': ['E', 'L1'], 'D': ['L1', 'L1'],
      'A': ('agg', ['L1']), 'B': ('agg', ['L1']), 'C': ('agg', ['E']), 'G': ('agg', ['E']),
      'H': ['A', 'B'], 'Q': ['H', 'A'], 'U': ['L1'], 'T': ['L1', 'L2', 'L3'], 'N': ['E', 'D'], 'M': ['E', 'E']}


def graphs(tier):
    q = [('one source', ['L1']), ('two sources', ['L1', 'L2']), ('a pair of sources', ['E']),
         ('a source paired with itself', ['D']), ('a nested pair sharing a source', ['F']),
         ('an aggregation', ['A']), ('an aggregation and its source', ['A', 'L1']),
         ('a pair and an aggregation of one of its sources', ['E', 'A']),
         ('the same array twice', ['E', 'E']),
         ('two aggregations of one pair', ['C', 'G']),
         ('a pair of aggregations of one source', ['H']),
         ('a pair of such a pair and its part', ['Q'])]
    t = [('one operand', ['U']), ('three operands', ['T']), ('a pair and its second source',
                                                            ['E', 'L2']),
         ('a pair of pairs sharing a source', ['N']), ('a pair of the same pair', ['M']),
         ('two aggregations of one source', ['A', 'B']),
         ('a source, its pair and its aggregation', ['L1', 'D', 'A'])]
    out = [Graph(n, E_, r) for n, r in q]
    if tier == 'thorough':
        out += [Graph(n, E_, r) for n, r in t]
        out += [Graph(n + ' (masked)', E_, r, True) for n, r in q + t]
    else:
        out += [Graph(n + ' (masked)', E_, r, True) for n, r in q[2:3] + q[5:6]]
    return out


def tkey(m, v):
    """What a reader can tell about the last item of a queue."""
    for name in sorted(m.genv):
        for k in sorted(m.genv[name].vars):
            if m.genv[name].vars[k] is v and isinstance(v, (Opaque, Inst)):
                return ('global', name, k)
    if isinstance(v, ExcVal):
        return ('exception',)
    if isinstance(v, Inst):
        return ('instance', v.cls.mod, v.cls.name)
    if isinstance(v, Class):
        return ('class', v.mod, v.name)
    if isinstance(v, Opaque):
        return ('opaque', v.tag)
    if isinstance(v, (Ext, int, str, type(None), bool)):
        return m.key_of(v)
    raise Unsupported('the last item %r' % (v,))


def tval(m, k):
    if isinstance(k, tuple):
        if k[0] == 'global':
            return m.module_attr(k[1], k[2])
        if k[0] == 'exception':
            return ExcVal('?Exception')
        if k[0] == 'instance':
            c = m.module_attr(k[1], k[2])
            if not isinstance(c, Class):
                raise Unsupported('a last item of a local class')
            return Inst(c)
        if k[0] == 'class':
            return m.module_attr(k[1], k[2])
        if k[0] == 'x':
            return Ext(k[1])
        raise Unsupported('the last item %s' % (k,))
    return k


def tname(k):
    if isinstance(k, tuple):
        return '.'.join(str(x) for x in k[1:]) or k[0]
    return repr(k)


class M(Machine):
    def __init__(self, ana, prefix, seen, pathno):
        Machine.__init__(self, ana.pkg, prefix, seen, pathno)
        self.ana = ana
        self.quiet = False

    def different_form(self, x, y):
        """Whether x, the value of a function of a shape and an order, is of another form than
        the tuple y: one has a tuple where the other has the axis of a handler."""
        if not (isinstance(x.eq, tuple) and x.eq[0] == 'f' and len(x.eq) == 3 and
                len(x.eq[2]) == 2):
            return False
        f = self.ana.form(x.eq[1])
        if not isinstance(f, (tuple, VList)):
            return False
        f, y = self.to_list(f), self.to_list(y)
        if len(f) != len(y):
            return True
        return any(isinstance(p, (tuple, VList)) and isinstance(q, Opaque) and
                   isinstance(q.eq, tuple) and q.eq[0] == 'a' and q.eq[-1] == 'axis'
                   for p, q in zip(f, y))

    def report(self, rule, text):
        self.ana.violation(rule, self.ana.graph.name, self.site(), text, self.log)


class Monitor(object):
    """The contract of one thread, against every environment."""

    def __init__(self, m, thread, info):
        self.m, self.t, self.info = m, thread, info
        self.inq, self.outs = {}, {}
        self.failed = None
        self.pending_exc = None
        self.injected = 0
        self.ents = []
        self.final = 0
        self.last = {}
        self.L = None
        self.handlers = []

    def say(self, s):
        self.m.log.append(s)

    def fail(self, why, exc=None):
        if self.failed is None:
            self.failed = why

    def inject(self, what, node):
        if self.injected or self.failed is not None:
            return
        c = self.m.choose(3, what)
        if c:
            self.injected += 1
            self.say('%s raises %s at %s' % (what, ('an Exception', 'a BaseException')[c - 1],
                                             self.m.site(node)))
            self.fail(what + ' raised')
            e = ExcVal(('?Exception', '?Base')[c - 1], True)
            if what.startswith('the next item'):
                e.memo['StopIteration'] = False      # generators can't (PEP 479)
            raise PyExc(e)

    # entities
    def new(self, o, kind, label=None):
        o.kind = kind
        o.idx = len(self.ents)
        o.puts = {}
        o.used = o.touched = 0
        o.label = label
        self.ents.append(o)
        return o

    def next_item(self, it):
        if any(e.kind != 'item' for e in it.deps) or it.deps:
            if not self.m.choose(2, 'end of ' + it.tag):
                return None
            return self.m.derive('element', [it], unique=True)
        if not self.m.choose(2, 'end of ' + it.tag):
            self.say('%s ends' % it.tag)
            return None
        o = self.new(Opaque('key', roots=it.roots), 'item')
        self.say('%s gives a key' % it.tag)
        return o

    def mark(self, v):
        if v.kind in ('item', 'out', 'chunk') and hasattr(v, 'idx'):
            q = getattr(v, 'queue', None)
            return (v.used, v.touched, tuple(sorted(v.puts.items())),
                    None if q is None else (q.qid, min(3, self.inq[q.qid]['n'] - v.round)))
        return None

    def canon(self, out, go):
        live = [d['n'] for d in self.inq.values() if d['st'] == 'live']
        ref = max(live) if live else max([d['n'] for d in self.inq.values()] or [0])
        out.append(tuple(sorted((q, d['st'], max(-3, min(3, d['n'] - ref)))
                                for q, d in self.inq.items())))
        out.append(None if self.L is None else max(-3, min(3, self.L - ref)))
        out.append(tuple(sorted((q, o['term'], o['after']) for q, o in self.outs.items())))
        out.append((self.failed is not None, self.injected, min(self.final, 2)))
        out.append(tuple(sorted({str(self.fact(e)) for e in self.ents})))

    def fact(self, e):
        return (e.kind, e.used, e.touched, e.nonnull, tuple(sorted(e.puts.items())),
                getattr(getattr(e, 'queue', None), 'qid', None))

    # queues
    def get(self, q, block, node):
        w = self.info.writer_of(q.qid)
        if w is None:
            raise NotReady(q.qid, self.m.site(node))
        d = self.inq.setdefault(q.qid, {'st': 'live', 'n': 0})
        if not block and self.m.choose(2, 'empty'):
            self.say('the queue is empty at %s' % self.m.site(node))
            raise PyExc(ExcVal('Empty'))
        if d['st'] != 'live':
            self.m.report('termination', 'after an input has ended, its queue is read again, '
                          'which waits for ever')
            raise Killed()
        opts = []
        n = d['n']
        if self.L is None or n < self.L:
            opts.append('data')
        if all(x['n'] <= n for x in self.inq.values()) and (self.L is None or n == self.L):
            opts += [('fin', k) for k in w.fin(q.qid)]
        opts += [('abort', k) for k in w.abort(q.qid)]
        if not opts:
            raise Unsupported('a queue on which nothing is ever put')
        c = opts[self.m.choose(len(opts), 'get')]
        q.undone += 1
        if c == 'data':
            d['n'] += 1
            t = Tok('chunk of input %d' % q.qid, roots=w.roots(q.qid))
            self.new(t, 'chunk', w.label(q.qid))
            t.queue, t.round = q, d['n']
            self.say('input %d delivers a chunk' % q.qid)
            return t
        d['st'] = c[0]
        if c[0] == 'fin':
            self.L = n
            self.say('input %d ends normally' % q.qid)
        else:
            self.fail('an input was aborted')
            self.say('input %d is aborted' % q.qid)
        return tval(self.m, c[1])

    def put(self, q, v, block, node):
        if not block and self.m.choose(2, 'full'):
            self.say('the queue is full at %s' % self.m.site(node))
            raise PyExc(ExcVal('Full'))
        o = self.outs.setdefault(q.qid, {'term': (), 'after': 0, 'data': 0})
        if isinstance(v, Opaque) and v.kind != 'sentinel' and self.m.nullness(v):
            v = None
        data = isinstance(v, NTInst) or (isinstance(v, Opaque) and v.kind != 'sentinel')
        if isinstance(v, (tuple, VList, VDict)):
            raise Unsupported('putting a %s on a queue' % type(v).__name__)
        if o['term']:
            o['after'] = 1
        if not data:
            o['term'] = (o['term'] + (tkey(self.m, v),))[:3]
            self.say('puts %s on queue %d' % (tname(tkey(self.m, v)), q.qid))
            return
        o['data'] += 1
        ents = []
        for x in self.m.flat(v):
            for e in self.m.entity(x):
                if e not in ents:
                    ents.append(e)
        outs = [e for e in ents if e.kind in ('out', 'item')]
        if not outs:
            if not ents:
                raise Unsupported('putting something that is not derived from an input')
            for e in ents:
                e.touched = 1
        for e in outs:
            e.puts[q.qid] = min(2, e.puts.get(q.qid, 0) + 1)
            if self.last.get(q.qid, -1) > e.idx:
                self.m.report('order', 'chunks are put on a queue in a different order from '
                              'that in which they were made')
            self.last[q.qid] = e.idx
        label = set()
        for e in outs:
            label |= {e.label} if e.kind == 'out' and e.label else self.src_of(v)
        self.info.note_data(self.t, q.qid, label, self.roots_of(v))
        self.say('puts a chunk on queue %d' % q.qid)

    def src_of(self, v):
        r = set()
        for x in self.m.flat(v):
            r |= x.src
        return r

    def roots_of(self, v):
        r = set()
        for x in self.m.flat(v):
            r |= x.roots
        return r

    # uses
    def chunks_in(self, vals):
        out = []
        for v in vals:
            for x in self.m.flat(v):
                for e in self.m.entity(x):
                    if e.kind == 'chunk' and e not in out:
                        out.append(e)
        return out

    def handler_call(self, h, name, vals, node):
        toks = self.chunks_in(vals)
        if toks:
            for t in toks:
                t.used = min(2, t.used + 1)
            self.info.note_combine(self.t, h, name, toks, self.m.site(node), self)
        elif name == 'finalise':
            self.final += 1
        else:
            return self.m.derive('.' + name, [h] + list(vals))
        if h not in self.handlers:
            self.handlers.append(h)
        self.say('%s.%s()' % (h.tag, name))
        return self.new(Opaque('the result of %s' % name, roots=h.roots, nonnull=None), 'out',
                        h.array.label)

    def passed(self, o, name, vals, node):
        store = name in ('setitem', '__setitem__') or name.split('.')[-1] in ('copyto', 'put')
        for t in self.chunks_in(vals):
            if store:
                t.used = 1 if not t.used else t.used
            else:
                t.touched = 1

    def made(self, r, node):
        """Something has been computed."""

    def updated(self, old, v, node):
        """An augmented assignment to something opaque."""

    # end of a path
    def end(self):
        self.info.path(self)


class ThreadInfo(object):
    """What has been established about one thread."""

    def __init__(self, ana, tid, name):
        self.ana, self.tid, self.name = ana, tid, name
        self.W, self.R = set(), set()
        self.paths = []
        self.keys = set()
        self.data = {}               # qid -> (labels, roots)
        self.combines = []
        self.done = False
        self._fin, self._abort = {}, {}

    def writer_of(self, qid):
        for i in self.ana.infos.values():
            if i.done and qid in i.W:
                return i
        return None

    def fin(self, qid):
        return sorted(self._fin.get(qid, ()), key=str)

    def abort(self, qid):
        return sorted(self._abort.get(qid, ()), key=str)

    def roots(self, qid):
        return self.data.get(qid, (set(), set()))[1]

    def label(self, qid):
        ls = self.data.get(qid, (set(), set()))[0]
        return '+'.join(sorted(ls)) if ls else None

    def note_data(self, t, qid, labels, roots):
        d = self.data.setdefault(qid, (set(), set()))
        d[0].update(labels)
        d[1].update(roots)

    def note_combine(self, t, h, name, toks, site, mon):
        rounds = {k.round for k in toks}
        known = []
        for k in toks[1:]:
            a, b = toks[0].attrs.get('keys'), k.attrs.get('keys')
            known.append(a is not None and b is not None and mon.m.find(a.eq) == mon.m.find(b.eq))
        self.combines.append((h.array.label, name, tuple(k.label for k in toks),
                              tuple(k.queue.qid for k in toks), len(rounds) == 1, all(known),
                              site))

    def path(self, mon):
        outs = tuple(sorted((q, o['term'], o['after'], min(2, o['data']))
                            for q, o in mon.outs.items()))
        ins = tuple(sorted((q, d['st']) for q, d in mon.inq.items()))
        facts = () if mon.failed else tuple(sorted({mon.fact(e) for e in mon.ents}, key=str))
        key = (mon.failed is not None, outs, ins, facts, min(2, mon.final), len(mon.handlers))
        self.W |= {q for q in mon.outs}
        self.R |= {q for q in mon.inq}
        if key not in self.keys:
            self.keys.add(key)
            self.paths.append((key, mon.failed, mon.m.log[-14:]))


class Summary(object):
    """The results of a thread in terms of the order in which it reaches things."""

    def __init__(self, info, qids, labels, functions, viol):
        self.info, self.qids, self.labels, self.functions = info, qids, labels, functions
        self.viol = viol

    def copy_to(self, new, qids, labels):
        old = self.info
        q = dict(zip(self.qids, qids))
        q[None] = None
        ls = dict(zip(self.labels, labels))

        def puts(p):
            return tuple(sorted((q[a], b) for a, b in p))
        new.W, new.R = {q[x] for x in old.W}, {q[x] for x in old.R}
        new.data = {q[k]: ({ls.get(x, x) for x in a}, set(b)) for k, (a, b) in old.data.items()}
        for (failed, outs, ins, facts, final, nh), why, log in old.paths:
            new.paths.append(((failed, tuple(sorted((q[o[0]],) + o[1:] for o in outs)),
                               tuple(sorted((q[a], b) for a, b in ins)),
                               tuple(f[:4] + (puts(f[4]), q[f[5]]) for f in facts), final, nh),
                              why, log))
        for lab, name, toks, tq, same, keys, site in old.combines:
            tq = tuple(q[x] for x in tq)
            toks = tuple((new.writer_of(x).label(x) if new.writer_of(x) else None) for x in tq)
            new.combines.append((ls.get(lab, lab), name, toks, tq, same, keys, site))


class Sim(Monitor):
    """One run of everything, with at most one failure anywhere."""
    state = None

    def inject(self, what, node):
        self.nops = getattr(self, 'nops', 0) + 1
        if self.state['never'] or self.state['injected'] or self.nops not in (1, 2, 5):
            return
        if self.m.choose(2, what):
            self.state['injected'] = '%s at %s' % (what, self.m.site(node))
            self.say('%s raises at %s' % (what, self.m.site(node)))
            self.fail(what)
            e = ExcVal('?Exception', True)
            e.memo['StopIteration'] = False
            raise PyExc(e)

    def next_item(self, it):
        n = self.__dict__.setdefault('counts', {})
        c = n.get(id(it), 0)
        self.m.keep.append(it)
        n[id(it)] = c + 1
        if c >= 2:
            return None
        if it.deps:
            return self.m.derive('element', [it], unique=True)
        return self.new(Opaque('key', roots=it.roots), 'item')

    def canon(self, out, go):
        out.append(len(self.m.log))
        out.append(id(self))
        out.append(len(self.m.trace))
        out.append(self.m.progress)
        out.append(self.m.steps)

    def get(self, q, block, node):
        if not q.content:
            if not block:
                raise PyExc(ExcVal('Empty'))
            self.m.report('termination', 'a thread waits for ever on an empty queue')
            raise Killed()
        q.undone += 1
        v = q.content.pop(0)
        if isinstance(v, Opaque) and v.kind == 'sent':
            t = Tok('chunk', roots=v.roots)
            self.new(t, 'chunk', v.label)
            t.queue, t.round = q, v.round
            t.attrs['keys'] = Opaque('keys', ('keys', v.round), deps=(t,))
            t.attrs['keys'].owner = (t, 'keys')
            return t
        if v is not None and isinstance(v, tuple) and v and v[0] == '.exc':
            return v[1]
        return v

    def put(self, q, v, block, node):
        if isinstance(v, Opaque) and v.kind != 'sentinel' and self.m.nullness(v):
            v = None
        if isinstance(v, NTInst) or (isinstance(v, Opaque) and v.kind != 'sentinel'):
            label = set()
            for x in self.m.flat(v):
                for e in self.m.entity(x):
                    if e.kind == 'out':
                        label = {e.label}
            roots = self.roots_of(v)
            o = Opaque('sent', roots=roots)
            o.kind = 'sent'
            o.label = '+'.join(sorted(label or self.src_of(v)))
            o.round = getattr(q, 'nput', 0)
            q.nput = o.round + 1
            q.labels = getattr(q, 'labels', set()) | {o.label}
            q.content.append(o)
        else:
            q.content.append(v)

    def handler_call(self, h, name, vals, node):
        toks = self.chunks_in(vals)
        if not toks and name != 'finalise':
            return self.m.derive('.' + name, [h] + list(vals))
        if not toks:
            return None
        return self.new(Opaque('result of ' + name, roots=h.roots), 'out', h.array.label)

    def mark(self, v):
        return id(v)

    def end(self):
        pass


class Probe(Sim):
    """One run without failures, to see what is connected to what."""

    def __init__(self, m, thread, info):
        Sim.__init__(self, m, thread, info)
        self.iters, self.comb = [], []

    def inject(self, what, node):
        pass

    def next_item(self, it):
        if it not in self.iters and not it.deps:
            self.iters.append(it)
        return Sim.next_item(self, it)

    def handler_call(self, h, name, vals, node):
        toks = self.chunks_in(vals)
        if toks:
            self.comb.append((h, name, [t.queue.qid for t in toks], [t.label for t in toks],
                              [t.round for t in toks], self.m.site(node)))
        return Sim.handler_call(self, h, name, vals, node)


def no_choice(n, why=''):
    raise Unsupported('a decision about %s' % why)


def of_cuts(pkg, name, cs, order, which=''):
    """The value of the function `name` for a shape whose dimensions are divided into cs[0],
    cs[1], ... unknown slices, and an order -> (machine, value)."""
    m = Machine(pkg)
    m.module('biggus._init')
    m.frames.append(Frame(m.genv['biggus._init'], 'f'))

    def inside(fn, args, kw, m=m):
        if fn.name == '_all_slices_inner':
            if not any(isinstance(a, bool) and a for a in list(args) + list(kw.values())):
                raise Unsupported('_all_slices_inner without slices')
            return VList([VList([Opaque('s', ('s' + which, d, i)) for i in range(c)])
                          for d, c in enumerate(cs)])
        return _MISSING
    m.inside = inside
    m.choose = no_choice
    owner, attr = name.rsplit('.', 1)
    fn = m.module_attr('biggus._init', owner)
    if not isinstance(fn, Class):
        fn = m.module_attr(owner, attr)
    else:
        fn = m.getattr(fn, attr, None)
    shape = tuple(Opaque('n%d' % d, ('n' + which, d)) for d in range(len(cs)))
    return m, m.call(fn, [shape, VList(order)], {}, None)


class Analysis(object):
    forms = {}

    def form(self, name):
        """What a function of a shape and an order returns for two divided dimensions."""
        k = (self.pkg.root, name)
        if k not in self.forms:
            try:
                self.forms[k] = of_cuts(self.pkg, name, (2, 2), [0, 1])[1]
            except (Unsupported, PyExc, RecursionError, KeyError, ValueError):
                self.forms[k] = None
        return self.forms[k]

    def __init__(self, pkg, graph, mod='biggus._init'):
        self.pkg, self.graph, self.mod = pkg, graph, mod
        self.viol = {}
        self.undecided = {}
        self.functions = set()
        self.npaths = 0
        self.queues = {}
        self.outcomes = {'returned': 0, 'raised': 0}
        self.variants = 0
        self.infos = {}
        self.threads_seen = 0
        self.combines = []
        self.results = []

    def violation(self, rule, construct, site, text, log):
        self.viol.setdefault((rule, construct, site, text), list(log[-14:]))

    def dunno(self, rule, why):
        self.undecided.setdefault((rule, self.graph.name), why)

    # ------------------------------------------------------------------- wiring
    def call_engine(self, m):
        c = m.module_attr(self.mod, ENGINE)
        if not isinstance(c, Class):
            raise Unsupported('%s is not a class' % ENGINE)
        stubs = self.graph.build()
        m.stubs = stubs
        env = Env(None, self.mod)
        m.module(self.mod)
        m.frames.append(Frame(m.genv[self.mod], '<caller>'))
        m.frames[-1].node = None
        eng = m.call(c, [], {}, None)
        name = 'masked_arrays' if self.graph.masked else 'ndarrays'
        m.engine = eng
        return m.call_method(eng, name, stubs, {}, None)

    def run(self):
        variants = []

        def go(m):
            try:
                m.result = self.call_engine(m)
            except Killed:
                return
            except PyExc as e:
                m.result = e.exc
                if not isinstance(e.exc, ExcVal) or not m.queues:
                    self.violation('wiring', self.graph.name, m.site(), 'evaluation of arrays '
                                   'raises %s before anything is read' % e.exc.cls, m.log)
                    return
            js = [n for n in (m.njoin,) if n is not None]
            v = [c for c, _ in m.trace]
            v = v[:js[0]] if js else v
            if v not in variants:
                variants.append(v)
        for m in explore(lambda p, s, n: M(self, p, s, n), go, 400):
            self.functions |= m.functions
            for q in m.queues:
                self.queues[q.site] = q.maxsize if q.kind != 'SimpleQueue' else 0
        self.variants = len(variants)
        wirings = set()
        for v in variants:
            m0 = self.variant(v)
            if self.undecided or self.viol:
                break
            try:
                sig = self.signature(m0, *[t for t in m0.threads if t.started])[0]
            except KeyError:
                sig = tuple(v)
            if sig not in wirings:
                wirings.add(sig)
                self.after(v, m0)

    def after(self, v, m0):
        self.whole(v)

    # ------------------------------------------------------------------ threads
    def variant(self, v):
        self.infos = {}
        m0 = M(self, v, {}, 0)
        try:
            self.call_engine(m0)
        except PyExc:
            pass
        ths = m0.threads
        live = [t for t in ths if t.started]
        for t in ths:
            if t.started > 1:
                self.violation('wiring', self.graph.name, t.site, 'a thread is started twice', [])
        todo = []
        for t in live:
            i = ThreadInfo(self, t.tid, self.name_of(m0, t))
            self.infos[t.tid] = i
            todo.append(i)
        while todo:
            progress, blocked = False, []
            for i in list(todo):
                try:
                    self.thread(v, i, m0)
                except NotReady as e:
                    i.W, i.R, i.paths, i.keys, i.data, i.combines = \
                        set(), set(), [], set(), {}, []
                    blocked.append((i, e))
                    continue
                except (Unsupported, RecursionError) as e:
                    self.dunno('threads', '%s: %s' % (i.name, e))
                    return
                todo.remove(i)
                i.done = True
                progress = True
                self.judge(i)
            if todo and not progress:
                for i, e in blocked:
                    self.violation('wiring', self.graph.name, e.args[1],
                                   '%s waits on queue %d, which no thread that is started '
                                   'writes to' % (i.name, e.args[0]), [])
                return
        self.topology(m0)
        for i in self.infos.values():
            for c in i.combines:
                if (i.name, c) not in self.combines:
                    self.combines.append((i.name, c))
        return m0

    def name_of(self, m, t):
        f = t.target
        if isinstance(f, Bound):
            o = f.self_
            return '%s.%s' % (o.cls.name if isinstance(o, Inst) else '?', f.func.name)
        return getattr(f, 'name', 'thread %d' % t.tid)

    cache = {}

    def signature(self, m, *ts):
        """What the behaviour of threads depends on, up to renaming."""
        num, out, qids, labels = {}, [], [], []
        eqs = {}

        def go(v, depth=0):
            if isinstance(v, (int, str, float, bytes, bool, type(None), type(Ellipsis))):
                out.append(v)
                return
            if isinstance(v, Ext):
                out.append(v.name)
                return
            if not isinstance(v, tuple):
                if id(v) in num:
                    out.append(('#', num[id(v)]))
                    return
                num[id(v)] = len(num)
            out.append(type(v).__name__)
            if isinstance(v, Opaque):
                out.append((v.kind, v.nonnull, v.truth, tuple(sorted(map(str, v.facts.items()))),
                            eqs.setdefault(m.find(v.eq), len(eqs))))
                if isinstance(v, Stub):
                    labels.append(v.label)
                    out.append(v.ndim)
                    go(None if v.sources is None else tuple(v.sources), depth + 1)
                if v.kind == 'handler':
                    go(v.array)
                for l in sorted(v.src):
                    if l not in labels:
                        labels.append(l)
                    out.append(labels.index(l))
                for k in sorted(v.attrs):
                    out.append(k)
                    go(v.attrs[k], depth + 1)
            elif isinstance(v, Inst):
                out.append(v.cls.name)
                for k in sorted(v.attrs):
                    out.append(k)
                    go(v.attrs[k], depth + 1)
            elif isinstance(v, (VList, VSet)):
                for x in v.items:
                    go(x, depth + 1)
            elif isinstance(v, VDict):
                for p in v.pairs:
                    go(p[0], depth + 1)
                    go(p[1], depth + 1)
            elif isinstance(v, tuple):
                for x in v:
                    go(x, depth + 1)
            elif isinstance(v, Queue):
                qids.append(v.qid)
                w = self.writer(v.qid)
                out.append(None if w is None else (w.fin(v.qid), w.abort(v.qid)))
            elif isinstance(v, Bound):
                out.append((v.func.mod, v.func.cls and v.func.cls.name, v.func.name))
                go(v.self_, depth + 1)
            elif isinstance(v, Func) and v.env.parent is None:
                out.append((v.mod, v.cls and v.cls.name, v.name))
            else:
                raise KeyError(type(v).__name__)
            out.append(')')
        for t in ts:
            go(t.target)
            go(tuple(t.args))
        return str(out), qids, labels

    def writer(self, qid):
        for i in self.infos.values():
            if i.done and qid in i.W:
                return i
        return None

    def thread(self, v, info, m0):
        """Analyse a thread, unless one just like it has been analysed."""
        self.threads_seen += 1
        t0 = [x for x in m0.threads if x.tid == info.tid][0]
        try:
            key, qids, labels = self.signature(m0, t0)
        except KeyError:
            key = None
        if key is not None:
            hit = self.cache.get(key)
            if hit is not None:
                hit.copy_to(info, qids, labels)
                self.functions |= hit.functions
                return
        f0 = self.functions
        self.functions = set()
        try:
            self.thread_(v, info)
            if key is not None and (info.W | info.R) <= set(qids):
                self.cache[key] = Summary(info, qids, labels, self.functions,
                                          {k: x for k, x in self.viol.items()})
        finally:
            self.functions |= f0

    def thread_(self, v, info):

        def go(m):
            m.seen = {}
            try:
                self.call_engine(m)
            except PyExc:
                pass
            m.seen = seen
            t = [x for x in m.threads if x.tid == info.tid][0]
            m.frames = [Frame(m.genv[self.mod], info.name)]
            m.curexc = []
            m.log = []
            mon = m.mon = Monitor(m, t, info)
            m.inject = mon.inject
            try:
                if t.target is not None:
                    m.call(t.target, list(t.args), {}, None)
            except PyExc as e:
                if not e.exc.injected:
                    mon.say('raises %s' % e.exc.cls)
                mon.fail('raised')
            except Killed:
                info.W |= set(mon.outs)
                info.R |= set(mon.inq)
                return
            except Pruned:
                info.W |= set(mon.outs)
                info.R |= set(mon.inq)
                return
            mon.end()
        seen = {}
        for m in self.from_prefix(v, go, seen):
            pass

    def judge(self, i):
        g = self.graph.name
        oks = 0
        for (failed, outs, ins, facts, final, nh), why, log in i.paths:
            od = {q: (t, a, n) for q, t, a, n in outs}
            what = 'when it fails (%s)' % why if failed else 'when nothing fails'
            for q in sorted(i.W):
                t, after, n = od.get(q, ((), 0, 0))
                if not t:
                    self.violation('last-item', '%s in %s' % (i.name, g), i.name,
                                   '%s, queue %d gets no last item: its reader waits for ever'
                                   % (what, q), log)
                elif len(t) > 1 or after:
                    self.violation('last-item', '%s in %s' % (i.name, g), i.name,
                                   '%s, more is put on queue %d after its last item'
                                   % (what, q), log)
                else:
                    (i._abort if failed else i._fin).setdefault(q, set()).add(t[0])
            idd = dict(ins)
            for q in sorted(i.R):
                if idd.get(q, 'live') == 'live':
                    self.violation('drain', '%s in %s' % (i.name, g), i.name,
                                   '%s, the input from queue %d is not read to its end: its '
                                   'writer waits for ever for space' % (what, q), log)
            if failed:
                continue
            oks += 1
            self.complete(i, facts, final, nh, log)
        for q in sorted(i.W):
            both = i._fin.get(q, set()) & i._abort.get(q, set())
            if both:
                k = sorted(both, key=str)[0]
                w = [log for (f, outs, *_), why, log in i.paths
                     if f and any(x[0] == q and x[1] == (k,) for x in outs)]
                self.violation('failure-visible', '%s in %s' % (i.name, g), i.name,
                               'after a failure queue %d ends with %s, as it does when '
                               'everything succeeds' % (q, tname(k)), w[0] if w else [])
                i._abort[q] -= both
        if not oks:
            self.violation('completion', '%s in %s' % (i.name, g), i.name,
                           'it never ends normally, even if nothing fails', [])

    def complete(self, i, facts, final, nh, log):
        g = '%s in %s' % (i.name, self.graph.name)
        for kind, used, touched, nonnull, puts, q in facts:
            if kind == 'chunk':
                if not used and not touched:
                    self.violation('processed', g, i.name, 'a chunk from queue %d is dropped '
                                   'although nothing failed' % q, log)
                elif not used:
                    self.dunno('processed', '%s: what happens to a chunk is not understood'
                               % i.name)
                elif used > 1:
                    self.violation('processed', g, i.name, 'a chunk from queue %d is processed '
                                   'twice' % q, log)
            elif kind in ('item', 'out'):
                if kind == 'out' and nonnull is False:
                    continue
                d = dict(puts)
                for q in sorted(i.W):
                    if d.get(q, 0) == 0:
                        self.violation('processed', g, i.name, '%s is not sent to queue %d '
                                       'although nothing failed' % (
                                           'a chunk of the source' if kind == 'item'
                                           else 'a result'
                                           if nonnull else 'what may be a result', q), log)
                    elif d[q] > 1:
                        self.violation('processed', g, i.name, '%s is sent to queue %d twice' % (
                            'a chunk of the source' if kind == 'item' else 'a result', q), log)
        if nh and final != 1:
            self.violation('processed', g, i.name, 'its handler is finalised %s' %
                           ('more than once' if final else 'never: partial results are dropped'),
                           log)

    def topology(self, m0):
        g = self.graph.name
        for q in m0.queues:
            ws = [i for i in self.infos.values() if q.qid in i.W]
            rs = [i for i in self.infos.values() if q.qid in i.R]
            if ws and not rs:
                self.violation('wiring', g, q.site, 'nothing reads queue %d, so its writer %s '
                               'waits for ever when it is full' % (q.qid, ws[0].name), [])
            if len(ws) > 1:
                self.violation('wiring', g, q.site, '%d threads write to one queue' % len(ws), [])
            if len(rs) > 1:
                self.violation('wiring', g, q.site, '%d threads read from one queue, so each '
                               'gets a part of it' % len(rs), [])

    # -------------------------------------------------------------------- whole
    def whole(self, v, fail=True):
        g = self.graph.name

        def go(m):
            state = {'injected': None, 'running': False, 'never': not fail}
            m.order2 = []

            def joined(t):
                if state['running']:
                    return
                state['running'] = True
                need = self.upstream(t.tid)
                for tid in self.run_order(m):
                    if tid not in need:
                        continue         # it may not have got anywhere yet
                    x = [y for y in m.threads if y.tid == tid][0]
                    if x.ran or not x.started:
                        continue
                    x.ran = True
                    frames, cur = m.frames, m.curexc
                    m.frames = [Frame(m.genv[self.mod], 'thread')]
                    m.curexc = []
                    mon = Sim(m, x, ThreadInfo(self, x.tid, ''))
                    mon.state = state
                    m.mon, m.inject = mon, mon.inject
                    try:
                        if x.target is not None:
                            m.call(x.target, list(x.args), {}, None)
                    except PyExc:
                        pass
                    finally:
                        m.mon = m.inject = None
                        m.frames, m.curexc = frames, cur
                state['running'] = False
            m.on_join = joined
            m.seen = {}
            try:
                try:
                    r = self.call_engine(m)
                except PyExc as e:
                    self.outcomes['raised'] += 1
                    if not state['injected']:
                        self.violation('completion', g, m.site(), 'the call raises %s although '
                                       'nothing failed' % e.exc.cls, m.log)
                    return
                except Killed:
                    return
                self.outcomes['returned'] += 1
                unran = [t for t in m.threads if t.started and not t.ran]
                if state['injected']:
                    self.violation('failure-raises', g, m.site(), 'the call returns although %s '
                                   'failed' % state['injected'], m.log)
                    return
                fill = [t for t in unran if not self.infos[t.tid].W]
                if fill:
                    self.violation('join', g, m.site(), 'the call returns without waiting for '
                                   'the thread %s' % self.infos[fill[0].tid].name, m.log)
                    return
                self.check_result(m, r)
            except (Unsupported, RecursionError) as e:
                self.dunno('whole', str(e))
            except Pruned:
                self.dunno('whole', 'a repeated state')
        for m in self.from_prefix(v, go, {}):
            pass

    # --------------------------------------------------------- chunk sequences
    def probe(self, v):
        """Connect the threads of one wiring: what goes into what."""
        m = M(self, v, {}, 0)
        self.call_engine(m)
        mons = {}
        for tid in self.run_order(m):
            x = [y for y in m.threads if y.tid == tid][0]
            m.frames = [Frame(m.genv[self.mod], 'thread')]
            m.curexc = []
            mon = mons[tid] = Probe(m, x, ThreadInfo(self, x.tid, self.infos[tid].name))
            m.mon = mon
            try:
                if x.target is not None:
                    m.call(x.target, list(x.args), {}, None)
            except PyExc as e:
                raise Unsupported('%s raises %s' % (mon.info.name, e.exc.cls))
            finally:
                m.mon = None
        return m, mons

    def from_prefix(self, v, go, seen):
        """Explore what can happen after the choices v."""
        prefix, n = list(v), 0
        base = len(v)
        while True:
            n += 1
            if n > 6000:
                raise Unsupported('too many paths')
            m = M(self, prefix, seen, n)
            go(m)
            self.functions |= m.functions
            self.npaths += 1
            yield m
            tr = m.trace
            i = len(tr) - 1
            while i >= base and tr[i][0] + 1 >= tr[i][1]:
                i -= 1
            if i < base:
                return
            prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]

    def upstream(self, tid):
        out = {tid}
        while True:
            more = {u.tid for u in self.infos.values()
                    if any(self.infos[t].R & u.W for t in out)} - out
            if not more:
                return out
            out |= more

    def run_order(self, m):
        """The started threads, writers before readers."""
        left = [i for i in self.infos.values()
                if any(t.tid == i.tid and t.started for t in m.threads)]
        out = []
        while left:
            for i in left:
                if not any(i.R & u.W for u in left if u is not i):
                    out.append(i.tid)
                    left.remove(i)
                    break
            else:
                raise Unsupported('threads which feed one another')
        return out

    def check_result(self, m, r):
        g = self.graph.name
        site = m.site()
        if not isinstance(r, (VList, tuple)):
            if isinstance(r, Opaque):
                return self.dunno('results', 'the returned value is not understood')
            self.violation('results', g, site, 'the call returns %s instead of a list' %
                           type(r).__name__, m.log)
            return
        rs = m.to_list(r)
        req = self.graph.requests
        if len(rs) != len(req):
            self.violation('results', g, site, '%d results are returned for %d arrays'
                           % (len(rs), len(req)), m.log)
            return
        byq = {q.qid: q for q in m.queues}
        for n, (x, label) in enumerate(zip(rs, req)):
            if not isinstance(x, Opaque):
                self.violation('results', g, site, 'result %d is %r' % (n, x), m.log)
                continue
            st = x.facts.get('stored', set())
            labels = set()
            for q in st:
                labels |= getattr(byq[q], 'labels', set())
            self.results.append((n, label, sorted(labels)))
            if labels == {label}:
                continue
            if labels:
                self.violation('results', g, site, 'result %d is filled from %s instead of %s'
                               % (n, '+'.join(sorted(labels)), label), m.log)
            elif getattr(x, 'made', None) and x.made[0].split('.')[-1] in ('empty', 'zeros'):
                self.violation('results', g, site, 'result %d is returned without anything '
                               'being stored in it' % n, m.log)
            else:
                self.dunno('results', 'result %d is not understood' % n)
