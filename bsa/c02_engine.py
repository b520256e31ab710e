"""C02 for the threads of an evaluation: what they write to, and what evaluations share."""
import concurrent.futures as cf

from .engine import *          # noqa
from .p_c09 import A9, Probe9, setup, weight, CONV, META

WRITES = ('setitem', '__setitem__', 'put', 'itemset', 'fill', 'sort', 'partition', 'resize',
          '__delitem__', '__iadd__', '__isub__', '__imul__', 'byteswap', 'harden_mask',
          'soften_mask', 'setflags', 'mask')
INTO = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0}
SHARING = ('asarray', 'asanyarray', 'getdata', 'getmaskarray', 'getmask', 'masked_array',
           'MaskedArray', 'rollaxis', 'moveaxis', 'swapaxes', 'transpose', 'reshape', 'ravel',
           'squeeze', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'expand_dims', 'require',
           'ascontiguousarray')
SHARING_METHODS = ('view', 'reshape', 'ravel', 'transpose', 'swapaxes', 'squeeze',
                   '__getitem__', '__array__', 'diagonal', 'filled')


def origin(o, depth=0):
    """The data which a value is, or shares memory with: (a value, certain?), or None."""
    if depth > 20 or not isinstance(o, Opaque):
        return None
    b = getattr(o, 'base', None)
    if b is not None:
        return origin(b, depth + 1)
    ow = getattr(o, 'owner', None)
    if ow is not None:
        if not isinstance(ow[0], Opaque) or ow[1] in META:
            return None
        if isinstance(ow[0], Tok) or ow[0].kind in ('chunk', 'out'):
            return ow[0], True
        return origin(ow[0], depth + 1)
    mt = getattr(o, 'method', None)
    if mt is not None:
        if mt[1] in CONV:
            return o, True
        if mt[1] in SHARING_METHODS:
            return origin(mt[0], depth + 1)
        return None
    md = getattr(o, 'made', None)
    if md is not None:
        if md[0].split('.')[-1] in SHARING:
            for v in md[1]:
                r = origin(v, depth + 1) if isinstance(v, Opaque) else None
                if r is None and isinstance(v, Stub):
                    r = (v, True)
                if r is not None:
                    return r
        return None
    if isinstance(o, Tok) or o.kind in ('chunk', 'out'):
        return o, True
    return None


class Probe2(Probe9):
    """The in-place writes of one thread."""

    def sample(self, node=None):
        pass

    def converted(self, o, node):
        pass

    def wrote(self, o, how, node):
        self.nwrites = getattr(self, 'nwrites', 0) + 1
        r = origin(o)
        if r is not None:
            site = self.m.site(node)
            what = 'the data of a chunk' if isinstance(r[0], Tok) or r[0].kind in (
                'chunk', 'out') else 'the result of %s' % r[0].tag
            self.bad.setdefault(site, '%s is changed in place (%s)' % (what, how))

    def passed(self, o, name, vals, node):
        Probe9.passed(self, o, name, vals, node)
        if name in WRITES and isinstance(o, Opaque):
            self.wrote(o, name, node)

    def updated(self, old, v, node):
        if weight(old):
            self.wrote(old, 'augmented assignment', node)


def reach(ths):
    """The objects which some threads can change."""
    out, keep = {}, []
    stack = []
    for t in ths:
        stack += [t.target] + list(t.args or ()) + list((t.kwargs or {}).values()) + \
            list(t.attrs.values())
    while stack:
        v = stack.pop()
        if v is None or id(v) in out:
            continue
        if isinstance(v, (Inst, VList, VDict, Queue, VSet)):
            out[id(v)] = v
        elif isinstance(v, (Bound, Func, tuple, NTInst, Thread, Iter, Env, BuiltinMethod)):
            if id(v) in keep:
                continue
            keep.append(id(v))
        else:
            continue
        if isinstance(v, Env):
            if v.parent is not None:
                stack += list(v.vars.values()) + [v.parent]
        elif isinstance(v, Bound):
            stack += [v.self_, v.func]
        elif isinstance(v, Func):
            stack += [v.env] + list(v.defaults) + [x for x in v.kwdefaults if x]
        elif isinstance(v, (Inst, Thread)):
            stack += list(v.attrs.values())
            if isinstance(v, Thread):
                stack += [v.target] + list(v.args or ())
        elif isinstance(v, (VList, VSet, Iter)):
            stack += list(v.items)
        elif isinstance(v, tuple):
            stack += list(v)
        elif isinstance(v, NTInst):
            stack += list(v.vals)
        elif isinstance(v, VDict):
            stack += [x for p in v.pairs for x in p]
        elif isinstance(v, BuiltinMethod):
            stack.append(v.obj)
    return out


class A2(A9):
    probe = Probe2

    def after(self, v, m0):
        g = self.graph.name
        for policy in (0, 1):
            try:
                res = self.rounds(v, 3, policy, self.order)
            except (Unsupported, PyExc, Killed, Pruned) as e:
                self.found.append(('nodes', None, g, '', 'not understood: %s' % e))
                continue
            for tid, (a, site) in res.items():
                what = '%s, %s%s' % (g, a.info.name, ', partial results' if policy else '')
                for s, t in a.bad.items():
                    self.found.append(('nodes', False, what, s, t))
                if not a.bad:
                    self.found.append(('nodes', True, what, '', '%d writes' % getattr(
                        a, 'nwrites', 0)))
        for again in ('the same engine', 'another engine'):
            try:
                self.twice(v, again)
            except (Unsupported, Killed, Pruned) as e:
                self.found.append(('evaluations', None, '%s, %s' % (g, again), '',
                                   'not understood: %s' % e))
            except PyExc as e:
                self.found.append(('evaluations', None, '%s, %s' % (g, again), '',
                                   'the second evaluation raises %s' % e.exc.cls))

    def twice(self, v, again):
        """Two evaluations of the same arrays; the second one is run."""
        g = '%s, %s' % (self.graph.name, again)
        m = M(self, v, {}, 0)
        self.call_engine(m)
        first = list(m.threads)
        m.frozen = {}
        wrote = {}

        def mutated(o):
            wrote.setdefault(id(o), (o, m.site()))
            m.keep.append(o)
        m.mutated = mutated
        old = reach(first)
        eng = m.engine
        if again != 'the same engine':
            eng = m.call(m.module_attr(self.mod, ENGINE), [], {}, None)
        name = 'masked_arrays' if self.graph.masked else 'ndarrays'
        m.call_method(eng, name, m.stubs, {}, None)
        second = [t for t in m.threads if t not in first and t.started]
        if not second:
            self.found.append(('evaluations', None, g, '', 'the second evaluation starts no '
                               'threads'))
            return
        shared = {i: o for i, o in reach(second).items() if i in old}
        qs = [o for o in shared.values() if isinstance(o, Queue)]
        if qs:
            self.found.append(('evaluations', False, g, qs[0].site, 'a thread of the second '
                               'evaluation uses queue %d of the first one' % qs[0].qid))
            return
        again_ = [t for t in first if t.started > 1]
        if again_:
            self.found.append(('evaluations', False, g, again_[0].site,
                               'a thread of the first evaluation is started again'))
            return
        started = [t for t in first if t.started]
        if len(started) != len(second):
            raise Unsupported('the second evaluation is wired in another way')
        by = {t.tid: u for t, u in zip(started, second)}
        for x in [by[tid] for tid in self.order]:
            m.frames = [Frame(m.genv[self.mod], 'thread')]
            m.curexc = []
            m.mon = self.probe(m, x, ThreadInfo(self, x.tid, 'thread %d' % x.tid), 2)
            o2 = setup(m, 0)
            try:
                if x.target is not None:
                    m.call(x.target, list(x.args), {}, None)
            except PyExc as e:
                raise Unsupported('thread %d raises %s' % (x.tid, e.exc.cls))
            finally:
                m.mon, m.inside, m.choose = None, None, o2
        bad = [(o, s) for i, (o, s) in wrote.items() if i in shared]
        if bad:
            o, s = bad[0]
            what = 'a %s' % (o.cls.name if isinstance(o, Inst) else 'list or dictionary')
            self.found.append(('evaluations', False, g, s, '%s, which the threads of an earlier '
                               'evaluation use too, is changed' % what))
            return
        self.found.append(('evaluations', True, g, '', '%d shared objects, none changed'
                           % len(shared)))


def one(job):
    import sys
    root, tier, n = job
    sys.setrecursionlimit(20000)
    g = graphs(tier)[n]
    a = A2(Package(root), g)
    try:
        a.run()
    except (Unsupported, RecursionError) as e:
        a.dunno('analysis', '%s' % e)
    except PyExc as e:
        a.dunno('analysis', 'the program raises %s' % e.exc.cls)
    return (g.name, a.found, {k: str(v) for k, v in a.undecided.items()},
            {k: v[-3:] for k, v in a.viol.items()}, a.functions)


def start(root, tier):
    """Begin the analysis; -> something to pass to finish()."""
    jobs = [(root, tier, n) for n in range(len(graphs(tier)))]
    ex = cf.ProcessPoolExecutor(min(6, len(jobs)))
    return ex, [ex.submit(one, j) for j in jobs]


def finish(chk, started):
    ex, fs = started
    fns, n = set(), 0
    for f in fs:
        name, found, und, viol, fn = f.result()
        fns |= fn
        if und or viol:
            why = '; '.join(map(str, sorted(und.items(), key=str)[:2])) or \
                'the threads break the rules of C03: ' + \
                '; '.join('%s: %s' % (k[0], k[3]) for k in sorted(viol, key=str)[:2])
            chk.dunno('nodes', name, why)
        seen = set()
        for rule, v, construct, site, detail in found:
            if (rule, construct, v) in seen:
                continue
            seen.add((rule, construct, v))
            n += 1
            chk.verdict(v, rule, construct, site, detail)
    ex.shutdown()
    return fns, n
