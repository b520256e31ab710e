"""C04: arrays evaluated together get the values they have alone."""
import concurrent.futures as cf
import itertools
import sys

from .engine import *          # noqa
from .typestate import _MISSING
from .p_c03 import Ctx

RULES = {
    'operands': 'the chunks given to the handler of an array are those of its own sources, in '
                'their order, each from the same position of its stream',
    'same-chunks': 'the streams which are combined in lock-step have the same keys in the same '
                   'order: they are traversals of equal shapes in equal orders, or the wiring '
                   'has compared something which determines the sequence of keys',
    'order': 'the stream given to an aggregation is traversed in the order its handler asks '
             'for, whatever else the stream is shared with',
    'own-state': 'no two threads share a handler',
    'handlers': 'a handler either has an axis or asks for its input in the order of its output',
    'result': 'each result is filled from the array that was asked for, in request order',
    'sequence': 'what the wiring compares determines the sequence of the keys',
}


class A4(Analysis):
    def __init__(self, pkg, graph):
        Analysis.__init__(self, pkg, graph)
        self.found = []              # (rule, verdict, construct, site, detail)
        self.used = {}               # functions whose equality is relied on

    def after(self, v, m0):
        g = self.graph.name
        try:
            m, mons = self.probe(v)
        except (Unsupported, PyExc, Killed, Pruned) as e:
            self.found.append(('same-chunks', None, g, '', 'not understood: %s' % e))
            return
        self.m = m
        self.mons = mons
        self.qw = {}
        for tid, i in self.infos.items():
            for q in i.W:
                self.qw[q] = tid
        handlers = {}
        for t in m.threads:
            if t.started:
                for h in self.reach(t):
                    if h in handlers and handlers[h] != t.tid:
                        self.found.append(('own-state', False, g, t.site,
                                           'two threads use the same %s' % h.tag))
                    handlers[h] = t.tid
        self.found.append(('own-state', True, g, '', '%d handlers' % len(handlers)))
        for tid, mon in mons.items():
            done = set()
            for h, name, qs, labels, rounds, site in mon.comb:
                k = (h.array.label, tuple(qs))
                if k in done:
                    continue
                done.add(k)
                self.combined(h, name, qs, labels, rounds, site)
        was = dict(self.viol)
        und = dict(self.undecided)
        self.whole(v, False)
        for (rule, construct, site, text), log in self.viol.items():
            if rule == 'results':
                self.found.append(('result', False, construct, site, text))
        if self.undecided != und:
            self.found.append(('result', None, g, '', '; '.join(
                sorted(str(x) for k, x in self.undecided.items() if k not in und))))
        elif self.viol == was:
            self.found.append(('result', True, g, '', 'filled from what was asked for'))
        self.viol = was
        self.undecided = und

    def reach(self, t):
        out, stack, seen = [], [t.target] + list(t.args), set()
        while stack:
            v = stack.pop()
            if id(v) in seen or v is None:
                continue
            seen.add(id(v))
            if isinstance(v, Opaque):
                if v.kind == 'handler':
                    out.append(v)
            elif isinstance(v, Bound):
                stack.append(v.self_)
            elif isinstance(v, Inst):
                stack.extend(v.attrs.values())
            elif isinstance(v, (VList, VSet)):
                stack.extend(v.items)
            elif isinstance(v, tuple):
                stack.extend(v)
            elif isinstance(v, VDict):
                stack.extend(x for p in v.pairs for x in p)
        return out

    def agg(self, label):
        return isinstance(self.graph.spec[label], tuple)

    def combined(self, h, name, qs, labels, rounds, site):
        g = self.graph.name
        want = [s.label for s in h.array.sources]
        what = '%s of %s' % (h.array.label, g)
        self.found.append(('operands', labels == want and len(set(rounds)) == 1, what, site,
                           'given the chunks of %s for the sources %s' % (labels, want)))
        descs = []
        for q in qs:
            descs.append(self.desc(q))
        if len(descs) > 1:
            for d in descs[1:]:
                r = self.same(descs[0], d)
                self.found.append(('same-chunks', r, what, site,
                                   'the streams %s and %s are combined' %
                                   (self.show(descs[0]), self.show(d))))
        if self.agg(h.array.label):
            r = self.ordered(descs[0], h)
            self.found.append(('order', r, what, site,
                               'the stream %s' % self.show(descs[0])))

    # what the sequence of chunks on a queue is
    def desc(self, q):
        tid = self.qw.get(q)
        mon = self.mons.get(tid)
        if mon is None:
            return None
        if mon.comb:
            h, name, qs, labels, rounds, site = mon.comb[0]
            return ('H', h, [self.desc(x) for x in qs])
        if len(mon.iters) == 1 and getattr(mon.iters[0], 'call', None):
            name, args, f = mon.iters[0].call
            if len(args) == 2:
                return ('P', name, args[0], args[1], f)
        return None

    def show(self, d):
        if d is None:
            return '?'
        if d[0] == 'P':
            return '%s(%s, %s)' % (d[1], d[2].tag if isinstance(d[2], Opaque) else d[2],
                                   self.order(d[3]))
        return '%s[%s]' % (d[1].array.label, ', '.join(self.show(x) for x in d[2]))

    def order(self, v):
        k = self.m.key_of(v)
        return self.okey(k)

    def okey(self, k):
        if isinstance(k, tuple) and k and k[0] == 'o':
            return self.okey(k[1])
        if isinstance(k, tuple) and k[:2] == ('f', '.input_iteration_order'):
            return 'the order of %s for %s' % (self.hlabel(k[2][0]), self.okey(k[2][1]))
        if isinstance(k, tuple) and k and k[0] in ('VList', 'tuple'):
            return str(list(k[1:]))
        if isinstance(k, tuple) and k[:2] == ('f', 'tuple') or k[:2] == ('f', 'list'):
            return self.okey(k[2][0])
        return str(k)[:60]

    def hlabel(self, k):
        while k[0] == 'o':
            k = k[1]
        return k[1]

    def norm(self, k):
        """The key of an order, without conversions between lists and tuples."""
        if isinstance(k, tuple) and k:
            if k[0] == 'o':
                return self.norm(k[1])
            if k[0] in ('VList', 'tuple') :
                return ('seq',) + tuple(self.norm(x) for x in k[1:])
            if k[0] == 'f' and k[1] in ('tuple', 'list'):
                return self.norm(k[2][0])
            if k[:2] == ('f', '.input_iteration_order') and not self.agg(self.hlabel(k[2][0])):
                return self.norm(k[2][1])
            return tuple(self.norm(x) for x in k)
        return k

    def strip(self, d):
        """Elementwise evaluation passes the keys of its input on."""
        while d is not None and d[0] == 'H' and not self.agg(d[1].array.label):
            d = d[2][0]
        return d

    def same(self, a, b):
        a, b = self.strip(a), self.strip(b)
        if a is None or b is None:
            return None
        m = self.m
        if a[0] != b[0]:
            return None if self.related() else False
        if a[0] == 'P':
            ka = (self.norm(m.key_of(a[2])), self.norm(m.key_of(a[3])))
            kb = (self.norm(m.key_of(b[2])), self.norm(m.key_of(b[3])))
            if a[1] == b[1] and ka == kb:
                return True
            f = self.established(ka, kb)
            if f is not None:
                self.used[(f, a[1])] = True
                return True
            return False
        ax = ('a', a[1].eq, 'axis')
        bx = ('a', b[1].eq, 'axis')
        r = self.same(a[2][0], b[2][0])
        if a[1].array.label == b[1].array.label:
            return r
        if m.find(ax) == m.find(bx):
            return r
        return False

    def related(self):
        """Whether the wiring found some description to be equal to another form of one."""
        def const(k):
            return isinstance(k, tuple) and k[:1] == ('const',) and isinstance(k[1], tuple)
        m = self.m
        return any(const(k) != const(m.find(k)) for k in m.eqs)

    def established(self, ka, kb):
        """A function of (shape, order) whose values the wiring found to be equal."""
        m = self.m
        groups = {}
        for k in list(m.eqs):
            if isinstance(k, tuple) and k[0] == 'f' and len(k) == 3 and len(k[2]) == 2:
                groups.setdefault(m.find(k), set()).add(k)
                r = m.find(k)
                if isinstance(r, tuple) and r[0] == 'f':
                    groups[r].add(r)
        for ks in groups.values():
            for x in ks:
                for y in ks:
                    if x[1] == y[1] and self.norm(x[2]) == ka and self.norm(y[2]) == kb:
                        return x[1]
        return None

    def chain(self, k):
        """The arrays whose handlers have been asked for an order, outermost last."""
        k = self.norm(k)
        out = []
        while isinstance(k, tuple) and k[:2] == ('f', '.input_iteration_order'):
            out.append(self.hlabel(k[2][0]))
            k = self.norm(k[2][1])
        return out

    def ordered(self, d, h):
        """Whether the stream d follows h.input_iteration_order(something)."""
        below = []
        while d is not None and d[0] == 'H':
            below.append(d[1].array.label)
            d = d[2][0]
        if d is None:
            return None
        m = self.m
        orders = [(self.norm(m.key_of(d[3])), None)]
        shape = self.norm(m.key_of(d[2]))
        for k in list(m.eqs) + [m.find(k) for k in m.eqs]:
            if isinstance(k, tuple) and k[0] == 'f' and len(k) == 3 and len(k[2]) == 2 and \
                    self.norm(k[2][0]) == shape and \
                    self.established((shape, orders[0][0]), (shape, self.norm(k[2][1]))):
                orders.append((self.norm(k[2][1]), k[1]))
        for o, f in orders:
            c = self.chain(o)
            # The handlers between the leaf and this one come first.
            mine = c
            rest = list(below[::-1])
            while mine and rest and mine[0] == rest[0] and mine[0] != h.array.label:
                mine, rest = mine[1:], rest[1:]
            if mine and mine[0] == h.array.label and not [x for x in rest if self.agg(x)]:
                if f is not None:
                    self.used[(f, d[1])] = True
                return True
        return False


def one(job):
    root, tier, n = job
    sys.setrecursionlimit(20000)
    g = graphs(tier)[n]
    a = A4(Package(root), g)
    try:
        a.run()
    except (Unsupported, RecursionError) as e:
        a.dunno('analysis', '%s' % e)
    except PyExc as e:
        a.dunno('analysis', 'the program raises %s' % e.exc.cls)
    return (g.name, a.variants, a.npaths, a.found, sorted(a.used), a.undecided, a.viol,
            a.functions)


# ------------------------------------------------------------ what determines a sequence
def sequences(pkg, f, gen, ranks, cuts):
    """Whether f(shape, order) determines the keys from gen(shape, order).

    Each dimension is divided into 1, 2, ... unknown slices; nothing but their number is
    known.  -> (verdict, number of pairs, detail)"""
    n = 0
    for rank in ranks:
        for cs in itertools.product(cuts, repeat=rank):
            seen = {}
            for which in ('', "'"):
                for order in itertools.permutations(range(rank)):
                    vals = []
                    for name in (f, gen):
                        m, r = of_cuts(pkg, name, cs, order, which)
                        vals.append(m.key_of(tuple(m.to_list(r)) if isinstance(r, Gen) else r))
                    n += 1
                    if vals[0] in seen and seen[vals[0]][0] != vals[1]:
                        if seen[vals[0]][2] != which:
                            return False, n, 'two shapes with %s slices per dimension are taken ' \
                                'to be the same, but the slices can differ' % list(cs)
                        return False, n, 'with %s slices per dimension the orders %s and %s ' \
                            'are taken to be the same, but the keys come in different orders' % (
                                list(cs), list(seen[vals[0]][1]), list(order))
                    seen.setdefault(vals[0], (vals[1], order, which))
    return True, n, '%d traversals' % n


def handlers(pkg):
    """What the graphs assume of the handlers.

    -> [(construct, verdict, site, detail)]"""
    out = []
    m = Machine(pkg)
    env = m.module('biggus._init')
    m.frames.append(Frame(env, 'handlers'))
    classes = []
    for name, st in sorted(env.lazy.items()):
        if isinstance(st, ast.ClassDef):
            try:
                c = m.module_attr('biggus._init', name)
            except (Unsupported, PyExc):
                continue
            if isinstance(c, Class) and c.find('input_iteration_order') is not None and \
                    c.find('process_chunks') is not None:
                classes.append(c)
    for c in classes:
        site = 'biggus/_init.py:%d (%s)' % (c.node.lineno, c.name)
        if any(c in d.mro()[1:] for d in classes):
            continue
        if isinstance(c.find('run'), Func):
            continue                     # a node
        m = Machine(pkg)
        m.module('biggus._init')
        m.frames.append(Frame(m.genv['biggus._init'], c.name))
        try:
            init = c.find('__init__')
            n = len(init.node.args.args) - 1 if init is not None else 0
            args = [Opaque('argument %d' % i, ('arg', i)) for i in range(n)]
            o = m.call(m.module_attr('biggus._init', c.name), args, {}, None)
            if 'axis' in o.attrs:
                out.append((c.name, True, site, 'it has an axis'))
                continue
            order = Opaque('order', ('order',))
            r = m.call_method(o, 'input_iteration_order', [order], {}, None)
            same = r is order or (isinstance(r, Opaque) and r.eq[:2] in (
                ('f', 'list'), ('f', 'tuple')) and r.eq[2] == (m.key_of(order),))
            out.append((c.name, True if same else None if isinstance(r, Opaque) and
                        r.eq[0] == 'f' else False, site,
                        'the input of a handler without an axis is asked for in another order '
                        'than its output' if not same else 'it keeps the order'))
        except (Unsupported, PyExc, Killed, RecursionError) as e:
            out.append((c.name, None, site, 'not understood: %s' % e))
    return out


def check(chk, root, tier):
    pkg = Package(root)
    jobs = [(root, tier, n) for n in range(len(graphs(tier)))]
    with cf.ProcessPoolExecutor(min(8, len(jobs))) as ex:
        res = list(ex.map(one, jobs))
    chk.assumptions = [
        'what is sent on a queue is received in the order in which it was sent',
        'the sources of an elementwise operation have equal shapes (C12, C14)',
        'elementwise handlers pass the keys of their inputs on; the keys of an aggregation are '
        'those of its input without the axis (C13)',
        'no failures (C03 covers those)']
    fns, paths, used = set(), 0, set()
    for name, variants, npaths, found, us, und, viol, fs in res:
        fns |= fs
        paths += npaths
        used |= set(us)
        if und or viol:
            why = '; '.join(map(str, sorted(und.items(), key=str)[:2])) or \
                'the threads break the rules of C03: ' + \
                '; '.join('%s: %s' % (k[0], k[3]) for k in sorted(viol, key=str)[:2])
            chk.dunno('same-chunks', name, why)
        seen = set()
        for rule, v, construct, site, detail in found:
            if (rule, construct, v) in seen and v is True:
                continue
            seen.add((rule, construct, v))
            chk.verdict(v, rule, construct, site, detail)
    ranks, cuts = ((1, 2, 3), (1, 2)) if tier == 'quick' else ((1, 2, 3, 4), (1, 2, 3))
    for construct, v, site, detail in handlers(pkg):
        chk.verdict(v, 'handlers', construct, site, detail)
    for f, gen in sorted(used):
        try:
            v, n, detail = sequences(pkg, f, gen, ranks, cuts)
        except (Unsupported, PyExc, RecursionError, KeyError) as e:
            v, detail = None, 'not understood: %s' % e
        chk.verdict(v, 'sequence', '%s for %s' % (f, gen), f, detail)
    return [Ctx(root, pkg, fns, paths)]
