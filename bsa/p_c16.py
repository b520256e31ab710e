"""C16: the task graphs of the dask engine can be executed repeatedly, in any order."""
import sys

from .engine import *          # noqa
from .typestate import _MISSING
from .p_c03 import Ctx
from .c06_engine import status
from .p_c09 import CONV, META

RULES = {
    'tasks': 'a task changes nothing that exists before it runs: no handler, array, list, '
             'dictionary, object or variable from the building of the graph or from other tasks',
    'same': 'each execution of a task does the same with the same inputs',
    'masked': 'the conversions, handlers and results of a masked graph are masked ones, those '
              'of an ordinary graph plain ones',
    'operands': 'a handler is given the chunks of the sources of its array, in their order, '
                'for the same place',
    'requests': 'each requested array has the task which collects its own chunks, all of them, '
                'in request order',
    'building': 'building a graph changes none of the arrays, and neither does building another '
                'one change the first',
}
MOD = 'biggus.experimental.dask_engine'
ROOT = 'biggus._init'


def full(shape, key):
    """The positions along each dimension which a key selects."""
    return [list(range(n))[k] if isinstance(k, slice) else [range(n)[k]]
            for n, k in zip(shape, key)]


class Src(Stub):
    """An array with a known shape, or an indexed one."""

    def __init__(self, label, sources, shape, axis=None, whole=None, where=None):
        Stub.__init__(self, label, sources, label, len(shape))
        self.attrs['shape'] = tuple(shape)
        self.axis = axis
        self.agg = axis is not None
        self.whole = whole or self
        self.where = where if where is not None else [list(range(n)) for n in shape]


class Machine16(Machine):
    def __init__(self, pkg):
        Machine.__init__(self, pkg)
        self.fresh = None            # what has been made by the task which runs
        self.uid = 0
        self.wrote = []              # (what, site)
        self.events = []             # what the task which runs has done
        self.calls = []
        self.notes = []              # (rule, verdict, site, text)
        self.mask = False
        self.old = {}
        self.kept = []

    def choose(self, n, why=''):
        if n <= 1:
            return 0
        raise Unsupported('a decision about %s' % (why or 'something unknown'))

    # ------------------------------------------------------------- strings and ids
    def text(self, v):
        if isinstance(v, (str, int, float, bool, type(None), type(Ellipsis))):
            return str(v)
        if isinstance(v, tuple):
            return '(%s)' % ', '.join(self.text(x) for x in v)
        if isinstance(v, slice):
            return 'slice(%s, %s, %s)' % tuple(self.text(x) for x in (v.start, v.stop, v.step))
        if isinstance(v, VList):
            return '[%s]' % ', '.join(self.text(x) for x in v.items)
        if isinstance(v, Opaque):
            return '<%s>' % v.tag
        raise Unsupported('the text of %r' % (v,))

    def call_method(self, o, name, args, kw, node):
        if isinstance(o, str):
            if name == 'format':
                return '%s|%s' % (o, '|'.join([self.text(a) for a in args] +
                                              ['%s=%s' % (k, self.text(kw[k]))
                                               for k in sorted(kw)]))
            if name == 'join':
                return o.join(self.text(x) for x in self.to_list(args[0]))
            try:
                r = getattr(o, name)(*args, **kw)
            except Exception:
                raise Unsupported('str.%s' % name)
            return VList(r) if isinstance(r, list) else r
        return Machine.call_method(self, o, name, args, kw, node)

    def b_str(self, args, kw, node):
        return self.text(args[0]) if args else ''

    b_repr = b_str

    def b_id(self, args, kw, node):
        v = args[0]
        self.keep.append(v)
        if isinstance(v, Src) and v is v.whole:
            return 'id of %s' % v.label
        return 'id %d' % id(v)

    def binop(self, op, a, b, node):
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return '%s|%s' % (a, self.text(b))
        return Machine.binop(self, op, a, b, node)

    def e_JoinedStr(self, e, env):
        return ''.join(self.text(self.ev(v.value, env)) if isinstance(v, ast.FormattedValue)
                       else v.value for v in e.values)

    def call_ext(self, name, args, kw, node):
        last = name.split('.')[-1]
        if name in ('uuid.uuid4', 'uuid.uuid1') and not args:
            self.uid += 1
            return 'uuid%d' % self.uid
        if name.startswith('uuid.'):
            import uuid
            if not hasattr(uuid, last):
                raise PyExc(ExcVal('AttributeError'))
        if last in ('izip_longest', 'zip_longest') and name.startswith('itertools'):
            its = [self.to_list(a) if not isinstance(a, Iter) else a for a in args]
            fill = kw.get('fillvalue')
            out = []
            while True:
                row, any_ = [], False
                for i, x in enumerate(its):
                    if isinstance(x, Iter):
                        if x.pos < len(x.items):
                            row.append(x.items[x.pos])
                            x.pos += 1
                            any_ = True
                        else:
                            row.append(fill)
                    elif len(out) < len(x):
                        row.append(x[len(out)])
                        any_ = True
                    else:
                        row.append(fill)
                if not any_:
                    return VList(out)
                out.append(tuple(row))
                if len(out) > 200:
                    raise Unsupported('a long iteration')
        if name.startswith('numpy.') and args and not kw:
            flat = args if len(args) > 1 else [args[0]]
            vs = [list(v.items) if isinstance(v, VList) else list(v) if isinstance(v, tuple)
                  else v for v in flat]
            num = all(isinstance(x, int) for v in vs for x in (v if isinstance(v, list) else [v]))
            one = vs[0] if len(vs) == 1 and isinstance(vs[0], list) else None
            if num and last in ('min', 'max', 'amin', 'amax', 'sum') and one:
                return {'min': min, 'max': max, 'sum': sum}[last.lstrip('a')](one)
            if num and last in ('prod', 'product') and one is not None:
                n = 1
                for x in one:
                    n *= x
                return n
            if num and last in ('minimum', 'maximum') and len(vs) == 2 and not any(
                    isinstance(v, list) for v in vs):
                return {'minimum': min, 'maximum': max}[last](vs)
        return Machine.call_ext(self, name, args, kw, node)

    # -------------------------------------------------------------------- arrays
    def getattr(self, o, name, node):
        if isinstance(o, Opaque) and name == '__class__':
            r = Opaque('class of %s' % o.tag, ('class', o.eq))
            r.attrs['__name__'] = type(o).__name__
            return r
        if isinstance(o, Opaque) and o.kind == 'handler' and name == 'operator':
            r = Opaque('operator', ('operator', o.eq))
            r.attrs['__name__'] = 'operator'
            return r
        return Machine.getattr(self, o, name, node)

    def b_hasattr(self, args, kw, node):
        o, name = args
        if isinstance(o, Opaque) and o.kind == 'handler':
            if name in ('axis', 'output_keys', 'output_shape'):
                return o.array.agg
            if name == 'operator':
                return not o.array.agg
            if name == 'nice_name':
                return False
            if name in ('process_chunks', 'finalise', 'input_iteration_order'):
                return True
            raise Unsupported('hasattr(handler, %r)' % name)
        if isinstance(o, Src):
            return name in ('shape', 'dtype', 'ndim', 'ndarray', 'masked_array') or (
                name in ('streams_handler', 'sources') and o.sources is not None)
        if isinstance(o, (str, int, tuple, slice)):
            return hasattr(o, name)
        return Machine.b_hasattr(self, args, kw, node)

    def b_getattr(self, args, kw, node):
        o, name = args[:2]
        if isinstance(o, Opaque) and len(args) == 3 and isinstance(name, str):
            return self.getattr(o, name, node) if self.b_hasattr([o, name], {}, node) else args[2]
        return Machine.b_getattr(self, args, kw, node)

    def b_isinstance(self, args, kw, node):
        o, c = args
        if isinstance(o, (slice, str, int)) and isinstance(c, Ext) and \
                c.name in ('builtins.slice', 'builtins.str', 'builtins.int'):
            return isinstance(o, {'slice': slice, 'str': str, 'int': int}[c.name[9:]])
        return Machine.b_isinstance(self, args, kw, node)

    def op_get(self, o, k, node):
        if isinstance(o, Src) and not self.flat(k):
            ks = list(k) if isinstance(k, tuple) else [k]
            shape = o.attrs['shape']
            if Ellipsis in ks:
                i = ks.index(Ellipsis)
                ks[i:i + 1] = [slice(None)] * (len(shape) - len(ks) + 1)
            ks += [slice(None)] * (len(shape) - len(ks))
            if len(ks) == len(shape) and all(isinstance(x, slice) for x in ks):
                w = [p[x] for p, x in zip(o.where, ks)]
                srcs = None
                if o.sources is not None:
                    srcs = []
                    for s in o.sources:
                        sk = list(ks)
                        if o.axis is not None:
                            sk.insert(o.axis, slice(None))
                        srcs.append(self.op_get(s, tuple(sk), node))
                r = Src(o.label, srcs, [len(x) for x in w], o.axis, o.whole, w)
                r.base, r.key = o, k
                self.born(r)
                return r
        return Machine.op_get(self, o, k, node)

    def op_method(self, o, name, args, kw, node):
        if isinstance(o, Src) and name == 'streams_handler' and o.sources is not None:
            vals = list(args) + [kw[k] for k in sorted(kw)]
            h = Opaque('handler of %s' % o.label, roots=(o.label,))
            h.kind, h.array, h.args = 'handler', o, vals
            h.fed = []
            if o.agg:
                h.attrs['axis'] = o.axis
            self.born(h)
            return h
        if o.kind == 'handler':
            return self.handler(o, name, list(args) + [kw[k] for k in sorted(kw)], node)
        r = Machine.op_method(self, o, name, args, kw, node)
        if isinstance(o, Src) and name in CONV:
            r.piece = (o.whole.label, o.where)
        return r

    def handler(self, h, name, vals, node):
        a = h.array
        if name == 'input_iteration_order':
            order = self.to_list(vals[0])
            if not a.agg:
                return vals[0]
            return VList([i if i < a.axis else i + 1 for i in order] + [a.axis])
        if name in ('output_keys', 'output_shape') and a.agg:
            ks = self.to_list(vals[0])
            del ks[a.axis]
            return tuple(ks)
        if name == 'process_chunks':
            self.changed(h, 'the state of a handler', node)
            self.flag(h, node)
            chunks = self.to_list(vals[0])
            if not chunks or not all(isinstance(c, NTInst) for c in chunks):
                raise Unsupported('the chunks given to a handler')
            self.events.append(('process', a.whole.label, [self.chunk(c) for c in chunks]))
            self.operands(h, chunks, node)
            h.fed.append(chunks)
            if a.agg:
                return None
            return self.result(h, chunks[0].cls, chunks[0].vals[0], node)
        if name == 'finalise':
            self.changed(h, 'the state of a handler', node)
            self.events.append(('finalise', a.whole.label))
            if not a.agg:
                return None
            if not h.fed:
                raise Unsupported('a handler which has been given nothing')
            ks = list(h.fed[-1][0].vals[0])
            del ks[a.axis]
            self.whole_axis(h, node)
            return self.result(h, h.fed[-1][0].cls, tuple(ks), node)
        raise Unsupported('%s of a handler' % name)

    def result(self, h, cls, keys, node):
        d = self.born(Opaque('result for %s' % h.array.label, roots=(h.array.label,)))
        d.kind = 'out'
        a = h.array
        d.piece = (a.whole.label, self.place(a, keys))
        return NTInst(cls, [keys, d])

    def place(self, a, keys):
        """The positions in the whole array which the keys of a chunk select."""
        return full(a.whole.attrs['shape'], keys)

    def chunk(self, c):
        p = getattr(c.vals[1], 'piece', None)
        return (p, self.text(c.vals[0]))

    def operands(self, h, chunks, node):
        a = h.array
        want = [s.whole.label for s in a.sources]
        got = [getattr(c.vals[1], 'piece', (None,))[0] for c in chunks]
        if None in got:
            return self.note('operands', None, node, 'the chunks given to the handler of %s'
                             % a.label)
        ok = got == want
        text = 'the handler of %s is given chunks of %s' % (a.label, got)
        ps = [c.vals[1].piece[1] for c in chunks]
        ks = [c.vals[0] for c in chunks]
        if ok and any(k != ks[0] for k in ks):
            ok, text = False, 'the handler of %s is given chunks with the keys %s' % (
                a.label, [self.text(k) for k in ks])
        for c, p in zip(chunks, ps):
            if ok and isinstance(c.vals[0], tuple) and full(
                    [s for s in a.sources][0].whole.attrs['shape'], c.vals[0]) != p:
                ok, text = False, 'a chunk of %s has the keys of another one' % want[0]
        self.note('operands', ok, node, text)

    def whole_axis(self, h, node):
        """An aggregation must be given everything along its axis, once."""
        a = h.array
        got = sorted(i for cs in h.fed for i in cs[0].vals[1].piece[1][a.axis])
        n = a.sources[0].whole.attrs['shape'][a.axis]
        self.note('operands', got == list(range(n)), node,
                  'the handler of %s is given %s of %d places along its axis' % (
                      a.label, got if len(got) < 8 else len(got), n))

    def flag(self, h, node):
        v = list(h.args)
        if len(v) == 1 and v[0] in (True, False):
            self.note('masked', v[0] is self.mask, node, 'a handler for %s data is used in '
                      'a%s graph' % ('masked' if v[0] else 'plain',
                                     ' masked' if self.mask else 'n ordinary'))
        else:
            self.note('masked', None, node, 'a handler is made with %s' % (v,))

    # ------------------------------------------------------------ freshness of things
    def born(self, o):
        if self.fresh is not None:
            self.fresh[id(o)] = o
        return o

    def derive(self, *a, **k):
        return self.born(Machine.derive(self, *a, **k))

    def origin(self, o):
        """Whether the data of an opaque value existed before the task -> True/False/None."""
        n = 0
        while n < 20:
            n += 1
            b = getattr(o, 'base', None)
            ow = getattr(o, 'owner', None)
            mt = getattr(o, 'method', None)
            if b is not None:
                o = b
            elif ow is not None and isinstance(ow[0], Opaque):
                if ow[1] in META:
                    return False
                o = ow[0]
            elif mt is not None and mt[1] in ('view', 'reshape', 'ravel', 'transpose',
                                              'swapaxes', 'squeeze'):
                o = mt[0]
            else:
                md = getattr(o, 'made', None)
                if md is not None and md[0].split('.')[-1] in (
                        'asarray', 'asanyarray', 'rollaxis', 'reshape', 'transpose', 'ravel',
                        'getdata', 'squeeze', 'atleast_1d', 'masked_array') and md[1] and \
                        isinstance(md[1][0], Opaque):
                    o = md[1][0]
                    continue
                break
        return id(o) not in self.fresh

    def changed(self, o, what, node):
        if self.fresh is None:
            return
        if isinstance(o, Opaque):
            if self.origin(o):
                self.wrote.append((what, self.site(node)))
        elif id(o) in self.old:
            self.wrote.append((what, self.site(node)))

    def mutated(self, o):
        if self.fresh is not None and id(o) in self.old:
            what = 'a variable of an enclosing scope' if isinstance(o, Env) else \
                'a %s object' % o.cls.name if isinstance(o, Inst) else \
                {'VList': 'a list', 'VDict': 'a dictionary', 'VSet': 'a set'}.get(
                    type(o).__name__, 'something')
            self.wrote.append((what, self.site()))

    def setattr_(self, o, name, v, node):
        pass

    def note(self, rule, v, node, text):
        self.notes.append((rule, v, self.site(node), text))


class Mon16(object):
    """What happens to arrays during a task."""
    pending_exc = None

    def __init__(self, m):
        self.m = m

    def passed(self, o, name, vals, node):
        m = self.m
        if name in ('setitem', '__setitem__', 'put', 'itemset', 'fill', 'sort', 'resize',
                    'partition') or name.startswith('set .'):
            m.changed(o, 'an array', node)
            if name in ('setitem', '__setitem__') and len(vals) > 1:
                self.stored(o, vals[0], vals[1], node)
        elif name.split('.')[-1] in ('copyto', 'place', 'putmask', 'fill_diagonal') and vals:
            m.changed(vals[0], 'an array', node)

    def stored(self, o, k, v, node):
        m = self.m
        p = getattr(v, 'piece', None)
        m.events.append(('store', p, m.text(k)))
        self.kind(v, node, 'what is stored')
        log = o.facts.setdefault('pieces', [])
        log.append((p, k))

    def kind(self, v, node, what):
        m = self.m
        s = status(v)
        if s is None:
            m.note('masked', None, node, '%s is not understood' % what)
        elif s[0] == 'kept':
            m.note('masked', True, node, '%s is passed on' % what)
        else:
            m.note('masked', (s[0] == 'ma') is m.mask, node, '%s comes from %s in a%s graph' % (
                what, s[1], ' masked' if m.mask else 'n ordinary'))

    def made(self, r, node):
        pass

    def updated(self, old, v, node):
        if isinstance(old, Opaque):
            self.m.changed(old, 'an array', node)

    def fail(self, why, exc=None):
        raise Unsupported('a failure')

    def next_item(self, it):
        raise Unsupported('an iteration over %r' % it)

    def mark(self, v):
        return None


def reach(vals):
    """The objects which can be reached from some values."""
    out, seen, stack = {}, set(), list(vals)
    while stack:
        v = stack.pop()
        if v is None or isinstance(v, (str, int, float, bool)) or id(v) in seen:
            continue
        seen.add(id(v))
        out[id(v)] = v
        if isinstance(v, Env):
            stack += list(v.vars.values()) + [v.parent]
        elif isinstance(v, Bound):
            stack += [v.self_, v.func]
        elif isinstance(v, Func):
            stack += [v.env] + list(v.defaults or []) + [x for x in v.kwdefaults or [] if x] + \
                list(getattr(v, 'attrs', {}).values())
        elif isinstance(v, (Inst, Thread)):
            stack += list(v.attrs.values())
            if isinstance(v, Inst):
                stack.append(v.cls)
        elif isinstance(v, Class):
            stack += list(v.ns.values())
        elif isinstance(v, (VList, VSet, Iter)):
            stack += list(v.items)
        elif isinstance(v, tuple):
            stack += list(v)
        elif isinstance(v, NTInst):
            stack += list(v.vals)
        elif isinstance(v, VDict):
            stack += [x for p in v.pairs for x in p]
        elif isinstance(v, BuiltinMethod):
            stack.append(v.obj)
        elif isinstance(v, Static):
            stack.append(v.f)
    return out


GRAPHS = [
    ('one array', {'L1': None}, ['L1']),
    ('two arrays', {'L1': None, 'L2': None}, ['L2', 'L1']),
    ('a pair', {'L1': None, 'L2': None, 'E': ['L1', 'L2']}, ['E']),
    ('an array paired with itself', {'L1': None, 'D': ['L1', 'L1']}, ['D']),
    ('one operand', {'L1': None, 'U': ['L1']}, ['U']),
    ('a nested pair and its part', {'L1': None, 'L2': None, 'E': ['L1', 'L2'],
                                    'F': ['L2', 'E']}, ['F', 'E']),
    ('an aggregation', {'L1': None, 'A': ('agg', ['L1'])}, ['A']),
    ('an aggregation of a pair and its source', {
        'L1': None, 'L2': None, 'E': ['L1', 'L2'], 'A': ('agg', ['E'])}, ['L1', 'A']),
    ('an operand on an aggregation', {'L1': None, 'A': ('agg', ['L1']), 'U': ['A']}, ['U']),
    ('a pair of aggregations', {'L1': None, 'L2': None, 'A': ('agg', ['L1']),
                                'B': ('agg', ['L2']), 'H': ['A', 'B']}, ['H', 'B']),
    ('the same array twice', {'L1': None, 'L2': None}, ['L1', 'L2', 'L1']),
]
SHAPES = [((2, 3), 100, 'one chunk'), ((3, 4), 4, 'chunks of rows')]
MORE = [((6,), 2, 'chunks of one dimension'), ((2, 2, 3), 6, 'chunks of three dimensions'),
        ((2, 3), 1, 'chunks of one element')]
DEEP = [((4, 3), 5, 'uneven chunks'), ((2, 3, 2), 4, 'chunks across dimensions'),
        ((5,), 1, 'many chunks'), ((2, 2, 2, 2), 4, 'chunks of four dimensions')]


def build(spec, requests, shape, axis):
    out = {}

    def get(label):
        if label not in out:
            s = spec[label]
            if s is None:
                out[label] = Src(label, None, shape)
            elif isinstance(s, tuple):
                srcs = [get(x) for x in s[1]]
                sh = list(srcs[0].attrs['shape'])
                del sh[axis]
                out[label] = Src(label, srcs, sh, axis)
            else:
                srcs = [get(x) for x in s]
                out[label] = Src(label, srcs, srcs[0].attrs['shape'])
        return out[label]
    return [get(r) for r in requests]


class Run(object):
    def __init__(self, root, name, spec, requests, shape, limit, axis, masked, how):
        self.m = m = Machine16(Package(root))
        self.name, self.requests, self.masked, self.how = name, requests, masked, how
        m.mask = masked
        m.module(MOD)
        m.module(ROOT)
        m.genv[ROOT].vars['MAX_CHUNK_SIZE'] = limit
        m.frames.append(Frame(m.genv[MOD], '<caller>'))
        m.frames[-1].node = None
        m.inside = lambda f, args, kw: _MISSING
        self.arrays = build(spec, requests, shape, axis)
        self.found = []
        self.eng = None

    def add(self, rule, v, site, text):
        self.found.append((rule, v, self.name, site, text))

    def graph(self, eng=None):
        """-> (graph, ids)"""
        m = self.m
        c = m.module_attr(MOD, 'DaskEngine')
        if not isinstance(c, Class):
            self.add('requests', False, 'biggus/experimental/dask_engine.py',
                     'the class DaskEngine does not exist')
            return None
        got = []
        run = self

        g = self.getter = getattr(self, 'getter', None) or Opaque('the getter')

        def call_opaque(f, args, kw, node, orig=Machine.call_opaque):
            if f is g:
                got.append((list(args), dict(kw)))
                return Opaque('the results')
            return orig(m, f, args, kw, node)
        m.call_opaque = call_opaque
        eng = eng or m.call(c, [g], {}, None)
        if eng is not self.eng and self.eng is not None:
            raise Unsupported('engines')
        self.eng = eng
        if self.how == 'graph':
            return m.call_method(eng, 'graph', list(self.arrays), {}, None), None
        r = m.call_method(eng, 'masked_arrays' if self.masked else 'ndarrays',
                          list(self.arrays), {}, None)
        if len(got) != 1 or len(got[0][0]) < 2:
            raise Unsupported('how the getter is called')
        run.returned = r
        return got[0][0][0], got[0][0][1]

    def task(self, t, results, node=None):
        m = self.m

        def arg(x):
            if isinstance(x, str) and x in results:
                return results[x]
            if isinstance(x, VList):
                return VList([arg(y) for y in x.items])
            return x
        args = [arg(x) for x in t[1:]]
        m.fresh, m.events, m.wrote = {}, [], []
        old = reach([t[0]] + args + list(m.genv.values()) + [self.graph_])
        m.old = old
        m.kept.append(old)
        m.mon = Mon16(m)
        m.frames = [Frame(m.genv[MOD], 'task')]
        m.frames[-1].node = None
        m.curexc = []
        try:
            r = m.call(t[0], args, {}, None)
        finally:
            m.mon = None
            m.kept.append(m.fresh)
            m.fresh = None
        return r, m.events, m.wrote

    def needs(self, t, graph):
        out = []
        stack = list(t[1:])
        while stack:
            x = stack.pop()
            if isinstance(x, str) and x in graph:
                out.append(x)
            elif isinstance(x, VList):
                stack += x.items
        return out

    def tasks(self, d):
        if not isinstance(d, VDict):
            raise Unsupported('the graph is %r' % (d,))
        graph = {}
        for k, v in d.pairs:
            if not isinstance(k, str):
                raise Unsupported('a key of the graph is %r' % (k,))
            graph[k] = v
        return graph

    def run(self):
        m = self.m
        g = self.graph()
        if g is None:
            return
        d, ids = g
        graph = self.tasks(d)
        self.graph_ = d
        if self.how == 'twice':
            # Another graph is built before this one is executed.
            before = {id(v): (v, str(self.shot(v))) for v in reach(
                [d]).values() if isinstance(v, (VList, VDict, VSet, Inst, Env))}
            other = self.graph(self.eng)
            bad = [v for v, s in before.values() if str(self.shot(v)) != s and not (
                isinstance(v, Env) and v.parent is None)]
            self.add('building', not bad, '', 'building another graph changes %s' % (
                ', '.join(sorted({type(v).__name__ for v in bad})) or 'nothing'))
        if self.execute(graph, ids) and self.how == 'twice':
            self.graph_ = other[0]
            self.execute(self.tasks(other[0]), other[1], ' in another graph')
        for rule, v, site, text in m.notes:
            self.add(rule, v, site, text)

    def execute(self, graph, ids, which=''):
        m = self.m
        order, left = [], list(graph)
        while left:
            n = [k for k in left if not isinstance(graph[k], tuple) or all(
                x in order for x in self.needs(graph[k], graph))]
            if not n:
                raise Unsupported('the graph has a cycle')
            # The other way round for the second execution.
            order.append(n[0])
            left.remove(n[0])
        first = {}
        for turn in (0, 1):
            results = {}
            if turn:
                order = self.reverse(graph, order)
            for k in order:
                t = graph[k]
                if not isinstance(t, tuple) or not t:
                    raise Unsupported('a task is %r' % (t,))
                f = getattr(t[0], 'name', None) or getattr(getattr(t[0], 'func', None), 'name',
                                                           'a task')
                try:
                    r, ev, wrote = self.task(t, results)
                except PyExc as e:
                    if e.exc.cls == '?Exception':
                        raise Unsupported('a task raises something')
                    if any(x not in graph and 'uuid' in x for x in t[1:] if isinstance(x, str)):
                        self.add('requests', False, '', '%s needs a task which is not in the '
                                 'graph%s' % (f, which))
                        return False
                    self.add('same', False, m.site(), '%s raises %s%s%s' % (
                        f, e.exc.cls, ' when it is executed again' if turn else '', which))
                    return False
                results[k] = r
                what = '%s' % f
                for w, site in wrote:
                    self.add('tasks', False, site, '%s changes %s which exists before it runs%s'
                             % (what, w, which))
                if not wrote:
                    self.add('tasks', True, '', what)
                self.chunked(r)
                if turn:
                    self.add('same', str(ev) == first[k], '', '%s does %s, then %s' % (
                        what, first[k][:100], str(ev)[:100]))
                else:
                    first[k] = str(ev)
            self.judge(graph, ids, results, which)
        return True

    def shot(self, v):
        if isinstance(v, Env):
            return sorted((k, id(x)) for k, x in v.vars.items())
        if isinstance(v, Inst):
            return sorted((k, id(x)) for k, x in v.attrs.items())
        if isinstance(v, VDict):
            return [(id(a), id(b)) for a, b in v.pairs]
        return [id(x) for x in v.items]

    def reverse(self, graph, order):
        out, left = [], list(order)[::-1]
        while left:
            k = [k for k in left if all(x in out for x in self.needs(graph[k], graph))][0]
            out.append(k)
            left.remove(k)
        return out

    def chunked(self, r):
        if isinstance(r, NTInst) and len(r.vals) == 2 and isinstance(r.vals[1], Opaque):
            Mon16(self.m).kind(r.vals[1], None, 'the data of a chunk')

    def judge(self, graph, ids, results, which=''):
        if ids is None:
            # Everything that is collected, in any order.
            for a in self.arrays:
                ok = any(self.filled(r, a) is True for r in results.values())
                self.add('requests', ok or None, '', 'the graph collects %s%s' % (
                    a.label, which))
            return
        ids = self.m.to_list(ids)
        if len(ids) != len(self.arrays):
            self.add('requests', False, '', '%d results are asked for, for %d arrays%s'
                     % (len(ids), len(self.arrays), which))
            return
        for n, (i, a) in enumerate(zip(ids, self.arrays)):
            if i not in results:
                self.add('requests', False, '', 'result %d is not in the graph%s' % (n, which))
                continue
            v = self.filled(results[i], a)
            self.add('requests', v if v in (True, None) else False, '',
                     'result %d, %s: %s%s' % (n, a.label, v, which))
            md = getattr(results[i], 'made', None)
            if md is None or md[0].split('.')[-1] not in ('empty', 'zeros', 'ones', 'full',
                                                          'masked_all'):
                self.add('masked', None, '', 'result %d' % n)
            else:
                ma = '.ma.' in md[0]
                self.add('masked', ma is self.masked, md[0], 'result %d is %s array in a%s '
                         'graph' % (n, 'a masked' if ma else 'a plain',
                                    ' masked' if self.masked else 'n ordinary'))

    def filled(self, r, a):
        """Whether r holds all of the array a -> True, None or what is wrong."""
        if not isinstance(r, Opaque):
            return None
        ps = r.facts.get('pieces')
        if not ps:
            return None
        cells = {}
        for p, k in ps:
            if p is None:
                return None
            if p[0] != a.label:
                return 'it is filled from %s' % p[0]
            if k is Ellipsis:
                k = (slice(None),) * a.ndim
            if not isinstance(k, tuple):
                return None
            w = full(a.attrs['shape'], k)
            if w != p[1]:
                return 'a piece is stored in another place'
            import itertools
            for c in itertools.product(*w):
                cells[c] = cells.get(c, 0) + 1
        n = 1
        for x in a.attrs['shape']:
            n *= x
        if len(cells) != n:
            return '%d of %d elements are filled' % (len(cells), n)
        return True


def one(job):
    root, name, spec, req, shape, limit, axis, masked, how = job
    sys.setrecursionlimit(20000)
    r = None
    try:
        r = Run(root, name, spec, req, shape, limit, axis, masked, how)
        r.run()
        return name, r.found, None, r.m.functions
    except (Unsupported, Killed, Pruned, RecursionError) as e:
        why = 'not understood: %s' % e
    except PyExc as e:
        why = 'it raises %s at %s' % (e.exc.cls, r.m.site() if r else '?')
        if r and e.exc.cls in ('KeyError', 'AssertionError', 'RuntimeError', 'IndexError',
                               'ValueError'):
            r.found.append(('requests', False, name, r.m.site(), 'building the graph raises %s'
                            % e.exc.cls))
            why = None
    return name, r.found if r else [], why, r.m.functions if r else set()


def jobs(root, tier):
    out = []
    for shape, limit, sname in SHAPES + MORE + (DEEP if tier != 'quick' else []):
        for name, spec, req in GRAPHS:
            agg = any(isinstance(s, tuple) for s in spec.values())
            for axis in range(len(shape)) if agg else (0,):
                for masked in (False, True):
                    for how in ('', 'graph', 'twice'):
                        if how == 'graph' and masked:
                            continue
                        label = '%s, %s%s%s%s' % (
                            name, sname, ', axis %d' % axis if agg else '',
                            ' (masked)' if masked else '',
                            {'': '', 'graph': ', from graph()',
                             'twice': ', another one is built'}[how])
                        out.append((root, label, spec, req, shape, limit, axis, masked, how))
    return out


def check(chk, root, tier):
    import concurrent.futures as cf
    js = jobs(root, tier)
    with cf.ProcessPoolExecutor(8) as ex:
        res = list(ex.map(one, js, chunksize=4))
    chk.assumptions = [
        'a scheduler replaces the keys among the arguments of a task by their results and calls '
        'its first item with them',
        'the axis handlers pass on the keys of their inputs without the axis, elementwise '
        'handlers the keys of the first input (C13)',
        'converting an array twice gives equal results (C02)']
    fns, n = set(), 0
    for name, found, why, fs in res:
        fns |= fs
        n += 1
        if why:
            chk.dunno('tasks', name, why)
        seen = set()
        for rule, v, construct, site, text in found:
            if (rule, v, text) in seen:
                continue
            seen.add((rule, v, text))
            chk.verdict(v, rule, construct, site, text)
    return [Ctx(root, Package(root), fns, n)]
