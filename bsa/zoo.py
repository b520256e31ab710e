"""Specimens: one value of every kind of virtual array over symbolic sources."""
from .ctx import *        # noqa


class Spec(object):
    """label, the result of the construction, the sources it was made from, its rank."""
    def __init__(self, label, r, sources, rank, dims=None, before=None, inputs=()):
        self.label, self.r, self.sources, self.rank = label, r, sources, rank
        self.dims = dims
        self.before = before if before is not None else set()
        self.inputs = inputs            # the lists and dictionaries it was made from

    @property
    def ok(self):
        return not self.r.dead and self.r.val.op == 'ref' and not self.r.unsupported

    @property
    def why(self):
        return 'raises' if self.r.dead else str(self.r.unsupported[:1] or self.r.val)[:90]


AGGS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')


def elementwise_names(C):
    """Public functions of the package whose result is an elementwise expression."""
    out = []
    A, B = C.array('A', 1), None
    B = C.array('B', 1, shape=list(C.I.info(A)['attrs']['shape'].a))
    for n, v in sorted(C.mod('biggus').items()):
        if v is None or v.op not in ('func', 'ref', 'closure', 'cls', 'bound') or n[0] == '_' or \
                n in AGGS or v.op == 'cls':
            continue
        for args in ([A], [A, B]):
            r = C.call(v, args)
            if not r.dead and not r.raises and r.val.op == 'ref':
                rec = r.st.heap.get(r.val.a[0])
                if getattr(rec, 'cls', None) is not None and 'lementwise' in rec.cls.name:
                    out.append((n, v, len(args)))
                    break
    return out


def specimens(C, full=False):
    for s in specimens_(C, full):
        s.before |= set(C.st0.heap)
        yield s


def with_lists(C, label, sources, rank, dims, make):
    """A specimen made from lists which exist beforehand."""
    st = C.state()
    refs = []

    def lst(items):
        refs.append(C.I.new_list(st, items))
        return refs[-1]

    def dct(items):
        refs.append(C.I.alloc(st, Dct(items)))
        return refs[-1]
    f, args = make(lst, dct)
    before = set(st.heap)
    return Spec(label, C.call(f, args, st=st), sources, rank, dims, before,
                [x.a[0] for x in refs])


def specimens_(C, full=False):
    I = C.I
    n0, n1, n2 = C.int('n0', 0), C.int('n1', 0), C.int('n2', 0)
    d, f = C.dtype('d'), I.sym('f', 'npscalar')
    A = C.array('A', 2, shape=[n0, n1], dtype=d, fill=f, plain=True)
    A1 = C.array('A1', 1, shape=[n0], dtype=d, fill=f, plain=True)
    A3 = C.array('A3', 3, shape=[n0, n1, n2], plain=True)
    B = C.array('B', 2, shape=[n0, n1], plain=True)

    for cn in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
        if C.get(cn) is None:
            continue
        for kind in ('concrete', 'nd', 'ma'):
            X = C.concrete('X', 2) if kind == 'concrete' else C.nd('X', 2, kind)
            yield Spec('%s of %s' % (cn, {'concrete': 'a file variable', 'nd': 'an ndarray',
                                          'ma': 'a masked array'}[kind]),
                       C.call(cn, [X]), [X], 2)
    if C.get('ArrayContainer') is not None:
        yield Spec('ArrayContainer', C.call('ArrayContainer', [A]), [A], 2)
    if C.get('AsDataTypeArray') is not None:
        yield Spec('AsDataTypeArray', C.call('AsDataTypeArray', [A, C.dtype('t')]), [A], 2)
    if C.get('masked_equal') is not None:
        yield Spec('masked_equal', C.call('masked_equal', [A, I.sym('v', 'npscalar')]), [A], 2)
    if C.get('ConstantArray') is not None:
        yield Spec('ConstantArray', C.call('ConstantArray', [
            T('tuple', n0, n1), I.sym('v', 'npscalar'), C.dtype('dt')]), [], 2)
    for n in ('zeros', 'ones'):
        if C.get(n) is not None:
            yield Spec(n, C.call(n, [T('tuple', n0, n1)]), [], 2)
    if C.get('TransposedArray') is not None:
        yield Spec('TransposedArray', C.call('TransposedArray', [A]), [A], 2)
        for p in ((1, 2, 0),) + (((2, 0, 1), (0, 2, 1)) if full else ()):
            yield Spec('TransposedArray %s' % (p,), C.call('TransposedArray', [
                A3, T('tuple', *map(const, p))]), [A3], 3)
    if C.get('NewAxesArray') is not None:
        for what, new in (('first', (1, 0, 0)), ('last', (0, 0, 1)), ('middle', (0, 2, 0))):
            yield Spec('NewAxesArray (%s)' % what, C.call('NewAxesArray', [
                A, T('tuple', *map(const, new))]), [A], 2 + sum(new))
    L, L2 = C.int('L', 2), C.int('L2', 1)
    if C.get('BroadcastArray') is not None:
        for sh, ax in (([ONE, n1], 0), ([n0, ONE], 1)):
            Z = C.array('Z', 2, shape=sh, plain=True)
            for lead in ((), (L2,)):
                yield with_lists(C, 'BroadcastArray (axis %d, leading %d)' % (ax, len(lead)),
                                 [Z], 2 + len(lead), None, lambda lst, dct: (
                                     'BroadcastArray', [Z, dct([(const(ax), L)]),
                                                        T('tuple', *lead)]))
    P = [C.array('P%d' % i, 1, shape=[n1], dtype=d, fill=f, plain=True) for i in range(6)]
    if C.get('ArrayStack') is not None:
        yield with_lists(C, 'ArrayStack (1-D)', P[:3], 2, [const(3), n1], lambda lst, dct: (
            'ArrayStack', [lst(P[:3])]))
        yield with_lists(C, 'ArrayStack (2-D)', P, 3, [const(2), const(3), n1],
                         lambda lst, dct: ('ArrayStack', [lst([lst(P[:3]), lst(P[3:])])]))
    if C.get('LinearMosaic') is not None:
        for ax in (0, 1):
            Ps = [C.array('P%d' % i, 2, shape=[n1, const(m)] if ax else [const(m), n1], dtype=d,
                          fill=f, plain=True) for i, m in enumerate((2, 3))]
            yield with_lists(C, 'LinearMosaic (axis %d)' % ax, Ps, 2,
                             [n1, const(5)] if ax else [const(5), n1],
                             lambda lst, dct: ('LinearMosaic', [lst(Ps), const(ax)]))
    for n in AGGS:
        if C.get(n) is not None:
            for ax in (0, 1):
                yield Spec('%s (axis %d)' % (n, ax), C.call(n, [A], {'axis': const(ax)}), [A], 1)
            for o in {'mean': ('mdtol',), 'std': ('ddof',), 'var': ('ddof',)}.get(n, ()):
                yield Spec('%s (axis 0, %s)' % (n, o), C.call(n, [A], {
                    'axis': const(0), o: I.sym(o, 'float' if o == 'mdtol' else 'int')}), [A], 1)
            yield Spec('%s (axis 1 of 3)' % n, C.call(n, [A3], {'axis': const(1)}), [A3], 2)
    names = elementwise_names(C)
    for n, v, k in names:
        yield Spec(n, C.call(v, [A, B][:k]), [A, B][:k], 2)
        if k == 2:
            yield Spec('%s with a scalar' % n, C.call(v, [A, const(2)]), [A], 2)
    X, Y = (C.array('X', 2, shape=[C.int('m0', 2), ONE], plain=True),
            C.array('Y', 2, shape=[ONE, C.int('m1', 2)], plain=True))
    if C.get('add') is not None:
        yield Spec('add with broadcasting', C.call('add', [X, Y]), [X, Y], 2)


def keyset(C, s, what):
    """Keys for a specimen."""
    I = C.I
    n = s.rank

    def k(kind, i):
        if kind == ':':
            return FULL
        if kind == 's':
            return I.sym('k%d' % i, 'slice')
        if kind == 'i':
            return C.int('i%d' % i, 0)
        if kind == 'c':
            return const(0)
        if kind == 'l':
            return T('tuple', const(0), const(1))
        if kind == 'a':
            return C.ndint('a%d' % i)
        if kind == 'b':
            return C.ndbool('b%d' % i)
        if kind == 'N':
            return NONE
        if kind == '.':
            return const(Ellipsis)
        raise ValueError(kind)
    return [k(c, i) for i, c in enumerate(what)]


def indexed(C, s, keys, st=None):
    return C.run(lambda I, st: I.getitem(s.r.val, T('tuple', *keys) if len(keys) != 1
                                         else keys[0], st, None), st or s.r.st.copy())


OPS = ('add', 'sub', 'mul', 'floordiv', 'truediv', 'div', 'pow')


def ways(C, v, st, n):
    """(name, function of a state) for arrays which can be derived from an array."""
    I = C.I
    r = C.attr(v, 'shape', st=st.copy())
    its = None if r.dead else I.items(r.val, r.st)
    other = C.array('O', n, shape=None if its is None else list(its))
    out = [('astype', lambda q: C.method(v, 'astype', [C.dtype('t')], st=q)),
           ('transpose', lambda q: C.method(v, 'transpose', [], st=q))]

    def lists(q, f, items, *more):
        x = I.new_list(q, items)
        r = C.call(f, [x] + list(more), st=q)
        r.callers = [x.a[0]]
        return r
    fn = C.get('masked_equal')
    if fn is not None:
        out.append(('masked_equal', lambda q: C.call(fn, [v, I.sym('v', 'npscalar')], st=q)))
    if C.get('TransposedArray') is not None:
        out.append(('TransposedArray', lambda q: C.call('TransposedArray', [v], st=q)))
    if C.get('NewAxesArray') is not None:
        out.append(('NewAxesArray', lambda q: C.call(
            'NewAxesArray', [v, T('tuple', *[const(1)] + [const(0)] * n)], st=q)))
    if C.get('BroadcastArray') is not None:
        def broadcast(q):
            d = I.alloc(q, Dct([]))
            r = C.call('BroadcastArray', [v, d, T('tuple', const(2))], st=q)
            r.callers = [d.a[0]]
            return r
        out.append(('BroadcastArray', broadcast))
        if C.get('BroadcastArray.broadcast_arrays') is not None:
            out.append(('broadcast_arrays', lambda q: C.call(
                'BroadcastArray.broadcast_arrays', [v, other], st=q)))
    if C.get('ArrayStack') is not None:
        out.append(('ArrayStack', lambda q: lists(q, C.get('ArrayStack'), [v, v])))
        if C.get('ArrayStack.multidim_array_stack') is not None:
            out.append(('multidim_array_stack', lambda q: lists(
                q, C.get('ArrayStack.multidim_array_stack'), [v, v],
                T('tuple', const(2), const(1)))))
    if C.get('LinearMosaic') is not None:
        out.append(('LinearMosaic', lambda q: lists(q, C.get('LinearMosaic'), [v, v],
                                                    const(0))))
    for a in AGGS:
        if C.get(a) is not None and n:
            out.append((a, lambda q, a=a: C.call(a, [v], {'axis': const(n - 1)}, st=q)))
    ci = getattr(st.heap.get(v.a[0]), 'cls', None)
    for o in OPS:
        for x, what in ((other, ''), (const(2), ' a number')):
            for pre in ('', 'r'):
                m = '__%s%s__' % (pre, o)
                if ci is None or I.find(ci, m)[0] is None or (pre and not what):
                    continue
                out.append((m + what, lambda q, m=m, x=x: C.method(v, m, [x], st=q)))
    return out
