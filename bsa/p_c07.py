"""C07: the declared dtype is the dtype of the result."""
from .vtspec import *     # noqa
from .p_c06 import site
from .p_c05 import Handler, STATS, Wrong as W5, Unk as U5

RULES = {
    'conversion': 'converting an array gives an array of the dtype which it declares, for '
                  'every dtype of its sources',
    'selection': 'a selection from an array declares the dtype of the array',
    'chunks': 'the chunks which the stream handler of an array makes can hold every value of '
              'the dtype which the array declares, for every dtype of its sources',
    'float': 'means, standard deviations and variances of integers declare a floating-point '
             'dtype, and are accumulated in floating point',
    'node': 'the node of a result allocates and keeps an array of the declared dtype',
}
INTS = '?bBhHiIlL'


class Ev7(Eval):
    def masked(self, t):
        return self.sc.pick(('mask', 'elements masked'), (True, False))

    def pick(self, kind, key, domain):
        if kind in ('iterations', 'el', 'nomask'):
            key = 'all alike'
        elif kind == 'num':
            key = domain
        return Eval.pick(self, kind, key, domain)


def holds(c, want):
    """Can every value of dtype want be represented in dtype c?"""
    if want == '?':
        return True
    b = {'b': 7, 'h': 15, 'i': 31, 'l': 63, 'B': 8, 'H': 16, 'I': 32, 'L': 64, 'e': 11, 'f': 24,
         'd': 53, 'F': 24, 'D': 53, '?': 1}
    if want in 'bhil':
        return c in 'bhil' and b[c] >= b[want] or c in 'efdFD' and b[c] >= b[want]
    if want in 'BHIL':
        return (c in 'BHIL' or c in 'bhil' or c in 'efdFD') and b[c] >= b[want]
    if want in 'efd':
        return c in 'efdFD' and b[c] >= b[want]
    return c in 'FD' and b[c] >= b[want]


def symdty(C, t, depth=0):
    """The dtype, as a term, of an array, where it does not depend on the scenario."""
    if depth > 30:
        return None
    if t.op == 'conv' and t.a[1].op == 'sym':
        return ((C.I.info(t.a[1]) or {}).get('attrs') or {}).get('dtype')
    if t.op == 'call':
        f, args, kw = t.a[:3]
        kw = dict(kw)
        if f.op == 'bmx' and f.a[1] == 'astype' and len(args) == 1:
            return args[0] if symdty(C, f.a[0], depth + 1) is not None else None
        if f.op == 'bmx' and f.a[1] in ('transpose', 'reshape', 'ravel', 'flatten'):
            return symdty(C, f.a[0], depth + 1)
        if f.op == 'ext' and f.a[0] in (
                'numpy.asarray', 'numpy.array', 'numpy.ma.asarray', 'numpy.ma.array',
                'numpy.ma.empty', 'numpy.empty', 'numpy.zeros', 'numpy.ma.zeros'):
            d = kw.get('dtype')
            if d is not None and not (d.op == 'const' and d.a[0] is None):
                return d
            return None
        if f.op == 'ext' and f.a[0].endswith('.as_strided') and args:
            return symdty(C, args[0], depth + 1)
    if t.op == 'attr' and t.a[1] == 'data':
        return symdty(C, t.a[0], depth + 1)
    if t.op == 'store':
        return symdty(C, t.a[0], depth + 1)
    return None


def compare(chk, C, rule, what, where, st, val, dterm, dst=None, ints=False, dom=None):
    """Is the dtype of the value the declared one in every scenario?"""
    n = 0
    bad = unk = None
    sd = symdty(C, val)
    if sd is not None and sd.sid == dterm.sid and not ints:
        chk.ok(rule, what, 'the dtype is the same expression')
        return

    def f(sc):
        e = Ev7(C, sc, st, dom)
        want = e.dty(dterm) if dst is None else Ev7(C, sc, dst, dom).dty(dterm)
        v = e.ev(val)
        return want, v
    for sc, r in explore(f):
        n += 1
        if isinstance(r, Unk):
            unk = unk or str(r)
            continue
        want, v = r
        if not isinstance(v, V) or v.dt is None:
            unk = unk or 'no dtype'
            continue
        why = None
        if v.dt != want and not (rule == 'chunks' and holds(v.dt, want)):
            why = 'gives %s, but declares %s' % (LONG.get(v.dt, v.dt), LONG.get(want, want))
        elif ints and want in INTS:
            why = 'declares %s' % LONG[want]
        elif ints and sc.intops:
            why = 'accumulates in an integer type (%s)' % sc.intops[0]
        if why:
            if sc.unsure:
                unk = unk or why
            else:
                bad = bad or '%s when %s' % (why, say(sc))
    if bad:
        chk.bad(rule, what, where, bad)
    elif unk:
        chk.dunno(rule, what, unk)
    elif n:
        chk.ok(rule, what, '%d scenarios' % n)


def same(chk, C, what, where, st, d1, st2, d2):
    bad = unk = None
    n = 0
    if d1.sid == d2.sid:
        chk.ok('selection', what, 'the dtype is the same expression')
        return
    for sc, r in explore(lambda sc: (Ev7(C, sc, st).dty(d1), Ev7(C, sc, st2).dty(d2))):
        n += 1
        if isinstance(r, Unk):
            unk = unk or str(r)
        elif r[0] != r[1] and sc.unsure:
            unk = unk or 'guessed'
        elif r[0] != r[1]:
            bad = bad or 'declares %s, but the array %s, when %s' % (
                LONG[r[1]], LONG[r[0]], say(sc))
    if bad:
        chk.bad('selection', what, where, bad)
    elif unk:
        chk.dunno('selection', what, unk)
    elif n:
        chk.ok('selection', what)


def convert(chk, C, lab, val, st):
    d = C.attr(val, 'dtype', st=st.copy())
    if d.dead or d.unsupported:
        chk.dunno('conversion', lab, 'dtype: %s' % str(d.unsupported[:1])[:100])
        return None
    for m, kind, r in conversions(C, val, st):
        what = '%s of %s' % (m, lab)
        if r.dead:
            continue
        if r.unsupported:
            chk.dunno('conversion', what, str(r.unsupported[0])[:140])
            continue
        compare(chk, C, 'conversion', what, site(C, val, st, m), r.st, r.val, d.val, d.st)
    return d


def handlers(chk, C, tier):
    for name in AGGS:
        if C.get(name) is None:
            continue
        for masked in (False, True):
            for rank in (1, 2) if tier == 'quick' else (1, 2, 3):
                for axis in range(rank):
                    for n in (1, 2, 3):
                        aggregation(chk, C, name, masked, rank, axis, n)


def aggregation(chk, C, name, masked, rank, axis, n):
    lab = '%s of %s%d-d data along axis %d, %d chunks' % (
        name, 'masked ' if masked else '', rank, axis, n)
    kw = {'mean': {'mdtol': const(0)}}.get(name, {}) if masked else {}
    H = Handler(C, name, masked, axis, rank, kw)
    if not H.ok:
        chk.dunno('chunks', lab, H.why)
        return
    r = C.call(name, [H.A], dict(kw, axis=const(axis)))
    d = C.attr(r.val, 'dtype', st=r.st.copy())
    if d.dead:
        chk.dunno('chunks', lab, 'dtype')
        return
    try:
        st = H.st0.copy()
        for i in range(n):
            p, _, _, _ = H.process('D%d' % i, st)
            st = p.st
        f, data, _ = H.finalise(st)
    except (W5, U5) as e:
        chk.dunno('chunks', lab, str(e)[:140])
        return
    where = '%s.finalise' % H.cls.name
    compare(chk, C, 'chunks', lab, where, f.st, data, d.val, d.st)
    if name in ('mean', 'std', 'var'):
        compare(chk, C, 'float', lab, where, f.st, data, d.val, d.st, ints=True,
                dom={'dt': tuple(INTS)})


def elementwise(chk, C):
    I = C.I
    d = C.dtype('d')
    n0 = C.int('n0', 0)
    for r in (0, 1):
        A = C.array('A', r, shape=[n0][:r], dtype=d, plain=True)
        B = C.array('B', r, shape=[n0][:r], plain=True)
        for name, fn, k in elementwise_names(C):
            for other in ([None] if k == 1 else [B, const(2), const(2.5), const(300)]):
                e = C.call(fn, [A] + ([other] if other is not None else []))
                if not isarray(C, e):
                    continue
                dt = C.attr(e.val, 'dtype', st=e.st.copy())
                for masked in (False, True):
                    lab = '%s of %s%d-d arrays%s' % (
                        name, 'masked ' if masked else '', r,
                        ' and %s' % other.a[0] if other is not None and other.op == 'const'
                        else '')
                    h = C.method(e.val, 'streams_handler', [const(masked)], st=e.st.copy())
                    if h.dead:
                        continue
                    src = C.attr(e.val, 'sources', st=h.st)
                    its = I.items(src.val, src.st) if not src.dead else None
                    if its is None:
                        chk.dunno('chunks', lab, 'sources')
                        continue
                    st = src.st
                    cs = []
                    okay = True
                    for i, x in enumerate(its):
                        xd = C.attr(x, 'dtype', st=st)
                        if xd.dead:
                            okay = False
                            break
                        D = I.sym('D%d' % i, 'ma' if masked else 'nd', ndim=r, attrs={
                            'shape': T('tuple', *[C.int('s%d' % j, 0) for j in range(r)]),
                            'dtype': xd.val})
                        ks = T('tuple', *[I.sym('k%d' % j, 'slice') for j in range(r)])
                        c = C.call(C.get('Chunk'), [ks, D], st=xd.st)
                        if c.dead:
                            okay = False
                            break
                        st = c.st
                        cs.append(c.val)
                    if not okay:
                        chk.dunno('chunks', lab, 'chunk')
                        continue
                    p = C.method(h.val, 'process_chunks', [I.new_list(st, cs)], st=st)
                    if p.dead:
                        continue
                    if p.unsupported:
                        chk.dunno('chunks', lab, str(p.unsupported[0])[:100])
                        continue
                    q = C.attr(p.val, 'data', st=p.st)
                    if q.dead:
                        chk.dunno('chunks', lab, 'no data')
                        continue
                    cls = p.st.heap[h.val.a[0]].cls.name
                    compare(chk, C, 'chunks', lab, '%s.process_chunks' % cls, q.st, q.val,
                            dt.val, dt.st)


def node(chk, C):
    N = C.get('NdarrayNode')
    if N is None:
        return
    I = C.I
    for r in (0, 1, 2):
        A = C.array('A', r, plain=True)
        for masked in (False, True):
            lab = 'result of a %sevaluation, rank %d' % ('masked ' if masked else '', r)
            n = C.call(N, [A, const(masked)])
            if n.dead or n.unsupported:
                chk.dunno('node', lab, str(n.unsupported[:1])[:100])
                continue
            q = C.attr(n.val, 'result', st=n.st.copy())
            d = C.attr(A, 'dtype', st=n.st.copy())
            if q.dead:
                chk.dunno('node', lab, 'no result')
                continue
            compare(chk, C, 'node', lab + ', allocated', 'NdarrayNode.__init__', q.st, q.val,
                    d.val, d.st)
            D = I.sym('D', 'ma' if masked else 'nd', ndim=r, attrs={
                'shape': T('tuple', *[C.int('s%d' % j, 0) for j in range(r)]),
                'dtype': C.dtype('D.dtype')})
            ks = T('tuple', *[I.sym('k%d' % j, 'slice') for j in range(r)])
            c = C.call(C.get('Chunk'), [ks, D], st=n.st.copy())
            if c.dead:
                continue
            p = C.method(n.val, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st)
            if p.dead or p.unsupported:
                chk.dunno('node', lab, 'a chunk is not understood')
                continue
            q = C.attr(n.val, 'result', st=p.st)
            compare(chk, C, 'node', lab + ', filled', 'NdarrayNode.process_chunks', q.st,
                    q.val, d.val, d.st)


def check(chk, root, tier):
    chk.softness = 1         # conditions about types are evaluated, see vtype
    C = Ctx(root)
    n = 0
    base = {}
    for lab, val, st in subjects(C, tier != 'quick'):
        n += 1
        if val is None:
            chk.dunno('conversion', lab, st)
            continue
        d = convert(chk, C, lab, val, st)
        if '[' not in lab:
            base = {lab: d}
        elif d is not None and base.get(lab.split('[')[0]) is not None:
            b = base[lab.split('[')[0]]
            same(chk, C, lab, site(C, val, st, '__getitem__'), b.st, b.val, d.st, d.val)
    handlers(chk, C, tier)
    elementwise(chk, C)
    node(chk, C)
    chk.extra['subjects'] = n
    chk.assumptions = [
        'result types of NumPy operations are those of the committed table bsa/np_model.json '
        '(NumPy %s)' % __import__('bsa.vtype').vtype.MODEL['version'],
        'the dtypes considered are bool, the integers of 8 to 64 bits, float16/32/64 and '
        'complex64/128 in native byte order',
        'the engine stores chunks with item assignment, which keeps the dtype of the result',
    ]
    return [C]
