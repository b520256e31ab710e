"""C01: virtual arrays are lazy; only explicit conversion reads data."""
from .zoo import *        # noqa

RULES = {
    'construct': 'making a virtual array reads and converts nothing',
    'inspect': 'shape, rank, dtype, fill value, byte count and text read and convert nothing',
    'index': 'indexing reads and converts nothing, and neither does inspecting what it gives',
    'derive': 'casting, transposing, masking by value, stacking, tiling, broadcasting, '
              'aggregating or combining arrays, and inspecting what that gives, reads and '
              'converts nothing',
    'detected': 'the analysis notices the conversion of such an array',
}
READS = ('convert', 'read', 'coerce')
LOOKS = ('shape', 'ndim', 'dtype', 'fill_value', 'nbytes')
TEXTS = ('__str__', '__repr__')


def touched(r):
    """The first event which reads data."""
    for e in r.events:
        if e['kind'] in READS:
            return e
        if e['kind'] == 'call':
            f = e['f']
            n = f.a[0] if f.op == 'ext' else ''
            if isinstance(n, str) and n.endswith(('engine.ndarrays', 'engine.masked_arrays')):
                return e
    return None


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier

    def judge(self, rule, lab, r):
        """-> whether the result can be looked at further."""
        e = touched(r)
        if e is not None:
            what = {'read': 'the source is read', 'convert': 'an array is converted',
                    'coerce': 'an array is converted by %s' % show(e.get('f'), 2)
                    if e.get('f') is not None else 'an array is converted'}.get(
                        e['kind'], 'an array is evaluated')
            self.chk.gate = not exact_at(r, e)
            self.chk.bad(rule, lab, loc(e), '%s (%s), called from %s' % (
                what, show(e['obj'], 3)[:60] if e.get('obj') is not None else '?',
                ' < '.join(reversed([str(x) for x in e['stack'][-4:]]))))
            self.chk.gate = True
            return False
        if r.unsupported:
            self.chk.dunno(rule, lab, str(r.unsupported[0])[:140])
            return False
        self.chk.ok(rule, lab)
        return not r.dead

    def look(self, rule, lab, val, st, more=()):
        C = self.C
        for n in LOOKS:
            self.judge(rule, '%s: %s' % (lab, n), C.attr(val, n, st=st.copy()))
        for n in TEXTS:
            self.judge(rule, '%s: %s' % (lab, n), C.method(val, n, [], st=st.copy()))
        f = C.get('size')
        if f is not None:
            self.judge(rule, '%s: size()' % lab, C.call(f, [val], st=st.copy()))

    def isarray(self, r):
        if r.val.op != 'ref':
            return False
        rec = r.st.heap.get(r.val.a[0])
        return getattr(rec, 'cls', None) is not None and self.I.isarraycls(rec.cls)

    def one(self, s):
        C, I = self.C, self.I
        if s.r.dead or s.r.val.op != 'ref':
            self.chk.dunno('construct', s.label, s.why)
            return
        if not self.judge('construct', s.label, s.r):
            return
        v, st = s.r.val, s.r.st
        self.look('inspect', s.label, v, st)
        det = C.method(v, 'ndarray', [], st=st.copy())
        if s.sources and all(I.kind(x, st) in ('array', 'concrete') for x in s.sources):
            if touched(det) is None:
                self.chk.dunno('detected', s.label, 'no read is noticed')
            else:
                self.chk.ok('detected', s.label)
        # indexing
        kinds = ['i', 's', '.', 'l', 'N'] + ['i' * s.rank, 's' * s.rank, 'is'[:s.rank],
                                             'si'[:s.rank], 'ls'[:s.rank], 'sl'[:s.rank],
                                             '.i', 'a' * s.rank, 'b' * s.rank, 'a', 'b']
        if s.dims is not None:
            kinds = [k.replace('i', 'c') if k[0] != 's' or len(k) > 1 else k for k in kinds]
            kinds = [':' + k[1:] if k[:1] == 's' else k for k in kinds]
            kinds = [k.replace('sl', ':l') for k in kinds]
        seen = set()
        for k in kinds:
            if k in seen:
                continue
            seen.add(k)
            lab = '%s[%s]' % (s.label, k)
            r = indexed(C, s, keyset(C, s, k))
            if self.judge('index', lab, r) and self.isarray(r) and len(k) == s.rank:
                self.look('index', lab, r.val, r.st)
        # derived arrays
        for w, f in ways(C, v, st, s.rank):
            lab = '%s of %s' % (w, s.label)
            r = f(st.copy())
            if self.judge('derive', lab, r):
                if self.isarray(r) and (self.tier != 'quick' or w in (
                        'mean', 'std', 'sum', 'count', 'ArrayStack', 'LinearMosaic',
                        '__add__', '__truediv__ a number')):
                    self.look('derive', lab, r.val, r.st)


def check(chk, root, tier):
    C = Ctx(root)
    q = Q(chk, C, tier)
    n = 0
    for s in specimens(C, tier != 'quick'):
        n += 1
        q.one(s)
    chk.extra['specimens'] = n
    chk.assumptions = [
        'reading a data source is calling its __getitem__ or any method of it, converting it '
        'with a NumPy function, or converting or evaluating a virtual array',
        'np.array and np.require with an object dtype do not convert the arrays they are given',
    ]
    return [C]
