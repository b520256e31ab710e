"""C18: the declared shape is the shape of the result.

The sources have given shapes, and the keys given contents, of every kind: the shape which the
analysed program computes for an array before conversion is then a tuple of numbers, and so is
the shape of the term which its conversion evaluates to.
"""
import itertools

from .ctx import *         # noqa
from .norm import *        # noqa
from .zoo import *         # noqa
from .vtspec import rank0, nested, isarray
from .shapes import Shapes, Unk, Bad

RULES = {
    'plain': 'ndarray() gives an array of the shape declared before',
    'masked': 'masked_array() gives an array of the shape declared before',
    'indexed-plain': 'the same for an indexed array',
    'indexed-masked': 'the same for masked_array() of an indexed array',
    'composed-plain': 'the same for an array which is indexed twice',
    'composed-masked': 'the same for masked_array() of an array which is indexed twice',
    'node': 'the result of an evaluation by the engine is allocated with the declared shape',
}
SIZES = {'n0': 5, 'n1': 3, 'n2': 4, 'L': 6, 'L2': 2, 'm0': 4, 'm1': 7}
BASIC = [slice(None), slice(None, None, -1), slice(1, None), slice(0, 0), 0, -1]
MORE = [slice(None, None, 2), slice(-2, None, -1), slice(3, 100), (0,), (0, -1, 0), [1, 0],
        'mask', (), slice(3, 1), slice(-1, 0, -3)]
KEYS = BASIC + MORE


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier
        self.memo = {}
        self.busy = set()

    def virtual(self, x, st):
        """The shape which an object of the package declares."""
        r = self.C.attr(x, 'shape', st=st.copy())
        if r.dead or r.unsupported:
            return None
        its = self.I.items(r.val, r.st)
        if its is None:
            return None
        try:
            e = Shapes(self.C, r.st, self.virtual)
            return tuple(e.num(y) for y in its)
        except (Unk, Bad):
            return None

    # ----------------------------------------------------------------------------- keys
    def truth(self, n):
        return [i % 3 != 1 for i in range(n)]

    def term(self, ks, shape, st):
        out, a = [], 0
        for k in ks:
            if k == 'mask':
                n = shape[a]
                b = self.C.ndbool('m%d' % n, const(n))
                out.append(self.I.sym('truth%d' % n, 'ndbool', **dict(
                    {x: y for x, y in self.I.info(b).items() if x != 'kind'},
                    truth=self.truth(n))))
            elif isinstance(k, slice):
                out.append(T('slice', *[const(x) for x in (k.start, k.stop, k.step)]))
            elif isinstance(k, list):
                out.append(self.I.new_list(st, [const(x) for x in k]))
            elif isinstance(k, tuple):
                out.append(T('tuple', *map(const, k)))
            else:
                out.append(const(k))
            if k is not None and k is not Ellipsis:
                a += 1
        return out[0] if len(out) == 1 and not isinstance(ks[0], tuple) else T('tuple', *out)

    def show(self, ks):
        return ', '.join('np.newaxis' if k is None else '...' if k is Ellipsis else
                         ('%s:%s:%s' % (k.start, k.stop, k.step)).replace('None', '')
                         if isinstance(k, slice) else str(k) for k in ks)

    def fits(self, k, n):
        if isinstance(k, int):
            return -n <= k < n
        if isinstance(k, (tuple, list)):
            return all(-n <= i < n for i in k)
        return True

    def keysets(self, shape, few=False, single=False):
        out = self.keysets_(shape, few)
        if single:
            # Several sequences which index an ndarray are not independent of each other.
            out = [ks for ks in out if sum(not isinstance(k, (slice, int)) and k is not None and
                                           k is not Ellipsis for k in ks) < 2]
        return out

    def keysets_(self, shape, few=False):
        rank = len(shape)
        if not rank:
            return [(None,), (Ellipsis,), ()]
        pool = BASIC + MORE[3:7:2] if few else KEYS
        out = []
        if rank == 1:
            out = [(k,) for k in pool]
        else:
            # Each kind on each axis, beside each of a few kinds on the others.
            rest = [slice(None), slice(None, None, -1), -1, (1, 0), 'mask', slice(1, None)]
            n = 0
            for a in range(rank):
                for k in pool:
                    for r in itertools.product(rest, repeat=rank - 1):
                        n += 1
                        if n % ((23 if rank > 2 else 11 if few else 5)
                                if self.tier == 'quick' else 2 if rank > 2 or few else 1):
                            continue
                        out.append(r[:a] + (k,) + r[a:])
            out += [(k,) for k in (0, slice(1, None), (0, 1), 'mask')]
        if not few:
            out += [(None,), (Ellipsis, -1), (None, 0), (slice(None), None), (0, None, Ellipsis),
                    (Ellipsis, None), (slice(1, None), None, Ellipsis, None)]
        res, seen = [], set()
        for ks in out:
            a, ok = 0, True
            if Ellipsis in [k for k in ks if k is None or k is Ellipsis]:
                i = ks.index(Ellipsis)
                n = sum(k is not None and k is not Ellipsis for k in ks)
                flat = ks[:i] + (slice(None),) * (rank - n) + ks[i + 1:]
            else:
                flat = ks
            real = [k for k in flat if k is not None]
            if len(real) > rank:
                continue
            for k in real:
                ok = ok and self.fits(k, shape[a])
                a += 1
            if ok and repr(ks) not in seen:
                seen.add(repr(ks))
                res.append(ks)
        return res

    # --------------------------------------------------------------------------- shapes
    def subject(self, pre, lab, val, st, ortho=False):
        """Compare the declared shape with those of the conversions."""
        chk, C = self.chk, self.C
        want = self.virtual(val, st)
        rules = [('ndarray', pre + 'plain'), ('masked_array', pre + 'masked')]
        if want is None:
            for m, rule in rules:
                chk.dunno(rule, lab, 'the declared shape is not a tuple of numbers')
            return None
        for m, rule in rules:
            c = C.method(val, m, st=st.copy())
            what = '%s() of %s' % (m, lab)
            site = lab.split('[')[0]
            if c.dead:
                names = c.exc_names()
                if 'TypeError' in names and m == 'masked_array':
                    continue            # functions without a masked counterpart
                # Other failures are another matter.
                chk.dunno(rule, what, 'raises %s' % ', '.join(names))
                continue
            t = c.val
            if t.op == 'conv' and t.a[1].sid == val.sid:
                self.node(lab, val, m, c.st, want)
                continue
            e = Shapes(C, c.st, self.virtual)
            e.ortho = ortho
            try:
                got = e.sh(t)
            except Unk as x:
                chk.dunno(rule, what, str(x))
                continue
            except Bad as x:
                chk.bad(rule, what, site, 'declares %s, but %s' % (want, x))
                continue
            if got == want:
                chk.ok(rule, what)
            else:
                chk.bad(rule, what, site, 'declares %s and gives %s' % (want, got))
        return want

    def node(self, lab, val, m, st, want):
        """The engine stores the chunks in an array which a node allocates."""
        chk, C = self.chk, self.C
        fn = C.get('NdarrayNode')
        what = '%s() of %s by the engine' % (m, lab)
        if fn is None:
            return chk.dunno('node', what, 'no node')
        r = C.call(fn, [val, const(m == 'masked_array')], st=st.copy())
        if r.dead or r.unsupported or r.val.op != 'ref':
            return chk.dunno('node', what, 'the node is not understood')
        x = C.attr(r.val, 'result', st=r.st)
        if x.dead or x.unsupported:
            return chk.dunno('node', what, 'the result is not understood')
        try:
            got = Shapes(C, x.st, self.virtual).sh(x.val)
        except (Unk, Bad) as e:
            return chk.dunno('node', what, str(e))
        if got == want:
            chk.ok('node', what)
        else:
            chk.bad('node', what, 'biggus.NdarrayNode',
                    'declares %s and gives %s' % (want, got))

    def deep(self, lab, val, st, twice, few=False, ortho=False, raw=False):
        chk, C, I = self.chk, self.C, self.I
        shape = self.subject('', lab, val, st, ortho)
        if shape is None:
            return
        for n, ks in enumerate(self.keysets(shape, few, raw)):
            def go(I_, s):
                return I_.getitem(val, self.term(ks, self.flat(ks, shape), s), s, None)
            r = C.run(go, st.copy())
            lab1 = '%s[%s]' % (lab, self.show(ks))
            if r.dead or r.unsupported or not isarray(C, r):
                if not r.dead and not r.unsupported and r.val.op in ('sub', 'sym'):
                    continue            # a selection from a source
                if not r.dead or r.unsupported or not r.exc_names():
                    chk.dunno('indexed-plain', lab1, 'not understood')
                continue                # keys of this kind are refused
            sh1 = self.subject('indexed-', lab1, r.val, r.st, ortho)
            if sh1 is None or not twice or n % twice or () in [k for k in ks if k == ()]:
                continue
            for j, k2 in enumerate(self.keysets(sh1, True)):
                if len(sh1) > 1 and (n // twice + j) % (17 if self.tier == 'quick' else 3):
                    continue

                def go2(I_, s):
                    return I_.getitem(r.val, self.term(k2, self.flat(k2, sh1), s), s, None)
                r2 = C.run(go2, r.st.copy())
                lab2 = '%s[%s]' % (lab1, self.show(k2))
                if r2.dead or r2.unsupported or not isarray(C, r2):
                    if not r2.dead and not r2.unsupported and r2.val.op in ('sub', 'sym'):
                        continue
                    if not r2.dead or r2.unsupported or not r2.exc_names():
                        chk.dunno('composed-plain', lab2, 'not understood')
                    continue
                self.subject('composed-', lab2, r2.val, r2.st, ortho)

    def flat(self, ks, shape):
        """Axis lengths in the order of the items which take up an axis."""
        if Ellipsis not in [k for k in ks if k is Ellipsis]:
            return shape
        i = [k is Ellipsis for k in ks].index(True)
        lead = sum(k is not None for k in ks[:i])
        trail = sum(k is not None for k in ks[i + 1:])
        return tuple(shape[:lead]) + tuple(shape[len(shape) - trail:])


def sized(C, sizes):
    real = C.int

    def make(name, lo=None, **kw):
        if name in sizes:
            return const(sizes[name])
        return real(name, lo, **kw)

    def concrete(name, ndim, **kw):
        kw.pop('fill', None)
        return C.I.sym(name, 'concrete', ndim=ndim, attrs={
            'shape': T('tuple', *[const(sizes['n%d' % i]) for i in range(ndim)]),
            'dtype': C.dtype(name + '.dtype')}, **kw)

    def nd(name, ndim, kind='nd', **kw):
        return C.I.sym(name, kind, ndim=ndim, attrs={
            'shape': T('tuple', *[const(sizes['n%d' % i]) for i in range(ndim)]),
            'dtype': C.dtype(name + '.dtype')}, **kw)
    C.int, C.concrete, C.nd = make, concrete, nd
    C.sizes = sizes


def check(chk, root, tier):
    out = []
    q = None
    plans = [(SIZES, False), (dict(SIZES, n0=1, n1=1), True), (dict(SIZES, n0=0), True)]
    for sizes, few in plans:
        C = Ctx(root)
        C.I.hyp = not_masked_constant
        sized(C, sizes)
        q = Q(chk, C, tier)
        what = '' if not few else ' (%d, %d)' % (sizes['n0'], sizes['n1'])
        names, kinds = set(), set()
        for s in itertools.chain(specimens(C, tier == 'thorough'), rank0(C)):
            if s.label in names:
                continue
            names.add(s.label)
            lab = s.label + what
            if not s.ok:
                if s.r.unsupported:
                    chk.dunno('plain', lab, s.why)
                continue
            if s.label.startswith('Ortho') and any(
                    C.I.info(x).get('kind') != 'concrete' for x in s.sources):
                continue        # it is for sources which index each axis on its own
            small = few or family(C, s) in kinds
            kinds.add(family(C, s))
            q.deep(lab, s.r.val, s.r.st, 0 if small else 5, small,
                   s.label.startswith('Ortho'))
        for s in nested(C):
            if s.ok and isarray(C, s.r):
                q.deep(s.label + what, s.r.val, s.r.st, 0, True,
                       raw=any(C.I.info(x).get('kind') in ('nd', 'ma') for x in s.sources))
        out.append(C)
    chk.assumptions = [
        'indexing a source, which is an arbitrary virtual array or a file variable, gives what '
        'its key selects axis by axis; one behind a NumpyArrayAdapter follows NumPy',
        'the lengths of axes and the contents of keys are given ones, of every kind, which stand '
        'for the others',
    ]
    return out


def family(C, s):
    """Elementwise expressions of as many sources are alike, and so are aggregations."""
    rec = s.r.st.heap.get(s.r.val.a[0]) if s.ok else None
    cls = getattr(rec, 'cls', None)
    if cls is not None and ('lementwise' in cls.name or 'ggregation' in cls.name):
        return '%s %d %d %s' % (cls.name, s.rank, len(s.sources), s.label[-8:-1]
                                if '(axis' in s.label else '')
    return s.label
