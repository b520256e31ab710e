"""C15: the keys of one index apply to each axis independently; keys are captured."""
import itertools

from .ctx import *        # noqa
from .norm import *       # noqa

RULES = {
    'orthogonal': 'converting the indexed adapter selects, on every axis of the source, exactly '
                  'what the key of that axis says, with the axes in their order',
    'orthogonal-masked': 'the same for masked_array()',
    'captured-list': 'a list given as key may be changed afterwards without effect',
    'captured-iterator': 'a one-shot iterable given as key serves any number of conversions',
    'constructor-keys': 'keys given to the constructor select the same elements',
    'composed': 'indexing an indexed adapter selects from what the first index selected',
}
STRIP = WRAP | {'numpy.ma.masked_array', 'numpy.copy'}
STRIPM = {'filled', 'copy', 'view', 'astype', '__array__'}
KINDS = ('full', 'int', 'slice', 'tuple', 'list', 'mask', 'array', 'iter')


class Odd(Exception):
    """The term is outside what is understood."""


class Wrong(Exception):
    """The selection is definitely not the orthogonal one."""


class Sel(object):
    """What one remaining axis shows: the source axis and the keys applied to it."""

    def __init__(self, axis, n, key=None, places=None):
        self.axis, self.n, self.key, self.places = axis, n, key, places


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier

    # ------------------------------------------------------- the axis domain
    def norm_key(self, k, st):
        """('full',) | ('int', t) | ('slice', t) | ('seq', [t]) | ('mask', m)"""
        I = self.I
        if k.op == 'slice':
            if all(x.op == 'const' and x.a[0] is None for x in k.a):
                return ('full',)
            return ('slice', k)
        if k.op == 'const' and k.a[0] is Ellipsis:
            return ('ellipsis',)
        if k.op == 'const' and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            return ('int', k)
        kind = I.info(k).get('kind')
        if kind == 'ndbool':
            return ('mask', k)
        if k.op == 'elems' and len(k.a) == 1 and I.info(k.a[0]).get('kind') == 'ndbool':
            raise Wrong('a boolean mask is used as indices')
        m = self.mask_of(k)
        if m is not None:
            return ('mask', m)
        if kind == 'int':
            return ('int', k)
        if k.op == 'ref' and k.a[0] in I.once:
            raise Wrong('a one-shot iterable is used as the key')
        its = I.items(k, st) if k.op in ('tuple', 'ref') else list(k.a) \
            if k.op in ('list', 'ndlist') else I.info(k).get('items')
        if its is not None:
            return ('seq', list(its))
        raise Odd('key %s' % str(k)[:80])

    def mask_of(self, k):
        """m for the positions where m holds, in the ways they can be written."""
        k = core(k, self.I, None) if k.op == 'call' else k
        while k.op in ('elems', 'tuple') and len(k.a) == 1 and k.op == 'elems':
            k = k.a[0]
        if k.op == 'call' and k.a[0].op == 'ext' and k.a[0].a[0] in ('numpy.flatnonzero',):
            m = k.a[1][0]
            return m if self.I.info(m).get('kind') == 'ndbool' else None
        if k.op == 'sub' and k.a[1].op == 'const' and k.a[1].a[0] == 0 and \
                k.a[0].op == 'call':
            f, args = k.a[0].a[:2]
            if f.op == 'ext' and f.a[0] in ('numpy.nonzero', 'numpy.where') and len(args) == 1:
                m = args[0]
            elif f.op == 'bmx' and f.a[1] == 'nonzero':
                m = f.a[0]
            else:
                return None
            return m if self.I.info(m).get('kind') == 'ndbool' else None
        return None

    def apply(self, s, k, st):
        """One key on one axis: the axis afterwards, or None when it is gone."""
        if k[0] == 'full':
            return s
        if s.places is not None:
            p = s.places
            try:
                if k[0] == 'int':
                    self.done[s.axis] = [p[k[1].a[0]]]
                    return None
                if k[0] == 'slice':
                    return Sel(s.axis, s.n, None, p[slice(*[x.a[0] for x in k[1].a])])
                if k[0] == 'seq':
                    return Sel(s.axis, s.n, None, [p[x.a[0]] for x in k[1]])
            except IndexError:
                raise Wrong('key %s is outside axis %d' % (self.text(k), s.axis))
            except (AttributeError, TypeError):
                pass
            raise Odd('key %s' % self.text(k))
        if s.key is not None:
            raise Odd('two keys on one axis')
        if k[0] == 'int':
            self.done[s.axis] = k
            return None
        return Sel(s.axis, s.n, k)

    def text(self, k):
        return '%s %s' % (k[0], [str(x)[:40] for x in (
            k[1] if isinstance(k[1], list) else [k[1]])] if len(k) > 1 else '')

    def ev(self, t, st, ortho):
        """The axes of the array a term stands for."""
        I = self.I
        if t.sid == self.X.sid:
            sh = I.info(self.X)['attrs']['shape'].a
            return [Sel(i, n, None, list(range(n.a[0])) if n.op == 'const' else None)
                    for i, n in enumerate(sh)]
        if t.op == 'withattr' and t.a[1] == 'fill_value':
            return self.ev(t.a[0], st, ortho)
        if t.op == 'phi':
            raise Odd('condition %s' % str(t.a[0])[:60])
        if t.op == 'call':
            f, args, kw = t.a[:3]
            kw = dict(kw)
            if f.op == 'ext':
                if f.a[0] in STRIP and args:
                    return self.ev(args[0], st, ortho)
                if f.a[0] == 'numpy.take':
                    ax = kw.get('axis', args[2] if len(args) > 2 else None)
                    return self.take(args[0], args[1], ax, st, ortho)
                if f.a[0] in ('numpy.transpose', 'numpy.rollaxis', 'numpy.moveaxis',
                              'numpy.swapaxes'):
                    return self.perm(f.a[0][6:], args[0], list(args[1:]), kw, st, ortho)
                if f.a[0] == 'numpy.compress':
                    ax = kw.get('axis', args[2] if len(args) > 2 else None)
                    return self.take(args[1], args[0], ax, st, ortho)
            if f.op == 'bmx':
                if f.a[1] in STRIPM:
                    return self.ev(f.a[0], st, ortho)
                if f.a[1] == 'take':
                    ax = kw.get('axis', args[1] if len(args) > 1 else None)
                    return self.take(f.a[0], args[0], ax, st, ortho)
                if f.a[1] == 'compress':
                    ax = kw.get('axis', args[1] if len(args) > 1 else None)
                    return self.take(f.a[0], args[0], ax, st, ortho)
                if f.a[1] in ('transpose', 'swapaxes'):
                    return self.perm(f.a[1], f.a[0], list(args), kw, st, ortho)
            raise Odd('call of %s' % str(f)[:40])
        if t.op in ('index', 'sub', 'getitem', 'read') and len(t.a) >= 2:
            base, key = t.a[0], t.a[1]
            ks = list(key.a) if key.op == 'tuple' else \
                I.items(key, st) if key.op == 'ref' else [key]
            if ks is None:
                raise Odd('key %s' % str(key)[:60])
            first = base.sid == self.X.sid
            return self.index(self.ev(base, st, ortho), [self.norm_key(k, st) for k in ks],
                              st, ortho and first)
        raise Odd('%s term' % t.op)

    def axis_no(self, ax, n):
        if ax is None or ax.op != 'const' or not isinstance(ax.a[0], int):
            raise Odd('axis %s' % ax)
        if not -n <= ax.a[0] < n:
            raise Wrong('axis %d of %d dimensions' % (ax.a[0], n))
        return ax.a[0] % n

    def take(self, base, key, ax, st, ortho):
        d = self.ev(base, st, ortho)
        i = self.axis_no(ax, len(d))
        k = self.norm_key(key, st)
        if k[0] == 'mask' and self.I.info(key).get('kind') == 'ndbool':
            raise Wrong('a boolean mask is taken as indices')
        r = self.apply(d[i], k, st)
        return d[:i] + ([r] if r is not None else []) + d[i + 1:]

    def perm(self, name, base, args, kw, st, ortho):
        d = self.ev(base, st, ortho)
        n = len(d)
        if name == 'transpose':
            ax = kw.get('axes', args[0] if len(args) == 1 else T('tuple', *args) if args
                        else None)
            if ax is None:
                return d[::-1]
            its = self.I.items(ax, st)
            if its is None:
                raise Odd('axes')
            return [d[self.axis_no(x, n)] for x in its]
        if name == 'swapaxes':
            i, j = [self.axis_no(x, n) for x in args[:2]]
            d[i], d[j] = d[j], d[i]
            return d
        raise Odd(name)

    def index(self, d, ks, st, ortho):
        n = len(d)
        if any(k[0] == 'ellipsis' for k in ks):
            i = [k[0] for k in ks].index('ellipsis')
            ks = ks[:i] + [('full',)] * (n - len(ks) + 1) + ks[i + 1:]
        if len(ks) > n:
            raise Wrong('%d keys for %d dimensions' % (len(ks), n))
        ks = ks + [('full',)] * (n - len(ks))
        adv = [i for i, k in enumerate(ks) if k[0] in ('seq', 'mask')]
        if ortho or not adv:
            return [r for r in (self.apply(s, k, st) for s, k in zip(d, ks)) if r is not None]
        # NumPy "fancy" indexing
        if len(adv) > 1:
            raise Wrong('%d index sequences are combined element by element' % len(adv))
        ints = [i for i, k in enumerate(ks) if k[0] == 'int']
        allv = sorted(adv + ints)
        front = ints and allv[-1] - allv[0] + 1 != len(allv)
        out, seq = [], None
        for i, (s, k) in enumerate(zip(d, ks)):
            r = self.apply(s, k, st)
            if r is None:
                continue
            if front and i == adv[0]:
                seq = r
            else:
                out.append(r)
        return ([seq] if seq is not None else []) + out

    def leaves(self, t, st):
        t = core(t, self.I, st)
        if t.op == 'phi':
            d = self.I.decide(t.a[0], st)
            if d is not None:
                return self.leaves(t.a[1 if d else 2], st)
            return self.leaves(t.a[1], st) + self.leaves(t.a[2], st)
        if t.op == 'call' and t.a[0].op == 'bmx' and t.a[0].a[1] in STRIPM:
            return self.leaves(t.a[0].a[0], st)
        return [t]

    # -------------------------------------------------------------- comparing
    def check(self, rule, lab, c, exp, st, ortho):
        """exp: per axis of the source the expected normalised key, or index places."""
        chk, site = self.chk, lab.split('[')[0]
        if c.dead:
            names = c.exc_names()
            chk.verdict(None if c.unsupported or not names else False, rule, lab, site,
                        'conversion raises %s' % ', '.join(names))
            return
        for e in c.events:
            if e['kind'] in ('read', 'index') and e.get('key') is not None and \
                    contains(e['key'], lambda x: x.op == 'ref' and x.a[0] in self.I.once):
                chk.bad(rule, lab, site, 'a one-shot iterable is the key at ' + loc(e))
                return
        ls = {x.sid: x for x in self.leaves(c.val, c.st or st)}
        for t in ls.values():
            self.done = {}
            try:
                d = self.ev(t, c.st or st, ortho)
                why = self.compare(d, exp)
            except Odd as e:
                chk.dunno(rule, lab, 'not understood: %s' % e)
                return
            except Wrong as e:
                why = str(e)
            if why == '?':
                chk.dunno(rule, lab, 'keys not understood')
                return
            if why:
                chk.bad(rule, lab, site, why)
                return
        chk.ok(rule, lab)

    def compare(self, d, exp):
        left = [i for i, k in enumerate(exp) if k[0] != 'int']
        got = [s.axis for s in d]
        if got != left:
            return 'axes of the source in the result: %s, not %s' % (got, left)
        for s in d:
            k = exp[s.axis]
            if k[0] == 'places':
                if s.places is None:
                    return '?'
                if s.places != k[1]:
                    return 'axis %d selects %s, not %s' % (s.axis, s.places, k[1])
                continue
            r = self.same_key(s.key or ('full',), k)
            if r:
                return r if r == '?' else 'axis %d: %s' % (s.axis, r)
        for i, k in enumerate(exp):
            if k[0] == 'int':
                if i not in self.done:
                    return 'axis %d is not indexed' % i
                g = self.done[i]
                if isinstance(g, list):
                    if g != k[1]:
                        return 'axis %d selects %s, not %s' % (i, g, k[1])
                    continue
                r = self.same_key(g, k)
                if r:
                    return r if r == '?' else 'axis %d: %s' % (i, r)
        return ''

    def same_key(self, g, k):
        if g[0] != k[0]:
            return 'selected by %s, not %s' % (self.text(g), self.text(k))
        if g[0] == 'full':
            return ''
        a = g[1] if isinstance(g[1], list) else list(g[1].a) if g[1].op == 'slice' else [g[1]]
        b = k[1] if isinstance(k[1], list) else list(k[1].a) if k[1].op == 'slice' else [k[1]]
        if len(a) != len(b):
            return 'selected by %s, not %s' % (self.text(g), self.text(k))
        for x, y in zip(a, b):
            if x.sid == y.sid:
                continue
            if x.op in ('sym', 'const') and y.op in ('sym', 'const'):
                return 'selected by %s, not %s' % (self.text(g), self.text(k))
            return '?'
        return ''

    # ------------------------------------------------------------- key kinds
    def make(self, kind, ax, n):
        """(key or fn(I, st) -> key, expected, facts)"""
        C = self.C
        i, j = C.int('i%d' % ax, 0), C.int('j%d' % ax, 0)
        fs = [mk_cmp('<', i, n), mk_cmp('<', j, n)]
        if kind == 'full':
            return FULL, ('full',), []
        if kind == 'int':
            return i, ('int', i), fs
        if kind == 'slice':
            s = T('slice', i, j, NONE)
            return s, ('slice', s), []
        if kind == 'tuple':
            return T('tuple', i, j), ('seq', [i, j]), fs
        if kind == 'list':
            return (lambda I, s: self.keep(I.new_list(s, [i, j]))), ('seq', [i, j]), fs
        if kind == 'iter':
            return (lambda I, s: I.mark_once(I.new_list(s, [i, j]), s)), ('seq', [i, j]), fs
        if kind == 'array':
            return C.ndint('a%d' % ax, items=[i, j]), ('seq', [i, j]), fs
        m = C.ndbool('m%d' % ax, n)
        return m, ('mask', m), []

    def keep(self, v):
        self.lists.append(v)
        return v

    def key(self, keys, wrap=True):
        def fn(I, s):
            ks = [k(I, s) if callable(k) else k for k in keys]
            return T('tuple', *ks) if len(ks) > 1 or wrap else ks[0]
        return fn

    def convert(self, rule, lab, r, exp, ortho, methods=(('ndarray', ''),
                                                         ('masked_array', '-masked'))):
        for m, suf in methods:
            c = self.C.method(r.val, m, st=r.st.copy())
            self.check(rule + suf, lab + '.%s()' % m, c, exp, r.st, ortho)

    def adapter(self, cn):
        C, I, chk = self.C, self.I, self.chk
        ortho = cn != 'NumpyArrayAdapter'
        ranks = (1, 2, 3, 4)
        for rank in ranks:
            X = self.X = C.concrete('X', rank)
            dims = list(I.info(X)['attrs']['shape'].a)
            r0 = C.call(cn, [X])
            kinds = KINDS if rank < 4 else ('full', 'int', 'tuple') if self.tier == 'quick' \
                else ('full', 'int', 'slice', 'tuple', 'mask')
            for combo in itertools.product(kinds, repeat=rank):
                if rank == 3 and self.tier == 'quick' and \
                        sum(k in ('list', 'array', 'iter') for k in combo) > 1:
                    continue
                self.lists = []
                made = [self.make(k, a, n) for a, (k, n) in enumerate(zip(combo, dims))]
                exp = [m[1] for m in made]
                facts = [f for m in made for f in m[2]]
                mk = self.key([m[0] for m in made])
                lab = 'biggus.%s (rank %d)[%s]' % (cn, rank, ', '.join(combo))
                r = C.run(lambda I_, s: I_.getitem(r0.val, mk(I_, s), s), st=r0.st.copy(),
                          assume=facts)
                if r.dead:
                    names = r.exc_names()
                    chk.verdict(None if r.unsupported or not names else False, 'orthogonal',
                                lab, lab.split('[')[0], 'raises %s' % ', '.join(names))
                    continue
                self.convert('orthogonal', lab, r, exp, ortho)
                if self.lists:
                    s = r.st.copy()
                    z = C.int('z', 0)
                    for v in self.lists:
                        s.put(v.a[0], Lst((z, z, z)))
                    c = C.method(r.val, 'ndarray', st=s)
                    self.check('captured-list', lab, c, exp, s, ortho)
                if 'iter' in combo:
                    c = C.method(r.val, 'ndarray', st=r.st.copy())
                    if not c.dead:
                        c = C.method(r.val, 'ndarray', st=c.st)
                        self.check('captured-iterator', lab, c, exp, r.st, ortho)
                if rank <= 2:
                    mk = self.key([m[0] for m in made])
                    k = C.run(lambda I_, s: I_.call(C.get(cn), [X, mk(I_, s)], {}, s),
                              assume=facts)
                    lab = 'biggus.%s(X, (%s))' % (cn, ', '.join(combo))
                    if k.dead:
                        names = k.exc_names()
                        chk.verdict(None if k.unsupported or not names else False,
                                    'constructor-keys', lab, lab.split('(')[0],
                                    'raises %s' % ', '.join(names))
                        continue
                    self.convert('constructor-keys', lab, k, exp, ortho,
                                 [('ndarray', '')])

    def composed(self, cn):
        """Two successive indices with keys of every kind over constant sizes."""
        C, I, chk = self.C, self.I, self.chk
        ortho = cn != 'NumpyArrayAdapter'
        sizes = (6, 5, 4)
        first = [slice(None), slice(1, 6, 2), slice(None, None, -1), (3, 0, 3), 2, -1, 'mask']
        second = [slice(None), slice(None, None, -1), slice(1, None), (1, 0), (-1, 1), 1, -2,
                  'mask']
        for rank in (2, 3):
            X = self.X = I.sym('X', 'concrete', ndim=rank, attrs={
                'shape': T('tuple', *map(const, sizes[:rank])), 'dtype': C.dtype('X.dtype')})
            r0 = C.call(cn, [X])
            for n1, k1 in enumerate(itertools.product(first, repeat=rank)):
                if rank == 3 and n1 % (7 if self.tier == 'quick' else 3):
                    continue
                places = []
                for k, n in zip(k1, sizes):
                    places.append(self.pick(list(range(n)), k))
                r1 = C.run(lambda I_, s: I_.getitem(r0.val, self.term(k1, sizes), s),
                           st=r0.st.copy())
                lab1 = 'biggus.%s%s[%s]' % (cn, list(sizes[:rank]), self.show(k1))
                if r1.dead:
                    chk.verdict(None if r1.unsupported else False, 'composed', lab1,
                                'biggus.' + cn, 'raises %s' % exc_text(r1))
                    continue
                left = [i for i, p in enumerate(places) if p[0] == 'places']
                for n2, k2 in enumerate(itertools.product(second, repeat=len(left))):
                    if (n1 + n2) % (5 if self.tier == 'quick' else 2) and len(left) > 1:
                        continue
                    exp, ok = list(places), True
                    for a, k in zip(left, k2):
                        p = places[a][1]
                        try:
                            exp[a] = self.pick(p, k)
                        except IndexError:
                            ok = False
                    if not ok or not k2:
                        continue
                    r = C.run(lambda I_, s: I_.getitem(r1.val, self.term(
                        k2, [len(places[a][1]) for a in left]), s),
                              st=r1.st.copy())
                    lab = '%s[%s]' % (lab1, self.show(k2))
                    if r.dead:
                        chk.verdict(None if r.unsupported else False, 'composed', lab,
                                    'biggus.' + cn, 'raises %s' % exc_text(r))
                        continue
                    self.convert('composed', lab, r, exp, ortho, [('ndarray', '')])

    def shared(self):
        """A one-shot iterable that indexes several arrays serves all of them."""
        C, I, chk = self.C, self.I, self.chk
        n0, n1 = C.int('n0', 1), C.int('n1', 1)
        d, f = C.dtype('d'), I.sym('f', 'npscalar')
        P = [C.array('P%d' % i, 2, shape=[n0, n1], dtype=d, fill=f, plain=True)
             for i in range(3)]
        A, B = P[:2]
        v = I.sym('v', 'npscalar')
        cases = [('add(A, B)', ('add', [A, B]), [n0, n1]),
                 ('subtract(A, 2)', ('subtract', [A, const(2)]), [n0, n1]),
                 ('sqrt(A)', ('sqrt', [A]), [n0, n1]),
                 ('TransposedArray(A)', ('TransposedArray', [A]), [n1, n0]),
                 ('masked_equal(A, v)', ('masked_equal', [A, v]), [n0, n1]),
                 ('mean(A, 0)', ('mean', [A, ZERO]), [n1]),
                 ('std(A, 1)', ('std', [A, const(1)]), [n0]),
                 ('NewAxesArray(A)', ('NewAxesArray', [A, T('tuple', *[ZERO] * 3)]),
                  [n0, n1]),
                 ('ArrayStack([A, B, C])', ('ArrayStack', [P]), [None, n0, n1]),
                 ('LinearMosaic([A, B, C], 0)', ('LinearMosaic', [P, ZERO]), [None, n1]),
                 ('LinearMosaic([A, B, C], 1)', ('LinearMosaic', [P, const(1)]), [n0, None])]
        for lab, (fn, args), dims in cases:
            name = 'biggus.' + lab
            if C.get(fn) is None:
                continue
            r0 = C.run(lambda I_, s: I_.call(C.get(fn), [
                I_.new_list(s, a) if isinstance(a, list) else a for a in args], {}, s))
            if r0.dead:
                chk.dunno('captured-iterator', name, exc_text(r0))
                continue
            for ax, n in enumerate(dims):
                if n is None:
                    continue
                for others in ('full', 'int'):
                    i, j = C.int('i', 0), C.int('j', 0)
                    fs = [mk_cmp('<', i, n), mk_cmp('<', j, n)]
                    ks = [FULL] * len(dims)
                    if others == 'int':
                        if len(dims) == 1:
                            continue
                        o = (ax + 1) % len(dims)
                        if dims[o] is None:
                            continue
                        ks[o] = k = C.int('k', 0)
                        fs.append(mk_cmp('<', k, dims[o]))

                    def go(I_, s):
                        ks[ax] = I_.mark_once(I_.new_list(s, [i, j]), s)
                        return I_.getitem(r0.val, T('tuple', *ks), s)
                    r = C.run(go, st=r0.st.copy(), assume=fs)
                    key = '%s[%s]' % (name, ', '.join(
                        'iter' if x == ax else ':' if ks[x].op == 'slice' else 'int'
                        for x in range(len(dims))))
                    if r.dead:
                        chk.verdict(None if r.unsupported else False, 'captured-iterator', key,
                                    name, 'raises %s' % exc_text(r))
                        continue
                    used, got = {}, 0
                    for e in r.events:
                        if e['kind'] != 'index' or e['obj'].op != 'sym':
                            continue
                        for x in (e['key'].a if e['key'].op == 'tuple' else [e['key']]):
                            if x.op == 'ref' and x.a[0] in I.once:
                                used.setdefault(x.a[0], []).append(e)
                            elif contains_sid(x, i.sid):
                                got += 1
                    two = [v for v in used.values() if len(v) > 1]
                    if two:
                        chk.bad('captured-iterator', key, loc(two[0][1]),
                                'the iterable indexes %d arrays, the first exhausts it'
                                % len(two[0]))
                    elif used or got:
                        chk.ok('captured-iterator', key)
                    else:
                        chk.dunno('captured-iterator', key, 'no index of a source understood')

    def truth(self, n):
        return [i % 3 != 1 for i in range(n)]

    def pick(self, p, k):
        if isinstance(k, int):
            return ('int', [p[k]])
        if k == 'mask':
            return ('places', [x for x, y in zip(p, self.truth(len(p))) if y])
        return ('places', p[k] if isinstance(k, slice) else [p[i] for i in k])

    def term(self, ks, ns):
        out = []
        for k, n in zip(ks, ns):
            if k == 'mask':
                b = self.C.ndbool('m%d' % n, const(n))
                out.append(self.I.sym('truth%d' % n, 'ndbool', **dict(
                    {x: y for x, y in self.I.info(b).items() if x != 'kind'},
                    truth=self.truth(n))))
            else:
                out.append(T('slice', *[const(x) for x in (k.start, k.stop, k.step)])
                           if isinstance(k, slice) else const(k) if isinstance(k, int)
                           else T('tuple', *map(const, k)))
        return T('tuple', *out)

    def show(self, ks):
        return ', '.join(('%s:%s:%s' % (k.start, k.stop, k.step)).replace('None', '')
                         if isinstance(k, slice) else str(k) for k in ks)


def check(chk, root, tier):
    C = Ctx(root)
    C.I.hyp = not_masked_constant
    q = Q(chk, C, tier)
    for cn in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
        if C.get(cn) is None:
            chk.bad('orthogonal', 'biggus.' + cn, 'biggus.' + cn, 'the class is gone')
            continue
        q.adapter(cn)
        q.composed(cn)
    q.shared()
    chk.assumptions = [
        'A data source behind NumpyArrayAdapter follows NumPy indexing, one behind '
        'OrthoArrayAdapter applies the key of each axis independently.',
        'NumPy indexing: one index sequence beside integers keeps its place only when the '
        'two are adjacent; several sequences are combined element by element.',
        'Single indices: symbolic keys of symbolic sizes, every combination of kinds to '
        'rank 3 (4 thorough).  Composed indices: constant sizes and keys.',
    ]
    return [C]
