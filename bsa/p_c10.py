"""C10: out-of-range indices raise IndexError; negative indices count from the end."""
from .ctx import *        # noqa
from .norm import *       # noqa

RULES = {
    'out-of-range': 'an integer outside [-n, n) raises IndexError, or is passed unchanged to '
                    'the same axis of a source, which raises',
    'out-of-range-sequence': 'the same for an integer inside an index sequence',
    'in-range': 'an integer in [-n, n) is accepted',
    'in-range-sequence': 'a sequence of integers in range is accepted',
    'selected': 'the element at the index, or at index + n when negative, is selected',
    'selected-sequence': 'the elements at the indices of the sequence are selected',
}
CLS = ('pos', 'neg', 'at the size', 'over', 'one under', 'under')
OUT = CLS[2:]


def neg(n):
    return const(-n.a[0]) if n.op == 'const' else T('neg', n)


def facts(k, n, cls):
    return {'pos': [mk_cmp('<=', ZERO, k), mk_cmp('<', k, n)],
            'neg': [mk_cmp('<', k, ZERO), mk_cmp('<=', neg(n), k)],
            'at the size': [mk_cmp('<=', n, k), mk_cmp('<=', k, n)],
            'over': [mk_cmp('<=', n, k), mk_cmp('<', n, k)],
            'one under': [mk_cmp('<', k, neg(n)),
                          mk_cmp('<=', mk_bin('-', neg(n), ONE), k)],
            'under': [mk_cmp('<', k, neg(n)),
                      mk_cmp('<', k, mk_bin('-', neg(n), ONE))]}[cls]


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier

    # ----------------------------------------------------------------- verdicts
    def has(self, e, k):
        """Positions at which an index event carries k unchanged (or inside a sequence)."""
        ks = self.keys(e)
        if ks is None:
            return []
        out = []
        for p, x in enumerate(ks):
            st = e.get('st')
            its = [x] if x.op != 'tuple' else list(x.a)
            if x.op in ('list', 'ndlist'):
                its = list(x.a)
            if x.op == 'ref' or self.I.info(x).get('items'):
                its = self.items(x) or [x]
            if any(y.sid == k.sid for y in its):
                out.append(p)
        return out

    def keys(self, e):
        key = e['key']
        if key.op == 'tuple':
            return list(key.a)
        if key.op in ('const', 'sym', 'slice'):
            return [key]
        return None

    def items(self, x):
        i = self.I.info(x).get('items')
        return list(i) if i else None

    def delegated(self, r, k, size):
        """The axis key k reaches a source axis of that size: the source checks it."""
        for e in r.events:
            if e['kind'] != 'index':
                continue
            o = e['obj']
            i = self.I.info(o)
            if i.get('kind') not in ('array', 'nd', 'ma', 'concrete'):
                continue
            # `pieces`: one of these, it is not known which
            shs = [self.I.info(x).get('attrs', {}).get('shape')
                   for x in i.get('pieces') or ([o] if o.op == 'sym' else [None])]
            for p in self.has(e, k):
                if all(sh is not None and p < len(sh.a) and self.same(sh.a[p], size)
                       for sh in shs):
                    return True
        return False

    def same(self, a, b):
        d = lin_sub(lin(a), lin(b))
        return not d[0] and not d[1]

    def out(self, rule, lab, r, k, size):
        chk, site = self.chk, lab.split('[')[0]
        if r.dead:
            names = r.exc_names()
            if names and all(x == 'IndexError' for x in names):
                chk.ok(rule, lab, 'raises IndexError')
            elif r.unsupported or not names:
                chk.dunno(rule, lab, str(r.unsupported[:2]))
            elif 'IndexError' in names:
                chk.dunno(rule, lab, 'raises %s' % ', '.join(names))
            else:
                chk.bad(rule, lab, site, 'raises %s' % ', '.join(names))
            return
        if self.delegated(r, k, size):
            chk.ok(rule, lab, 'passed on unchanged')
            return
        v = False
        if r.unsupported or 'IndexError' in r.exc_names() or unk_in(r.val) or \
                self.touches(r, k):
            v = None
        chk.verdict(v, rule, lab, site, 'accepted' if v is False else 'not understood: %s %s'
                    % (exc_text(r), r.unsupported[:2]))

    def touches(self, r, k):
        """k reaches a source in a way that is not understood."""
        for e in r.events:
            if e['kind'] == 'index' and contains_sid(e['key'], k.sid) and \
                    self.I.info(e['obj']).get('kind') in ('array', 'nd', 'ma', 'concrete'):
                sh = self.I.info(e['obj']).get('attrs', {}).get('shape')
                ks = self.keys(e)
                if sh is None or ks is None:
                    return True
                for p, x in enumerate(ks):
                    # an unchanged key on another axis is wrong, anything else unknown
                    if contains_sid(x, k.sid) and x.sid != k.sid:
                        return True
        return False

    def inr(self, rule, lab, r):
        chk, site = self.chk, lab.split('[')[0]
        if r.dead:
            names = r.exc_names()
            if names == ['NotImplementedError']:
                return False
            chk.verdict(None if r.unsupported or not names else False, rule, lab, site,
                        'raises %s' % ', '.join(names))
            return False
        if 'IndexError' in r.exc_names():
            chk.dunno(rule, lab, 'may raise %s' % ', '.join(r.exc_names()))
        else:
            chk.ok(rule, lab)
        return True

    def get(self, r0, keys, assume=()):
        def fn(I, s):
            return I.getitem(r0.val, T('tuple', *[x(s) if callable(x) else x for x in keys])
                             if len(keys) > 1 else keys[0](s) if callable(keys[0])
                             else keys[0], s)
        return self.C.run(fn, st=r0.st.copy(), assume=assume)

    # ---------------------------------------------------------- generic classes
    def axes(self, name, r0, dims, own=(), only=None):
        """dims: the size of each axis.  own: axes without a source axis behind them."""
        C, I, chk = self.C, self.I, self.chk
        if r0.dead or r0.val.op != 'ref':
            chk.dunno('in-range', name, 'construction: %s %s' % (exc_text(r0),
                                                                 r0.unsupported[:1]))
            return
        rank = len(dims)
        for ax, n in enumerate(dims):
            if only is not None and ax not in only:
                continue
            for np_ in (None, True):
                for cls in CLS:
                    k = I.sym('k', 'int', np=True) if np_ else C.int('j')
                    keys = [FULL] * rank
                    keys[ax] = k
                    lab = '%s[%s] on axis %d%s' % (name, cls, ax, ' (np.integer)' if np_ else '')
                    r = self.get(r0, keys, facts(k, n, cls))
                    if cls in OUT:
                        self.out('out-of-range', lab, r, k, n)
                    elif self.inr('in-range', lab, r) and ax not in own:
                        self.sel('selected', lab, r, k, n, cls)
                    # together with another integer
                    if np_ is None and rank > 1:
                        o = (ax + 1) % rank
                        keys[o] = j = C.int('other')
                        r = self.get(r0, keys, facts(k, n, cls) + facts(j, dims[o], 'pos'))
                        lab = '%s[%s] on axis %d, in range on axis %d' % (name, cls, ax, o)
                        if cls in OUT:
                            self.out('out-of-range', lab, r, k, n)
                        elif self.inr('in-range', lab, r) and ax not in own:
                            self.sel('selected', lab, r, k, n, cls)
                if np_:
                    continue
                for seq in ('tuple', 'array'):
                    for place in (0, 1):
                        for cls in CLS:
                            k, o = C.int('j'), C.int('good')
                            it = [o, k] if place else [k, o]
                            if seq == 'array':
                                q = C.ndint('idx', items=it)
                            else:
                                q = T('tuple', *it)
                            keys = [FULL] * rank
                            keys[ax] = q
                            if rank == 1 and seq == 'tuple':
                                keys = [T('tuple', q)]
                            lab = '%s[%s of good and %s] on axis %d, place %d' % (
                                name, seq, cls, ax, place)
                            ok = self.get(r0, keys, facts(k, n, 'pos') + facts(o, n, 'pos'))
                            if ok.dead:
                                # sequences are refused on this axis altogether
                                if cls == 'pos' and ok.exc_names() == ['IndexError']:
                                    self.inr('in-range-sequence', lab, ok)
                                continue
                            r = self.get(r0, keys, facts(k, n, cls) + facts(o, n, 'pos'))
                            if cls in OUT:
                                self.out('out-of-range-sequence', lab, r, k, n)
                            elif self.inr('in-range-sequence', lab, r) and ax not in own:
                                self.sel('selected-sequence', lab, r, k, n, cls)

    def sel(self, rule, lab, r, k, n, cls):
        """The index that reaches the source of this axis is k (or k + n)."""
        chk, I = self.chk, self.I
        conv = self.C.method(r.val, 'ndarray', st=r.st.copy()) if not r.dead else None
        evs = [e for e in list(r.events) + (conv.events if conv else [])
               if e['kind'] in ('index', 'read') and e.get('key') is not None and
               I.info(e['obj']).get('kind') in ('array', 'concrete', 'nd', 'ma')]
        ok, bad = False, None
        for e in evs:
            i = I.info(e['obj'])
            sh = i.get('attrs', {}).get('shape')
            for p, x in enumerate(self.keys(e) or ()):
                if i.get('pieces') and sh is None:
                    shs = [I.info(y)['attrs']['shape'] for y in i['pieces']]
                    if all(p < len(y.a) and self.same(y.a[p], n) for y in shs):
                        sh = shs[0]
                its = list(x.a) if x.op == 'tuple' else self.items(x) or [x]
                for y in its:
                    if not contains_sid(y, k.sid) or sh is None or p >= len(sh.a):
                        continue
                    if not self.same(sh.a[p], n):
                        bad = 'reaches axis %d of %s' % (p, e['obj'])
                        continue
                    d = lin_sub(lin(y), lin(k))
                    m = lin_sub(d, lin(n))
                    if not d[0] and not d[1] or (cls == 'neg' and not m[0] and not m[1]):
                        ok = True
                    elif all(t.op == 'sym' for _, t in d[1].values()):
                        bad = 'selects %s' % y
        if bad:
            chk.bad(rule, lab, lab.split('[')[0], bad)
        elif ok:
            chk.ok(rule, lab)
        else:
            chk.dunno(rule, lab, 'the selection is not understood')

    # ------------------------------------------------------------- the classes
    def all(self):
        C, I = self.C, self.I
        n0, n1, n2 = C.int('n0', 0), C.int('n1', 0), C.int('n2', 0)
        A = C.array('A', 2, shape=[n0, n1], plain=True)
        A3 = C.array('A3', 3, shape=[n0, n1, n2], plain=True)
        A1 = C.array('A1', 1, shape=[n0], plain=True)
        for cn in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
            if C.get(cn) is None:
                continue
            for n in (1, 2, 3):
                X = C.concrete('X', n)
                xs = list(I.items(I.info(X)['attrs']['shape'], C.st0))
                self.axes('biggus.%s (rank %d)' % (cn, n), C.call(cn, [X]), xs)
        f = C.get('ConstantArray')
        for sh in ([n0], [n0, n1], [n0, n1, n2]):
            self.axes('biggus.ConstantArray (rank %d)' % len(sh),
                      C.call('ConstantArray', [T('tuple', *sh)]), sh, own=range(3))
        self.axes('biggus.zeros', C.call('zeros', [T('tuple', n0, n1)]), [n0, n1], own=(0, 1))
        self.axes('biggus.TransposedArray', C.call('TransposedArray', [A]), [n1, n0])
        for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1)):
            self.axes('biggus.TransposedArray %s' % (p,), C.call(
                'TransposedArray', [A3, T('tuple', *map(const, p))]),
                [(n0, n1, n2)[i] for i in p])
        self.axes('biggus.AsDataTypeArray', C.call('AsDataTypeArray', [A, C.dtype('t')]),
                  [n0, n1])
        self.axes('biggus.masked_equal', C.call('masked_equal', [A, I.sym('v', 'npscalar')]),
                  [n0, n1])
        self.axes('biggus.ArrayContainer', C.call('ArrayContainer', [A]), [n0, n1])
        L, L2 = C.int('L', 2), C.int('L2', 1)
        for sh, ax in (([ONE, n1], 0), ([n0, ONE], 1), ([n0, ONE, n2], 1), ([ONE], 0)):
            B = C.array('B', len(sh), shape=sh, plain=True)
            for lead in ((), (L2,)):
                r0 = C.run(lambda I_, s: I_.call(C.get('BroadcastArray'), [
                    B, I_.alloc(s, Dct([(const(ax), L)])), T('tuple', *lead)], {}, s))
                full = list(lead) + sh[:ax] + [L] + sh[ax + 1:]
                self.axes('biggus.BroadcastArray (shape %s, axis %d, leading %d)' % (
                    [str(x) for x in sh], ax, len(lead)), r0, full,
                    own=[len(lead) + ax] + list(range(len(lead))))
        for what, new in (('first', (1, 0, 0)), ('last', (0, 0, 1)), ('middle', (0, 2, 0)),
                          ('none', (0, 0, 0))):
            r0 = C.call('NewAxesArray', [A, T('tuple', *map(const, new))])
            dims, own = [], []
            for i in range(3):
                for _ in range(new[i]):
                    own.append(len(dims))
                    dims.append(ONE)
                if i < 2:
                    dims.append((n0, n1)[i])
            self.axes('biggus.NewAxesArray (%s)' % what, r0, dims, own)
        B = C.array('B', 2, shape=[n0, n1], plain=True)
        for fn, args, dims in (
                ('sqrt', [A], [n0, n1]), ('add', [A, B], [n0, n1]),
                ('subtract', [A, const(2)], [n0, n1]), ('multiply', [const(2), A], [n0, n1]),
                ('power', [A, A], [n0, n1])):
            self.axes('biggus.%s(%s)' % (fn, ', '.join(map(str, args))), C.call(fn, args), dims)
        m0, m1 = C.int('m0', 2), C.int('m1', 2)
        X, Y = (C.array('X', 2, shape=[m0, ONE], plain=True),
                C.array('Y', 2, shape=[ONE, m1], plain=True))
        Z = C.array('Z', 1, shape=[m1], plain=True)
        F = C.array('F', 2, shape=[m0, m1], plain=True)
        for what, args in (('[m,1], [1,n]', [X, Y]), ('[m,n], [n]', [F, Z]),
                           ('[m,1], [m,n]', [X, F]), ('[n], [m,1]', [Z, X])):
            self.axes('biggus.add of shapes %s' % what, C.call('add', args), [m0, m1])
        for fn in ('count', 'min', 'max', 'sum', 'mean', 'std', 'var'):
            if C.get(fn) is None:
                continue
            for n in (2, 3):
                a, d = ((A, [n0, n1]), (A3, [n0, n1, n2]))[n - 2]
                for ax in range(n):
                    self.axes('biggus.%s(rank %d, axis=%d)' % (fn, n, ax),
                              C.call(fn, [a], {'axis': const(ax)}), d[:ax] + d[ax + 1:])
        self.stacks(n1)
        self.mosaic_sym(n1)
        self.mosaic()
        self.adapters()

    def stacks(self, n1):
        C, I, chk = self.C, self.I, self.chk
        d, f = C.dtype('d'), I.sym('f', 'npscalar')
        P = [C.array('P%d' % i, 1, shape=[n1], dtype=d, fill=f, plain=True) for i in range(6)]
        one = C.run(lambda I_, s: I_.call(C.get('ArrayStack'), [I_.new_list(s, P[:3])], {}, s))
        two = C.run(lambda I_, s: I_.call(C.get('ArrayStack'), [I_.new_list(s, [
            I_.new_list(s, P[:3]), I_.new_list(s, P[3:])])], {}, s))
        self.axes('biggus.ArrayStack (1-D)', one, [const(3), n1], own=(0,))
        for nm, r0, dims in (('1-D', one, [3]), ('2-D', two, [2, 3])):
            if r0.dead or r0.val.op != 'ref':
                chk.dunno('in-range', 'biggus.ArrayStack (%s)' % nm, 'construction')
                continue
            for ax, n in enumerate(dims):
                for k in range(-n - 2, n + 2):
                    others = [None] if len(dims) == 1 else \
                        [FULL, ZERO, const(-1), const(1)]
                    for o in others:
                        keys = [const(k)]
                        if o is not None:
                            keys.insert(1 - ax, o)
                        lab = 'biggus.ArrayStack (%s)[%s]' % (nm, ', '.join(
                            ':' if x.op == 'slice' else str(x) for x in keys))
                        r = self.get(r0, keys)
                        if not -n <= k < n:
                            self.out('out-of-range', lab, r, const(k), const(n))
                            continue
                        if not self.inr('in-range', lab, r):
                            continue
                        pos = [range(m)[x.a[0]] if x.op == 'const' else None
                               for x, m in zip(keys, dims)]
                        exp = [i for i in range(dims[0] * dims[-1] if len(dims) > 1
                                                else dims[0])
                               if all(p is None or p == q for p, q in zip(
                                   pos, (i // 3, i % 3) if len(dims) > 1 else (i,)))]
                        self.pieces(lab, r, ['P%d' % i for i in exp])

    def pieces(self, lab, r, exp):
        """The converted result holds exactly these pieces, in order."""
        c = self.C.method(r.val, 'ndarray', st=r.st.copy())
        if c.dead:
            self.chk.dunno('selected', lab, 'conversion %s' % exc_text(c))
            return
        got = []
        for x in self.order(c.val):
            if x.op == 'sym' and x.a[0][0] == 'P' and x.a[0] not in got:
                got.append(x.a[0])
        v = got == exp
        if not v and (unk_in(c.val) or not got):
            v = None
        self.chk.verdict(v, 'selected', lab, lab.split('[')[0], 'pieces %s, not %s' % (
            got, exp))

    def order(self, t):
        yield t
        for x in children(t):
            for y in self.order(x):
                yield y

    def mosaic_sym(self, n1):
        C, I = self.C, self.I
        d, f = C.dtype('d'), I.sym('f', 'npscalar')
        for nt in (1, 2, 3):
            for ax in (0, 1):
                P = []
                tot = None
                for i in range(nt):
                    q = C.int('q%d' % i, 0)
                    tot = q if tot is None else T('bin', '+', tot, q)
                    P.append(C.array('P%d' % i, 2, shape=[n1, q] if ax else [q, n1], dtype=d,
                                     fill=f, plain=True))
                r0 = C.run(lambda I_, s: I_.call(C.get('LinearMosaic'), [
                    I_.new_list(s, P), const(ax)], {}, s))
                self.axes('biggus.LinearMosaic (%d tiles along axis %d)' % (nt, ax), r0,
                          [n1, tot] if ax else [tot, n1], own=(ax,), only=(0,))

    def mosaic(self):
        """Every index of mosaics of a few constant tile lengths."""
        C, I, chk = self.C, self.I, self.chk
        d, f = C.dtype('d'), I.sym('f', 'npscalar')
        n1 = C.int('n1', 0)
        lens = [(3,), (2, 3, 1), (1, 1, 1), (2, 0, 3), (1, 2), (3, 1)]
        if self.tier != 'quick':
            lens += [(0, 2), (2, 0), (1, 1, 1, 1, 1), (4, 3, 2, 1), (5, 1, 5), (0, 0, 2)]
        for ln in lens:
            for ax in (0, 1):
                P = [C.array('P%d' % i, 2, shape=[n1, const(m)] if ax else [const(m), n1],
                             dtype=d, fill=f, plain=True) for i, m in enumerate(ln)]
                r0 = C.run(lambda I_, s: I_.call(C.get('LinearMosaic'), [
                    I_.new_list(s, P), const(ax)], {}, s))
                if r0.dead:
                    chk.dunno('selected', 'biggus.LinearMosaic %s' % (ln,), exc_text(r0))
                    continue
                where = [(i, j) for i, m in enumerate(ln) for j in range(m)]
                n = len(where)
                if not ax:
                    self.axes('biggus.LinearMosaic (lengths %s, axis 0)' % (list(ln),), r0,
                              [const(n), n1], own=(0,), only=(1,))
                for k in range(-n - 2, n + 2):
                    lab = 'biggus.LinearMosaic (lengths %s, axis %d)[%d]' % (list(ln), ax, k)
                    keys = [FULL, const(k)] if ax else [const(k)]
                    r = self.get(r0, keys)
                    if not -n <= k < n:
                        self.out('out-of-range', lab, r, const(k), const(n))
                    elif self.inr('in-range', lab, r):
                        self.tile(lab, r, P, ax, [where[k]])
                if ax:
                    continue
                seqs = [(i, j) for i in range(-n, n) for j in range(-n, n)][::5] + \
                    [tuple(range(n)), tuple(range(-1, -n - 1, -1)), (0, n - 1, 0), (-1,)]
                for sq in seqs:
                    r = self.get(r0, [T('tuple', *map(const, sq)), FULL])
                    lab = 'biggus.LinearMosaic (lengths %s)[%s]' % (list(ln), sq)
                    if self.inr('in-range-sequence', lab, r):
                        self.tile(lab, r, P, ax, [where[k] for k in sq])
                for sq in ((0, n), (-n - 1, 0), (n,), (0, -n - 1, 0)):
                    r = self.get(r0, [T('tuple', *map(const, sq)), FULL])
                    lab = 'biggus.LinearMosaic (lengths %s)[%s]' % (list(ln), sq)
                    self.out('out-of-range-sequence', lab, r, const(sq[-1]), const(n))

    def tile(self, lab, r, P, ax, exp):
        """The index reached the right tiles at the right places."""
        got = []
        for e in r.events:
            if e['kind'] != 'index' or e['obj'].op != 'sym' or e['obj'].a[0] not in [
                    p.a[0] for p in P]:
                continue
            t = [p.a[0] for p in P].index(e['obj'].a[0])
            m = self.I.info(e['obj'])['attrs']['shape'].a[ax]
            ks = self.keys(e)
            if ks is None:
                got = None
                break
            if len(ks) <= ax:
                got.extend((t, i) for i in range(m.a[0]))
                continue
            k = ks[ax]
            its = None
            if k.op == 'const' and isinstance(k.a[0], int):
                its = [k.a[0]]
            elif k.op == 'slice' and all(is_const(x) for x in k.a):
                its = list(range(m.a[0]))[slice(*[x.a[0] for x in k.a])]
            else:
                xs = self.C.I.items(k, r.st) if k.op in ('ref', 'tuple') else \
                    list(k.a) if k.op in ('ndlist', 'list') else self.items(k)
                if xs is not None and all(x.op == 'const' for x in xs):
                    its = [x.a[0] for x in xs]
            if its is None:
                got = None
                break
            got += [(t, i % m.a[0] if -m.a[0] <= i < m.a[0] else ('outside', i)) for i in its]
        rule = 'selected' if len(exp) == 1 else 'selected-sequence'
        if not got:
            self.chk.dunno(rule, lab, 'the selection is not understood')
        else:
            self.chk.verdict(got == exp, rule, lab, lab.split('[')[0],
                             '(tile, index) %s, not %s' % (got[:6], exp[:6]))

    def adapters(self):
        """Indexing a data source that has been sliced before."""
        C, I, chk = self.C, self.I, self.chk
        N = 7
        pre = [slice(1, 6, 2), slice(None, None, -1), slice(5, 0, -2), slice(-3, None),
               slice(0, 100, 3), (4, 0, 4), (-1, 2), slice(3, 3), slice(None)]
        for cn in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
            if C.get(cn) is None:
                continue
            for rank in (1, 2):
                X = I.sym('X', 'concrete', ndim=rank, attrs={
                    'shape': T('tuple', *[const(N), const(4)][:rank]), 'dtype': C.dtype('X.dtype')})
                r0 = C.call(cn, [X])
                for p in pre:
                    sel = list(range(N))[p] if isinstance(p, slice) else [range(N)[i] for i in p]
                    pk = T('slice', *[const(x) for x in (p.start, p.stop, p.step)]) \
                        if isinstance(p, slice) else T('tuple', *map(const, p))
                    keys = [pk] if isinstance(p, slice) else [T('tuple', pk)]
                    r1 = self.get(r0, keys)
                    base = 'biggus.%s (rank %d)[%s]' % (cn, rank, (
                        '%s:%s:%s' % (p.start, p.stop, p.step)).replace('None', '')
                        if isinstance(p, slice) else p)
                    if r1.dead:
                        chk.dunno('selected', base, exc_text(r1))
                        continue
                    n = len(sel)
                    ks = list(range(-n - 2, n + 2)) + \
                        [(i, j) for i in range(-n - 1, n + 1) for j in range(-n - 1, n + 1)][::3]
                    for k in ks:
                        kt = const(k) if isinstance(k, int) else T('tuple', *map(const, k))
                        r = self.get(r1, [kt if isinstance(k, int) else T('tuple', kt)])
                        lab = '%s[%s]' % (base, k)
                        kk = [k] if isinstance(k, int) else list(k)
                        seq = '' if isinstance(k, int) else '-sequence'
                        bad = [x for x in kk if not -n <= x < n]
                        if bad:
                            self.out('out-of-range' + seq, lab, r, kt, const(n))
                        elif self.inr('in-range' + seq, lab, r):
                            self.conc('selected' + seq, lab, r, X,
                                      [sel[x] for x in kk], seq)

    def conc(self, rule, lab, r, X, exp, seq):
        """On conversion the data source is indexed at exactly these places."""
        c = self.C.method(r.val, 'ndarray', st=r.st.copy())
        n = self.I.info(X)['attrs']['shape'].a[0].a[0]
        got = list(range(n))
        seen = gone = False
        for e in c.events:
            if e['kind'] in ('index', 'read') and e.get('obj') is not None and \
                    e['obj'].sid == X.sid and e.get('key') is not None:
                k = e['key'].a[0] if e['key'].op == 'tuple' and e['key'].a else e['key']
            elif e['kind'] == 'call' and e['f'].op == 'ext' and e['f'].a[0] == 'numpy.take':
                ax = e['kw'].get('axis', e['args'][2] if len(e['args']) > 2 else NONE)
                if not seen or ax.op != 'const':
                    got = None
                    break
                if ax.a[0] != 0:
                    continue
                k = e['args'][1]
            else:
                continue
            seen = True
            if got is None or gone:
                break
            if k.op == 'const' and k.a[0] is Ellipsis:
                continue
            if k.op == 'const' and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
                ix = [k.a[0]]
                gone = True         # later reads index other axes
            elif k.op == 'slice' and all(is_const(x) for x in k.a):
                ix = list(range(len(got)))[slice(*[x.a[0] for x in k.a])]
            else:
                its = self.I.items(k, c.st or r.st)
                ix = [x.a[0] for x in its] if its is not None and all(
                    x.op == 'const' for x in its) else None
            if ix is None:
                got = None
            else:
                got = [got[i] if -len(got) <= i < len(got) else -99 for i in ix]
        if not seen:
            got = None
        if got is None:
            self.chk.dunno(rule, lab, 'the selection is not understood')
            return
        self.chk.verdict(got == exp, rule, lab, lab.split('[')[0],
                         'selects %s, not %s' % (got, exp))


def check(chk, root, tier):
    chk.assumptions = [
        'A generic source array raises IndexError for an out-of-range integer itself, so an '
        'index passed on unchanged to a source axis of the same length is checked there.',
        'NumPy raises IndexError when an ndarray or a data source is indexed out of range.',
        'Tile lengths and previous slices are enumerated for the classes which translate '
        'indices (mosaics, adapters); the other classes are analysed for generic sizes.',
    ]
    C = Ctx(root)
    for name in ('NumpyArrayAdapter', 'OrthoArrayAdapter', 'ConstantArray', 'ArrayStack',
                 'LinearMosaic', 'Array'):
        if C.get(name) is None:
            chk.bad('in-range', 'biggus.' + name, 'biggus', 'does not exist')
            return [C]
    Q(chk, C, tier).all()
    return [C]
