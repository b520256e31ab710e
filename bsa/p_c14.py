"""C14: indexing a derived array keeps everything else about it."""
import itertools

from .ctx import *        # noqa
from .norm import *       # noqa
from .diff import diff, isfull, trimmed, keydiff

RULES = {
    'operation': 'converting the indexed array applies the same operation, with the same '
                 'constants, to the sources indexed with the same keys, operands in order',
    'dtype': 'the indexed array declares the dtype of the original',
    'operation-streamed': 'the streams handlers of the indexed array apply the same functions',
    'sources': 'the sources of the indexed array are the original sources, indexed alike',
    'aggregated-axis': 'the indexed aggregation reduces the same source axis',
    'aggregated-options': 'the indexed aggregation has the same handlers and options',
    'permutation': 'an indexed transposed array has the remaining axes in the same order, each '
                   'with its own key',
    'constant': 'an indexed constant array has the same constant and dtype',
    'indexable': 'indexing with valid keys succeeds',
}


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier

    def key(self, kind, i, pre='k'):
        C, nm = self.C, '%s%d' % (pre, i)
        if kind == ':':
            return FULL
        if kind == 's':
            return self.I.sym(nm, 'slice')
        if kind == 'i':
            return C.int(nm)
        if kind == 'a':
            return C.ndint(nm)
        if kind == 'b':
            return C.ndbool(nm)
        if kind == 'l':
            return T('tuple', C.int(nm + '.0'), C.int(nm + '.1'))

    def combos(self, n, kinds):
        for ks in itertools.product(kinds, repeat=n):
            yield ''.join(ks), [self.key(k, i) for i, k in enumerate(ks)]

    def index(self, inst, keys, st):
        k = keys[0] if len(keys) == 1 and keys[0].op != 'tuple' else T('tuple', *keys)
        return self.C.run(lambda I, s: I.getitem(inst, k, s), st=st)

    def indexed(self, lab, inst, keys, st):
        r = self.index(inst, keys, st.copy())
        if r.dead:
            self.chk.verdict(None if r.unsupported else False, 'indexable', lab, lab.split('[')[0],
                             'raises %s' % exc_text(r))
            return None
        return r

    def fullkeys(self, keys, n):
        out = []
        for k in keys:
            if k.op == 'const' and k.a[0] is Ellipsis:
                out += [FULL] * (n - len(keys) + 1)
            else:
                out.append(k)
        return out + [FULL] * (n - len(out))

    # ------------------------------------------------------------ conversions
    def converts(self, rule, lab, inst0, st0, r, m, srcmap, rules_st=None):
        """conv(indexed) == conv(original) with the sources replaced."""
        C, chk = self.C, self.chk
        site = lab.split('[')[0]
        a = C.method(inst0, m, st=st0.copy())
        b = C.method(r.val, m, st=r.st.copy())
        lab = '%s.%s()' % (lab, m)
        if a.dead or b.dead:
            if a.dead and b.dead:
                chk.verdict(a.exc_names() == b.exc_names() or None, rule, lab, site,
                            'raises %s / %s' % (exc_text(a), exc_text(b)))
            else:
                chk.verdict(None if a.unsupported or b.unsupported else False, rule, lab, site,
                            'raises %s; originally %s' % (exc_text(b), exc_text(a)))
            return
        exp = subst(self.scalars(a.val, a.st), srcmap)
        v, msg = diff(self.scalars(b.val, b.st), exp, self.I, b.st)
        chk.verdict(v, rule, lab, site, msg or str(b.val)[:160])

    def scalars(self, t, st):
        """Conversions of wrapped scalar operands, as the scalar they hold."""
        m = {}
        for x in walk(t):
            if x.op == 'conv' and x.a[1].op == 'ref' and not reach(x.a[1], st, self.I):
                vals = set()
                self.literals(x.a[1], st, set(), vals)
                if len(vals) == 1:
                    m[x.sid] = T('conv', x.a[0], T('scalar', const(vals.pop())))
        return subst(t, m) if m else t

    def literals(self, x, st, seen, out):
        if x is None or x.sid in seen:
            return
        seen.add(x.sid)
        if x.op == 'const' and x.a[0] in (2, 2.5):
            out.add(x.a[0])
        r = self.I.rec(x, st)
        sub = list(children(x))
        if isinstance(r, Inst):
            sub += [v for k, v in r.fields.items() if 'shape' not in k]
        if isinstance(r, Lst):
            sub += list(r.items or ())
        for y in sub:
            self.literals(y, st, seen, out)

    def dtypes(self, lab, inst0, st0, r):
        C = self.C
        a = C.attr(inst0, 'dtype', st=st0.copy())
        b = C.attr(r.val, 'dtype', st=r.st.copy())
        if a.dead or b.dead:
            self.chk.dunno('dtype', lab, 'raises')
            return
        v = a.val.sid == b.val.sid
        if not v:
            v = None
            if b.val.op == 'sym' and a.val.op == 'sym':
                v = False
            elif a.val.op == 'sym' and not unk_in(b.val) and \
                    not contains_sid(b.val, a.val.sid):
                v = False
            elif b.val.op == 'sym' and b.val.a[0].endswith('.dtype') and not unk_in(a.val):
                v = False
        self.chk.verdict(v, 'dtype', lab, lab.split('[')[0], '%s, originally %s' % (
            b.val, a.val))

    # --------------------------------------------------------------- classes
    def elementwise(self):
        C, I, chk = self.C, self.I, self.chk
        A = C.array('A', 2, plain=True)
        B = C.array('B', 2, plain=True,
                    shape=list(I.items(I.info(A)['attrs']['shape'], C.st0)))
        for name, args in (('subtract', [A, B]), ('power', [A, A]), ('sqrt', [A]),
                           ('subtract', [const(2), A]), ('copysign', [A, B]),
                           ('divide', [A, const(2.5)])):
            f = C.get(name)
            if f is None:
                continue
            r0 = C.call(f, args)
            if r0.dead or r0.val.op != 'ref':
                chk.dunno('operation', name, 'construction')
                continue
            base = 'biggus.%s(%s)' % (name, ', '.join(str(x) for x in args))
            for kn, keys in list(self.combos(2, ':siabl')) + [
                    ('i', [self.key('i', 0)]), ('s', [self.key('s', 0)]),
                    ('...i', [const(Ellipsis), self.key('i', 1)]), ('...', [const(Ellipsis)])]:
                lab = '%s[%s]' % (base, kn)
                r = self.indexed(lab, r0.val, keys, r0.st)
                if r is None:
                    continue
                full = T('tuple', *self.fullkeys(keys, 2))
                m = {x.sid: T('sub', x, self.I.keyterm(full, r.st)) for x in (A, B)}
                self.converts('operation', lab, r0.val, r0.st, r, 'ndarray', m)
                self.converts('operation', lab, r0.val, r0.st, r, 'masked_array', m)
                self.dtypes(lab, r0.val, r0.st, r)
                self.sources(lab, r0.val, r0.st, r, m)
                self.handlers(lab, r0, r, len(args))
            # indexed twice
            k1, k2 = [self.key('s', 0), self.key('s', 1)], [self.key('i', 0, 'j'),
                                                           self.key('s', 1, 'j')]
            r = self.indexed(base + '[ss]', r0.val, k1, r0.st)
            r2 = r and self.indexed(base + '[ss][is]', r.val, k2, r.st)
            if r2:
                m = {x.sid: T('sub', T('sub', x, T('tuple', *k1)), T('tuple', *k2))
                     for x in (A, B)}
                for meth in ('ndarray', 'masked_array'):
                    self.converts('operation', base + '[ss][is]', r0.val, r0.st, r2, meth, m)
        # operands which are broadcast against each other
        A = C.array('A', 2, plain=True, shape=[C.int('n0', 2), C.int('n1', 2)])
        B = C.array('B', 2, plain=True, shape=list(I.info(A)['attrs']['shape'].a))
        sh = list(I.items(I.info(A)['attrs']['shape'], C.st0))
        for what, X, Y in (('A,B[1d]', A, C.array('B', 1, shape=sh[1:], plain=True)),
                           ('A,B[1,n]', A, C.array('B', 2, shape=[ONE, sh[1]], plain=True)),
                           ('A[n,1],B', C.array('A', 2, shape=[sh[0], ONE], plain=True), B)):
            f = C.get('subtract')
            if f is None:
                break
            r0 = C.call(f, [X, Y])
            if r0.dead or r0.val.op != 'ref':
                chk.dunno('operation', 'subtract(%s)' % what, 'construction')
                continue
            for kn, keys in self.combos(2, 'si'):
                lab = 'biggus.subtract(%s)[%s]' % (what, kn)
                r = self.index(r0.val, keys, r0.st.copy())
                if r.dead:
                    chk.verdict(None if r.unsupported else False, 'indexable', lab,
                                'biggus.subtract', 'raises %s' % exc_text(r))
                    continue
                for meth in ('ndarray', 'masked_array'):
                    b = C.method(r.val, meth, st=r.st.copy())
                    a = C.method(r0.val, meth, st=r0.st.copy())
                    l2 = '%s.%s()' % (lab, meth)
                    if a.dead or b.dead:
                        chk.dunno('operation', l2, 'raises %s' % exc_text(b))
                        continue
                    ta, tb = core(a.val, I, a.st), core(b.val, I, b.st)
                    if ta.op != 'call' or tb.op != 'call':
                        chk.dunno('operation', l2, str(tb)[:100])
                        continue
                    v = ta.a[0].sid == tb.a[0].sid
                    if v:
                        deps = [[sorted(reach(x, s, I)) for x in t.a[1]]
                                for t, s in ((ta, a.st), (tb, b.st))]
                        v = deps[0] == deps[1]
                    if v is False and ta.a[0].sid == tb.a[0].sid and \
                            any(len(x) != 1 for x in deps[0] + deps[1]):
                        v = None
                    chk.verdict(v, 'operation', l2, 'biggus.subtract', str(tb)[:160])

    def sources(self, lab, inst0, st0, r, m):
        C = self.C
        a = C.attr(inst0, 'sources', st=st0.copy())
        b = C.attr(r.val, 'sources', st=r.st.copy())
        if a.dead or b.dead:
            self.chk.dunno('sources', lab, 'raises')
            return
        x, y = C.I.items(a.val, a.st), C.I.items(b.val, b.st)
        if x is None or y is None:
            self.chk.dunno('sources', lab, 'not understood')
            return
        if len(x) != len(y):
            self.chk.bad('sources', lab, lab.split('[')[0], '%d sources instead of %d' % (
                len(y), len(x)))
            return
        worst, msg = True, ''
        for p, q in zip(x, y):
            if p.op == 'ref':
                # a scalar operand stays a scalar; its conversion is compared
                continue
            v, mm = diff(q, subst(p, m), C.I, b.st)
            if v is not True and worst is not False:
                worst, msg = v, mm
        self.chk.verdict(worst, 'sources', lab, lab.split('[')[0], msg)

    def handlers(self, lab, r0, r, n):
        """The streamed operation on generic chunks is the same."""
        C, I, chk = self.C, self.I, self.chk
        for masked in (False, True):
            hs = []
            for x in (r0, r):
                h = C.method(x.val, 'streams_handler', [const(masked)], st=x.st.copy())
                if h.dead:
                    hs.append(('raises', h.exc_names()))
                    continue
                ds = [I.sym('D%d' % i, 'ma' if masked else 'nd', ndim=1,
                            attrs={'dtype': C.dtype('D%d.dtype' % i)}) for i in range(n)]
                keys = I.sym('keys', 'tuple')
                mk = C.run(lambda I_, s: T('tuple', *[
                    I_.call(C.get('Chunk'), [keys, d], {}, s) for d in ds]), st=h.st)
                p = C.run(lambda I_, s: I_.getattr(I_.call(I_.getattr(
                    h.val, 'process_chunks', s), [mk.val], {}, s), 'data', s), st=mk.st)
                hs.append(('raises', p.exc_names()) if p.dead else ('data', p.val, p.st))
            l2 = '%s %s' % (lab, 'masked' if masked else 'plain')
            site = lab.split('[')[0]
            a, b = hs
            if a[0] != b[0]:
                chk.bad('operation-streamed', l2, site, '%s, originally %s' % (
                    str(b[1])[:100], str(a[1])[:100]))
            elif a[0] == 'raises':
                chk.verdict(a[1] == b[1] or None, 'operation-streamed', l2, site,
                            'raises %s' % b[1])
            else:
                v, msg = diff(b[1], a[1], I, b[2])
                chk.verdict(v, 'operation-streamed', l2, site, msg)

    def cast(self):
        C, I = self.C, self.I
        A = C.array('A', 2)
        d = C.dtype('target')
        for what, mk in (('AsDataTypeArray', lambda: C.call('AsDataTypeArray', [A, d])),):
            if C.get(what) is None:
                self.chk.dunno('operation', what, 'class does not exist')
                continue
            self.container(what, A, mk(), 2)
        mv = I.sym('value', 'npscalar')
        f = C.get('masked_equal')
        if f is None:
            self.chk.bad('operation', 'biggus.masked_equal', 'biggus', 'does not exist')
        else:
            self.container('biggus.masked_equal', A, C.call(f, [A, mv]), 2)
        base = C.get('Array')
        S = C.array('S', 2)

    def container(self, name, A, r0, n):
        C, chk = self.C, self.chk
        if r0.dead or r0.val.op != 'ref':
            chk.dunno('operation', name, 'construction: %s %s' % (str(r0.val)[:80],
                                                                 exc_text(r0)))
            return
        for kn, keys in list(self.combos(n, ':siabl')) + [
                ('i', [self.key('i', 0)]), ('s', [self.key('s', 0)]),
                ('...i', [const(Ellipsis), self.key('i', 1)])]:
            lab = '%s[%s]' % (name, kn)
            r = self.indexed(lab, r0.val, keys, r0.st)
            if r is None:
                continue
            its = None
            full = T('tuple', *self.fullkeys(keys, n))
            m = {A.sid: T('sub', A, self.I.keyterm(full, r.st))}
            for meth in ('ndarray', 'masked_array'):
                self.converts('operation', lab, r0.val, r0.st, r, meth, m)
            self.dtypes(lab, r0.val, r0.st, r)

    # ---------------------------------------------------------- aggregations
    def aggregation(self):
        C, I, chk = self.C, self.I, self.chk
        opts = {'std': {'ddof': C.int('ddof')}, 'var': {'ddof': C.int('ddof')},
                'mean': {'mdtol': I.sym('mdtol', 'float')}}
        ranks = (2, 3) if self.tier == 'quick' else (1, 2, 3, 4)
        for name in ('count', 'min', 'max', 'sum', 'mean', 'std', 'var'):
            f = C.get(name)
            if f is None:
                chk.bad('operation', 'biggus.' + name, 'biggus', 'does not exist')
                continue
            for n in ranks:
                A = C.array('A', n)
                for ax in range(n):
                    r0 = C.call(f, [A], dict(opts.get(name, {}), axis=const(ax)))
                    if r0.dead or r0.val.op != 'ref':
                        chk.dunno('aggregated-axis', name, 'construction')
                        continue
                    kinds = ':sial' if n <= 2 else ':sil' if n == 3 else 'si'
                    for kn, keys in self.combos(n - 1, kinds):
                        lab = 'biggus.%s(rank %d, axis=%d)[%s]' % (name, n, ax, kn)
                        if not keys:
                            continue
                        r = self.indexed(lab, r0.val, keys, r0.st)
                        if r is None:
                            continue
                        self.agg1(lab, name, A, n, ax, keys, kn, r0, r)

    def agg1(self, lab, name, A, n, ax, keys, kn, r0, r):
        C, I, chk = self.C, self.I, self.chk
        site = 'biggus.' + name
        fk = keys[:ax] + [FULL] + keys[ax:]
        m = {A.sid: T('sub', A, I.keyterm(T('tuple', *fk), r.st))}
        if r.val.op != 'ref' or not isinstance(I.rec(r.val, r.st), Inst):
            chk.dunno('aggregated-axis', lab, 'result %s' % str(r.val)[:100])
            return
        self.sources(lab, r0.val, r0.st, r, m)
        self.dtypes(lab, r0.val, r0.st, r)
        want = ax - sum(1 for k in kn[:ax] if k == 'i')
        left = n - sum(1 for k in kn if k == 'i')
        for masked in (False, True):
            l2 = '%s %s' % (lab, 'masked' if masked else 'plain')
            h0 = C.method(r0.val, 'streams_handler', [const(masked)], st=r0.st.copy())
            h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st.copy())
            if h.dead or h0.dead:
                chk.verdict(None if h.unsupported or h0.dead else False, 'aggregated-axis', l2,
                            site, 'streams_handler raises %s' % exc_text(h))
                continue
            ks = [I.sym('c%d' % i, 'slice') for i in range(left)]
            o = C.method(h.val, 'output_keys', [T('tuple', *ks)], st=h.st.copy()) \
                if I.find(I.rec(h.val, h.st).cls, 'output_keys')[0] is not None else None
            its = None if o is None or o.dead else I.items(o.val, o.st)
            if its is None:
                chk.dunno('aggregated-axis', l2, 'output_keys not understood')
            else:
                exp = ks[:want] + ks[want + 1:]
                chk.verdict([x.sid for x in its] == [x.sid for x in exp], 'aggregated-axis', l2,
                            site, 'keeps %s of %d axes, axis %d is aggregated' % (
                                [str(x) for x in its], left, want))
            order = T('tuple', *[const(i) for i in range(left - 1)])
            o = C.method(h.val, 'input_iteration_order', [order], st=h.st.copy())
            its = None if o.dead else I.items(o.val, o.st)
            if its is None or any(x.op != 'const' for x in its):
                chk.dunno('aggregated-axis', l2 + ' order', 'not understood')
            else:
                got = [x.a[0] for x in its]
                exp = [i for i in range(left) if i != want] + [want]
                chk.verdict(got == exp, 'aggregated-axis', l2 + ' order', site, str(got))
            c0, c1 = I.rec(h0.val, h0.st), I.rec(h.val, h.st)
            if c0.cls is not c1.cls:
                chk.bad('aggregated-options', l2, site, 'handler %s instead of %s' % (
                    c1.cls.name, c0.cls.name))
                continue
            worst = True
            msg = c1.cls.name
            for k in set(c0.fields) | set(c1.fields):
                x, y = c0.fields.get(k), c1.fields.get(k)
                if x is None or y is None:
                    worst, msg = False if worst is not None else None, \
                        'option %s is %s' % (k, 'lost' if y is None else 'added')
                    continue
                if x.op == 'sym' and I.info(x).get('kind') not in DATA and x.sid != y.sid:
                    worst, msg = False, '%s is %s instead of %s' % (k, y, x)
            chk.verdict(worst, 'aggregated-options', l2, site, msg)

    # ------------------------------------------------------------- transposed
    def transposed(self):
        C, I, chk = self.C, self.I, self.chk
        ci = C.cls('TransposedArray')
        ranks = (1, 2, 3) if self.tier == 'quick' else (1, 2, 3, 4)
        for n in ranks:
            A = C.array('A', n)
            for axes in [None] + list(itertools.permutations(range(n))) + \
                    [tuple(a - n for a in p) for p in itertools.permutations(range(n))
                     if n <= 3]:
                perm = tuple(range(n))[::-1] if axes is None else tuple(a % n for a in axes)
                arg = NONE if axes is None else T('tuple', *[const(a) for a in axes])
                if ci is None:
                    r0 = C.call('Array.transpose', [A, arg])
                else:
                    r0 = C.call(C.get('TransposedArray'), [A, arg])
                base = 'transposed(rank %d, axes=%s)' % (n, axes)
                if r0.dead or r0.val.op != 'ref':
                    chk.dunno('permutation', base, 'construction %s' % exc_text(r0))
                    continue
                kinds = ':sib' if n == 1 else 'sib' if n <= 2 else 'si'
                if n == 3 and self.tier != 'quick':
                    kinds = 'sil'
                for kn, keys in [('', None)] + list(self.combos(n, kinds)):
                    if keys is None:
                        r, keys = r0, [FULL] * n
                    else:
                        r = self.indexed('%s[%s]' % (base, kn), r0.val, keys, r0.st)
                        if r is None:
                            continue
                    for meth in ('ndarray', 'masked_array'):
                        self.perm1('%s[%s].%s()' % (base, kn, meth), A, n, perm, keys, r, meth)

    def perm1(self, lab, A, n, perm, keys, r, meth):
        C, I, chk = self.C, self.I, self.chk
        b = C.method(r.val, meth, st=r.st.copy())
        if b.dead:
            chk.verdict(None if b.unsupported else False, 'permutation', lab,
                        'TransposedArray', 'raises %s' % exc_text(b))
            return
        got = self.labels(b.val, A, n, b.st)
        if got is None:
            chk.dunno('permutation', lab, str(b.val)[:150])
            return
        ks, order = got
        for i, k in enumerate(keys):
            v, msg = keydiff(ks[perm[i]], k)
            if v is not True:
                chk.verdict(v, 'permutation', lab, 'TransposedArray',
                            'axis %d: %s' % (perm[i], msg))
                return
        exp = [perm[i] for i, k in enumerate(keys) if I.kind(k, b.st) != 'int']
        chk.verdict(order == exp, 'permutation', lab, 'TransposedArray',
                    'axes %s, expected %s' % (order, exp))

    def labels(self, t, A, n, st):
        """(keys per source axis, source axes in the order of the result)."""
        I = self.I
        if t.op == 'conv':
            return self.labels(t.a[1], A, n, st)
        if t.sid == A.sid:
            return [FULL] * n, list(range(n))
        if t.op == 'sub' and t.a[0].sid == A.sid:
            ks = trimmed(t.a[1])
            if ks is None:
                return None
            ks = ks + [FULL] * (n - len(ks))
            return ks, [i for i, k in enumerate(ks) if I.kind(k, st) != 'int']
        if t.op == 'call':
            f, args = t.a[0], list(t.a[1])
            kw = dict(t.a[2])
            ax = None
            if f.op == 'bmx' and f.a[1] == 'transpose':
                src = f.a[0]
                ax = args[0] if len(args) == 1 else T('tuple', *args) if args else None
            elif f.op == 'ext' and f.a[0] in ('numpy.transpose', 'numpy.ma.transpose'):
                src = args[0]
                ax = args[1] if len(args) > 1 else kw.get('axes')
            else:
                c = core(t, I, st)
                return self.labels(c, A, n, st) if c.sid != t.sid else None
            sub = self.labels(src, A, n, st)
            if sub is None:
                return None
            ks, order = sub
            if ax is None or (ax.op == 'const' and ax.a[0] is None):
                return ks, order[::-1]
            its = I.items(ax, st) if ax.op not in ('list', 'ndlist') else list(ax.a)
            if its is None or any(x.op != 'const' for x in its) or len(its) != len(order):
                return None
            try:
                return ks, [order[x.a[0]] for x in its]
            except (IndexError, TypeError):
                return None
        if t.op == 'phi':
            c = core(t, I, st)
            return self.labels(c, A, n, st) if c.sid != t.sid else None
        return None

    # --------------------------------------------------------------- constant
    def constant(self):
        C, I, chk = self.C, self.I, self.chk
        for mk in ('ConstantArray', 'zeros', 'ones'):
            f = C.get(mk)
            if f is None:
                chk.bad('constant', 'biggus.' + mk, 'biggus', 'does not exist')
                continue
            shape = T('tuple', C.int('n0', 0), C.int('n1', 0))
            variants = [[shape, I.sym('v', 'npscalar')],
                        [shape, I.sym('v', 'npscalar'), C.dtype('dt')]] \
                if mk == 'ConstantArray' else [[shape], [shape, C.dtype('dt')]]
            for args in variants:
                r0 = C.call(f, args)
                if r0.dead or r0.val.op != 'ref':
                    chk.dunno('constant', mk, 'construction')
                    continue
                for kn, keys in self.combos(2, 'sil'):
                    lab = 'biggus.%s(%d arguments)[%s]' % (mk, len(args), kn)
                    r = self.indexed(lab, r0.val, keys, r0.st)
                    if r is None:
                        continue
                    self.dtypes(lab, r0.val, r0.st, r)
                    for meth in ('ndarray', 'masked_array'):
                        a = C.method(r0.val, meth, st=r0.st.copy())
                        b = C.method(r.val, meth, st=r.st.copy())
                        l2 = '%s.%s()' % (lab, meth)
                        if a.dead or b.dead:
                            chk.dunno('constant', l2, 'raises')
                            continue
                        va, vb = self.constval(a.val), self.constval(b.val)
                        if va is None or vb is None:
                            chk.dunno('constant', l2, str(b.val)[:150])
                            continue
                        v = va.sid == vb.sid
                        if not v and not (contains(vb, lambda x: x.op == 'sym')):
                            v = False
                        elif not v:
                            v = None
                        chk.verdict(v, 'constant', l2, 'biggus.' + mk,
                                    'value %s, originally %s' % (vb, va))

    def constval(self, t):
        """The constant a filled array holds, stripped of array wrapping."""
        t = core(t, self.I, self.C.st0)
        if t.op == 'filled':
            return self.unwrap(t.a[1])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.full',):
            return self.unwrap(t.a[1][1])
        return None

    def unwrap(self, t):
        while True:
            if t.op == 'sub' and t.a[1].op == 'const' and t.a[1].a[0] == 0:
                t = t.a[0]
            elif t.op == 'call' and t.a[0].op == 'ext' and \
                    t.a[0].a[0] in ('numpy.array', 'numpy.asarray'):
                t = t.a[1][0]
            elif t.op in ('list', 'ndlist') and len(t.a) == 1:
                t = t.a[0]
            else:
                return t


def check(chk, root, tier):
    C = Ctx(root)
    q = Q(chk, C, tier)
    q.elementwise()
    q.cast()
    q.aggregation()
    q.transposed()
    q.constant()
    chk.assumptions += [
        'the sources are arbitrary virtual arrays for which indexing with the given keys is '
        'understood as one opaque operation',
        'ranks up to 3 (thorough: 4) stand for all ranks']
    return [C]
