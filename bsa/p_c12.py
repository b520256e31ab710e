"""C12: inconsistent pieces are rejected when arrays are combined."""
from .ctx import *        # noqa
from .norm import *       # noqa
from . import dtypes

RULES = {
    'consistent': 'pieces that agree are combined, with the right shape and dtype',
    'dtype-differs': 'a piece of another dtype raises ValueError, wherever it stands',
    'shape-differs': 'a piece of another shape raises ValueError, wherever it stands',
    'not-an-array': 'a piece that is not a virtual array is refused',
    'axis': 'a tiling axis that does not exist raises ValueError',
    'assigned': 'a piece assigned into a stack is checked alike',
    'broadcast': 'stretching an axis which is not of length one raises ValueError',
    'broadcast-shape': 'compatible shapes broadcast to the NumPy shape',
    'fill-common': 'the fill value is the one common to all pieces',
    'fill-default': 'the fill value is the default of the dtype when a piece differs',
}
KINDS = 'fiSb'


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier
        self.n = 0

    def piece(self, ndim=2, d='d', s=None, f='f', dk=None, nan=None):
        """A piece; attributes with another name differ from those of the rest."""
        self.n += 1
        sh = []
        for i in range(ndim):
            nm = (s or {}).get(i, 's%d' % i)
            sh.append(self.I.sym(nm, 'int', lo=0, group='s'))
        kw = {'group': 'dtype'}
        if dk:
            kw.update(dkind=dk, attrs={'kind': const(dk)})
        fkw = {'group': 'fill'}
        if nan is not None:
            fkw['nan'] = nan
        return self.C.array('P%d' % self.n, ndim, shape=sh,
                            dtype=self.I.sym(d + (dk or ''), 'dtype', **kw),
                            fill=self.I.sym(f, 'npscalar', **fkw))

    # ----------------------------------------------------------------- verdicts
    def supposed(self, again, names):
        """Whether the pieces are accepted when their dtypes are certain ones."""
        if again is None or self.I.hyp is not None:
            return None
        for pair in dtypes.PAIRS:
            p = dtypes.Pair(dict(zip(names, pair)))
            self.I.hyp = p.decide
            try:
                r = again()
            finally:
                self.I.hyp = None
            if not p.used:
                return None
            if not r.dead and not r.unsupported and not any(
                    o.val.a[0] != 'MemoryError' for o in r.raises) and not (
                    r.val is not None and unk_in(r.val)):
                return p
        return None

    def rejected(self, rule, lab, r, exc='ValueError', again=None):
        chk, site = self.chk, lab.split(':')[0]
        if r.dead:
            names = [x for x in r.exc_names()]
            bad = [x for x in names if exc and x not in (exc, 'AxisError')
                   and not x.startswith(exc)]
            if not names and r.unsupported:
                chk.dunno(rule, lab, str(r.unsupported[:2]))
            elif bad and exc:
                v = False if len(names) == 1 and not r.unsupported else None
                chk.verdict(v, rule, lab, site, 'raises %s' % ', '.join(names))
            else:
                chk.ok(rule, lab, 'raises %s' % ', '.join(names))
            return
        v = False
        if r.unsupported or any(o.val.a[0] not in ('MemoryError',) for o in r.raises) or \
                (r.val is not None and unk_in(r.val)):
            v = None
            p = self.supposed(again, ('d', 'e')) if not r.unsupported else None
            if p is not None:
                chk.bad(rule, lab, site, 'is accepted when %s' % p)
                return
        chk.verdict(v, rule, lab, site, 'is accepted' if v is False
                    else 'not understood: %s %s' % (exc_text(r), r.unsupported[:2]))

    def accepted(self, rule, lab, r):
        site = lab.split(':')[0]
        if r.dead:
            self.chk.verdict(None if r.unsupported else False, rule, lab, site,
                             'raises %s' % exc_text(r))
            return False
        if [o for o in r.raises if o.val.a[0] != 'MemoryError']:
            self.chk.dunno(rule, lab, 'may raise %s' % exc_text(r))
            return True
        self.chk.ok(rule, lab)
        return True

    def isdims(self, rule, lab, v, st, exp):
        s = self.C.attr(v, 'shape', st=st.copy())
        its = None if s.dead else self.I.items(s.val, s.st)
        if its is None:
            self.chk.dunno(rule, lab + ' shape', 'not understood: %s' % exc_text(s))
            return
        ok = len(its) == len(exp)
        if ok:
            for x, y in zip(its, exp):
                d = lin_sub(lin(x), lin(y))
                if d[0] or d[1]:
                    dec = self.I.decide(mk_cmp('==', x, y), s.st)
                    if dec is True:
                        continue
                    ok = None if ok is not False and unk_in(x) else False
                    if ok is False and not self.I.intish(x, s.st):
                        ok = None
        self.chk.verdict(ok, rule, lab + ' shape', lab.split(':')[0], 'shape %s, not %s' % (
            [str(x) for x in its], [str(x) for x in exp]))

    # ------------------------------------------------------------------- stacks
    def seqs(self, ps):
        yield 'list', lambda s: self.I.new_list(s, ps)
        if self.tier != 'quick':
            yield 'tuple', lambda s: T('tuple', *ps)

    def build(self, name, ps, extra=(), seq='list'):
        def fn(I, s):
            if seq == 'list':
                a = I.new_list(s, ps)
            elif seq == '2d':
                a = I.new_list(s, [I.new_list(s, p) for p in ps])
            elif seq == 'obj':
                a = self.objarray(s, ps)
            else:
                a = T('tuple', *ps)
            return I.call(self.C.get(name), [a] + list(extra), {}, s)
        return self.C.run(fn)

    def objarray(self, s, ps):
        return self.I.call(T('ext', 'numpy.array'), [self.I.new_list(s, ps)],
                           {'dtype': T('ext', 'numpy.object_')}, s)

    def combos(self, name, extra, axis=None):
        """Every way in which one of three (or two) pieces can differ."""
        C, chk = self.C, self.chk
        base = 'biggus.%s%s' % (name, '' if axis is None else '(axis=%d)' % axis)
        for n in (1, 2, 3):
            for seq in ('list', 'tuple', 'obj'):
                ps = [self.piece() for _ in range(n)]
                lab = '%s: %d consistent pieces (%s)' % (base, n, seq)
                r = self.build(name, ps, extra, seq)
                if self.accepted('consistent', lab, r):
                    sh = list(self.I.items(self.I.info(ps[0])['attrs']['shape'], r.st))
                    if axis is None:
                        exp = [const(n)] + sh
                    else:
                        exp = list(sh)
                        exp[axis] = T('bin', '*', const(n), sh[axis]) if n > 1 else sh[axis]
                    self.isdims('consistent', lab, r.val, r.st, exp)
                    d = C.attr(r.val, 'dtype', st=r.st.copy())
                    if d.dead:
                        chk.dunno('consistent', lab + ' dtype', exc_text(d))
                    else:
                        chk.verdict(True if d.val.op == 'sym' and d.val.a[0] == 'd' else
                                    None, 'consistent', lab + ' dtype', base, str(d.val)[:80])
        diffs = [('dtype-differs', 'dtype', {'d': 'e'}),
                 ('shape-differs', 'rank 3', {'ndim': 3}),
                 ('shape-differs', 'rank 1', {'ndim': 1})]
        for i in range(2):
            if i != axis:
                diffs.append(('shape-differs', 'shape[%d]' % i, {'s': {i: 't%d' % i}}))
        if axis is not None:
            diffs.append((None, 'shape[%d]' % axis, {'s': {axis: 't%d' % axis}}))
        diffs += [('not-an-array', x, x) for x in ('nd', 'ma', 'concrete', 'None', 'int', 'str')]
        for n in (2, 3) if self.tier == 'quick' else (1, 2, 3, 4):
            for pos in range(n):
                for rule, what, how in diffs:
                    if rule is not None and rule != 'not-an-array' and n == 1:
                        continue
                    ps = [self.piece() for _ in range(n)]
                    ps[pos] = self.piece(**how) if isinstance(how, dict) else self.alien(how)
                    lab = '%s: piece %d of %d differs in %s' % (base, pos, n, what)
                    if rule == 'not-an-array':
                        lab = '%s: piece %d of %d is %s' % (base, pos, n, what)
                    for seq in ('list', 'obj') if rule != 'not-an-array' else ('list',):
                        r = self.build(name, ps, extra, seq)
                        l2 = lab + (' (%s)' % seq if seq != 'list' else '')
                        if rule is None:
                            if self.accepted('consistent', l2, r):
                                sh = [list(self.I.items(self.I.info(p)['attrs']['shape'], r.st))
                                      for p in ps]
                                exp = list(sh[0])
                                for q in sh[1:]:
                                    exp[axis] = T('bin', '+', exp[axis], q[axis])
                                self.isdims('consistent', l2, r.val, r.st, exp)
                        else:
                            self.rejected(
                                rule, l2, r, None if rule == 'not-an-array' else 'ValueError',
                                (lambda: self.build(name, ps, extra, seq))
                                if rule == 'dtype-differs' else None)

    def alien(self, what):
        C = self.C
        if what in ('nd', 'ma'):
            return C.nd('X', 2, what)
        if what == 'concrete':
            return C.concrete('X', 2, fill=True)
        return {'None': NONE, 'int': const(3), 'str': const('spam')}[what]

    def fills(self, name, extra, axis=None):
        base = 'biggus.%s%s' % (name, '' if axis is None else '(axis=%d)' % axis)
        pats = ['fff', 'ffg', 'fgf', 'gff', 'fg', 'ff', 'f', 'ffgg', 'fgh', 'fggf']
        nans = ['NNN', 'NN', 'N', 'NfN', 'fNf', 'ffN', 'Nf', 'fN', 'NNf', 'fNN']
        for dk in KINDS:
            for pat in pats + (nans if dk == 'f' else []):
                ps = [self.piece(f=c, dk=dk, nan=c == 'N') for c in pat]
                r = self.build(name, ps, extra)
                lab = '%s: fill values %s of kind %s' % (base, pat.replace('N', '(nan)'), dk)
                rule = 'fill-common' if len(set(pat)) == 1 else 'fill-default'
                self.fill(rule, lab, r, pat)

    def fill(self, rule, lab, r, pat):
        chk, base = self.chk, lab.split(':')[0]
        if r.dead:
            chk.verdict(None if r.unsupported else False, rule, lab, base,
                        'raises %s' % exc_text(r))
            return
        f = self.C.attr(r.val, 'fill_value', st=r.st.copy())
        if f.dead:
            chk.dunno(rule, lab, exc_text(f))
            return
        v = f.val
        names = {x.a[0] for x in walk(v) if x.op == 'sym' and x.a[0] in tuple(set(pat))}
        if rule == 'fill-common':
            res = True if v.op == 'sym' and v.a[0] == pat[0] else \
                False if not names and not unk_in(v) and v.op != 'phi' else None
        elif v.op == 'sym' and names or v.op == 'const':
            res = False
        elif names:
            res = None
        else:
            res = True if isdefault(v) else None
        chk.verdict(res, rule, lab, base, 'fill value %s' % str(v)[:100])

    def nested(self):
        """2-D arrays of pieces and multidim_array_stack."""
        chk, C = self.chk, self.C
        for pos in range(4):
            for rule, what, how in (('dtype-differs', 'dtype', {'d': 'e'}),
                                    ('shape-differs', 'shape[1]', {'s': {1: 't1'}})):
                ps = [self.piece() for _ in range(4)]
                ps[pos] = self.piece(**how)
                lab = 'biggus.ArrayStack: piece %d of 2 by 2 differs in %s' % (pos, what)
                mk = lambda: self.build('ArrayStack', [ps[:2], ps[2:]], seq='2d')   # noqa
                self.rejected(rule, lab, mk(),
                              again=mk if rule == 'dtype-differs' else None)
                f = C.get('ArrayStack.multidim_array_stack')
                if f is None:
                    continue
                for order in 'CF':
                    lab = 'biggus.ArrayStack.multidim_array_stack: piece %d of 4 differs in ' \
                        '%s, order %s' % (pos, what, order)
                    r = C.run(lambda I, s: I.call(I.getattr(
                        C.get('ArrayStack'), 'multidim_array_stack', s),
                        [I.new_list(s, ps), T('tuple', const(2), const(2))],
                        {'order': const(order)}, s))
                    self.rejected(rule, lab, r)
        ps = [self.piece() for _ in range(4)]
        r = self.build('ArrayStack', [ps[:2], ps[2:]], seq='2d')
        lab = 'biggus.ArrayStack: 2 by 2 consistent pieces'
        if self.accepted('consistent', lab, r):
            sh = list(self.I.items(self.I.info(ps[0])['attrs']['shape'], r.st))
            self.isdims('consistent', lab, r.val, r.st, [const(2), const(2)] + sh)

    def assign(self):
        chk, C, I = self.chk, self.C, self.I
        cases = [('assigned', 'dtype', {'d': 'e'}), ('assigned', 'rank 3', {'ndim': 3}),
                 ('assigned', 'shape[0]', {'s': {0: 't0'}}),
                 ('assigned', 'shape[1]', {'s': {1: 't1'}}), ('assigned', 'rank 1', {'ndim': 1}),
                 ('consistent', 'nothing', {})]
        cases += [('not-an-array', x, x) for x in ('nd', 'ma', 'concrete', 'None', 'int')]
        for rule, what, how in cases:
            for dims in (1, 2):
                ps = [self.piece() for _ in range(4)]
                r0 = self.build('ArrayStack', ps if dims == 1 else [ps[:2], ps[2:]],
                                seq='list' if dims == 1 else '2d')
                lab = 'biggus.ArrayStack: item of a %d-D stack assigned a piece that differs ' \
                    'in %s' % (dims, what)
                if r0.dead:
                    chk.dunno(rule, lab, 'construction')
                    continue
                v = self.piece(**how) if isinstance(how, dict) else self.alien(how)
                for key in (0, 1, -1):
                    k = T('tuple', *[const(key)] * dims)
                    mk = lambda: C.run(lambda I_, s: (       # noqa
                        I_.setitem(r0.val, k, v, s, None), NONE)[1], st=r0.st.copy())
                    r = mk()
                    l2 = '%s, key %d' % (lab, key)
                    if rule == 'consistent':
                        if self.accepted(rule, l2, r):
                            self.stored(l2, r0, r, v, key, dims)
                    else:
                        self.rejected(rule, l2, r, None if rule == 'not-an-array'
                                      else 'ValueError', mk if what == 'dtype' else None)

    def stored(self, lab, r0, r, v, key, dims):
        pass

    # ------------------------------------------------------------- broadcasting
    def broadcast(self):
        chk, C, I = self.chk, self.C, self.I
        m = C.int('m', 2)
        n = C.int('n', 2)

        def sizes(text):
            """1, 0, n and m with n, m >= 2 and different."""
            return [{'1': ONE, '0': ZERO, 'n': I.sym('n', 'int', lo=2, group='bs'),
                     'm': I.sym('m', 'int', lo=2, group='bs'),
                     'k': I.sym('k', 'int', lo=2, group='bs')}[c] for c in text]
        good = [('nm', 'nm', 'nm'), ('n1', '1m', 'nm'), ('1', 'nm', 'nm'), ('m', 'nm', 'nm'),
                ('nm', '1', 'nm'), ('nm', 'm', 'nm'), ('1m', 'n1', 'nm'), ('n1', 'm', 'nm'),
                ('nm', '11', 'nm'), ('knm', 'm', 'knm'), ('knm', '1m', 'knm'),
                ('k1m', 'n1', 'knm'), ('1', 'm', 'm'), ('n', '1', 'n'), ('11', 'm', '1m'),
                ('knm', 'k1m', 'knm'), ('1nm', 'k11', 'knm'), ('m', 'knm', 'knm'),
                ('n1', 'knm', 'knm'), ('nm', '', 'nm'), ('', 'nm', 'nm'),
                ('n1', '1k', 'nk'), ('1n1', 'k1m', 'knm')]
        bad = [('nm', 'nk'), ('nm', 'km'), ('nm', 'n'), ('n', 'nm'), ('knm', 'n'),
               ('knm', 'nn'), ('knm', 'nnm'), ('1m', 'nn'), ('n1', 'm1'), ('n', 'm'),
               ('nm', 'mn'), ('n', 'knm'), ('nm', 'n1k'), ('n0', 'nm'), ('nm', '0'),
               ('0', 'n'), ('knm', 'k1k'), ('knm', 'kk1'), ('m', 'n1k')]
        ents = []
        f = C.get('BroadcastArray')
        if f is not None:
            ents.append(('BroadcastArray.broadcast_arrays', lambda a, b: C.run(
                lambda I_, s: I_.call(I_.getattr(f, 'broadcast_arrays', s), [a, b], {}, s))))
        for fn in ('add', 'subtract', 'multiply', 'power'):
            if C.get(fn) is not None:
                ents.append((fn, lambda a, b, fn=fn: C.call(fn, [a, b])))
        for name, ent in ents:
            for x, y, z in good:
                a = C.array('A', len(x), shape=sizes(x) or None, plain=True)
                b = C.array('B', len(y), shape=sizes(y) or None, plain=True)
                r = ent(a, b)
                lab = 'biggus.%s: shapes %s and %s' % (name, list(x), list(y))
                if self.accepted('broadcast-shape', lab, r):
                    vs = [r.val] if '.' not in name else self.I.items(r.val, r.st)
                    for i, v in enumerate(vs or []):
                        self.isdims('broadcast-shape', '%s, result %d' % (lab, i), v, r.st,
                                    sizes(z))
            for x, y in bad:
                a = C.array('A', len(x), shape=sizes(x) or None, plain=True)
                b = C.array('B', len(y), shape=sizes(y) or None, plain=True)
                self.rejected('broadcast', 'biggus.%s: shapes %s and %s' % (
                    name, list(x), list(y)), ent(a, b))
        if f is None:
            chk.dunno('broadcast', 'biggus.BroadcastArray', 'no such class')
            return
        L = C.int('length', 2)
        for x, ax, ok in (('nm', 0, False), ('nm', 1, False), ('1m', 1, False),
                          ('n1', 0, False), ('1m', 0, True), ('n1', 1, True), ('n', 0, False),
                          ('1', 0, True), ('0m', 0, False), ('1m', 2, False),
                          ('nm', 2, False), ('1', 1, False), ('n1m', 1, True),
                          ('n1m', 2, False), ('11', 1, True), ('n0', 1, False)):
            a = C.array('A', len(x), shape=sizes(x), plain=True)
            lab = 'biggus.BroadcastArray: shape %s, axis %d' % (list(x), ax)
            r = C.run(lambda I_, s: I_.call(f, [a, self.bdict(s, {ax: L})], {}, s))
            if not ok:
                self.rejected('broadcast', lab, r)
            elif self.accepted('broadcast-shape', lab, r):
                sh = sizes(x)
                sh[ax] = L
                self.isdims('broadcast-shape', lab, r.val, r.st, sh)
                # again, on top of the first
                for ax2 in range(len(x)):
                    l2 = lab + ', then axis %d' % ax2
                    L2 = C.int('length2', 2)
                    r2 = C.run(lambda I_, s: I_.call(f, [r.val, self.bdict(s, {ax2: L2})],
                                                     {}, s), st=r.st.copy())
                    if ax2 == ax or x[ax2] == '1':
                        if self.accepted('broadcast-shape', l2, r2):
                            s2 = list(sh)
                            s2[ax2] = L2
                            self.isdims('broadcast-shape', l2, r2.val, r2.st, s2)
                    else:
                        self.rejected('broadcast', l2, r2)

    def bdict(self, s, d):
        return self.I.alloc(s, Dct([(const(k), v) for k, v in d.items()]))

    def axes(self):
        C = self.C
        for n in (1, 2, 3):
            for ax in (n, n + 1, -n - 1, -n - 2, -1):
                for k in (1, 2):
                    ps = [self.piece(ndim=n) for _ in range(k)]
                    r = self.build('LinearMosaic', ps, [const(ax)])
                    lab = 'biggus.LinearMosaic: axis %d of %d tiles of rank %d' % (ax, k, n)
                    if ax == -1 and not r.dead:
                        sh = list(self.I.items(self.I.info(ps[0])['attrs']['shape'], r.st))
                        sh[-1] = T('bin', '*', const(k), sh[-1]) if k > 1 else sh[-1]
                        self.isdims('axis', lab, r.val, r.st, sh)
                    else:
                        self.rejected('axis', lab, r)
        ps = [self.piece(ndim=0) for _ in range(2)]
        self.rejected('axis', 'biggus.LinearMosaic: axis 0 of tiles of rank 0',
                      self.build('LinearMosaic', ps, [const(0)]))


def isdefault(v):
    """The default fill value of a dtype, possibly wrapped in a scalar type."""
    if v.op == 'phi':
        return isdefault(v.a[1]) and isdefault(v.a[2])
    if v.op == 'attr' and v.a[1] == 'fill_value' and v.a[0].op == 'call' and \
            v.a[0].a[0].op == 'ext' and v.a[0].a[0].a[0] in (
                'numpy.ma.empty', 'numpy.ma.zeros', 'numpy.ma.ones', 'numpy.ma.array',
                'numpy.ma.masked_all'):
        kw = dict(v.a[0].a[2])
        return 'fill_value' not in kw and contains(
            v, lambda x: x.op == 'sym' and x.a[0][:1] == 'd')
    if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0].endswith('default_fill_value'):
        return True
    if v.op == 'call' and v.a[1] and (v.a[0].op == 'bmx' or v.a[0].op == 'attr'):
        return isdefault(v.a[1][0])
    return False


def check(chk, root, tier):
    chk.assumptions = [
        'The pieces are generic virtual arrays whose attributes are equal or different as '
        'each obligation says; shape, dtype and fill value of a piece do not change.',
        'np.require(..., dtype="O") and np.array(..., dtype="O") of a sequence of arrays '
        'make an object array of exactly those arrays.',
    ]
    C = Ctx(root)
    q = Q(chk, C, tier)
    ok = []
    for name in ('ArrayStack', 'LinearMosaic'):
        if C.get(name) is None:
            chk.bad('consistent', 'biggus.' + name, 'biggus', 'does not exist')
        else:
            ok.append(name)
    if 'ArrayStack' in ok:
        q.combos('ArrayStack', [])
        q.fills('ArrayStack', [])
        q.nested()
        q.assign()
    if 'LinearMosaic' in ok:
        for ax in (0, 1):
            q.combos('LinearMosaic', [const(ax)], ax)
        q.fills('LinearMosaic', [const(0)], 0)
        q.axes()
    q.broadcast()
    return [C]
