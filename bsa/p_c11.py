"""C11: aggregation axes are validated and normalised before use."""
from .ctx import *        # noqa
from .norm import *       # noqa

RULES = {
    'accepted': 'one axis in [-n, n), as an integer or one-element iterable, is accepted',
    'reduced-shape': 'the result shape is the source shape without exactly that axis',
    'reduced-order': 'the streams handler asks for its source with that axis innermost',
    'reduced-keys': 'the streams handler drops exactly that axis from the chunk keys',
    'reduced-data': 'every reduction of a chunk is over exactly that axis',
    'out-of-range': 'an axis outside [-n, n) raises ValueError before anything is built',
    'not-integer': 'a non-integer axis raises TypeError',
    'not-single': 'no axis or several axes raise',
}
AGGS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')
REDUCE = {'sum', 'min', 'max', 'all', 'any', 'mean', 'std', 'var', 'count', 'count_masked',
          'amin', 'amax', 'prod', 'squeeze', 'rollaxis', 'median', 'ptp', 'nansum', 'nanmin',
          'nanmax', 'concatenate', 'moveaxis', 'swapaxes', 'cumsum', 'take', 'average'}


class Q(object):
    def __init__(self, chk, C, f, name, n):
        self.chk, self.C, self.I = chk, C, C.I
        self.f, self.name, self.n = f, name, n

    def label(self, what):
        return 'biggus.%s(rank %d, axis=%s)' % (self.name, self.n, what)

    def req(self, axis, what, kwarg=True, st=None, assume=()):
        C = self.C
        A = C.array('A', self.n)
        if kwarg:
            return A, C.call(self.f, [A], {'axis': axis}, st=st, assume=assume)
        return A, C.call(self.f, [A, axis], st=st, assume=assume)

    def good(self, axis, want, what, st=None, kwarg=True):
        chk, C, n = self.chk, self.C, self.n
        lab = self.label(what)
        A, r = self.req(axis, what, st=st, kwarg=kwarg)
        site = 'biggus.%s' % self.name
        if r.dead:
            chk.verdict(None if r.unsupported else False, 'accepted', lab, site,
                        'raises %s' % exc_text(r))
            return
        if r.val.op != 'ref':
            chk.dunno('accepted', lab, 'result %s' % str(r.val)[:100])
            return
        if any(o.val.a[0] != 'MemoryError' for o in r.raises):
            chk.dunno('accepted', lab, 'may raise %s' % exc_text(r))
        else:
            chk.ok('accepted', lab)
        shape = list(self.I.items(self.I.info(A)['attrs']['shape'], r.st))
        exp = shape[:want] + shape[want + 1:]
        s = C.attr(r.val, 'shape', st=r.st.copy())
        its = None if s.dead else C.I.items(s.val, s.st)
        if its is None:
            chk.dunno('reduced-shape', lab, 'shape not understood')
        else:
            v = [x.sid for x in its] == [x.sid for x in exp]
            if not v and any(unk_in(x) for x in its):
                v = None
            chk.verdict(v, 'reduced-shape', lab, site, 'shape %s' % ([str(x) for x in its],))
        for masked in (False, True):
            h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st.copy())
            hl = '%s %s' % (lab, 'masked' if masked else 'plain')
            if h.dead:
                chk.verdict(None if h.unsupported else False, 'reduced-order', hl, site,
                            'streams_handler raises %s' % exc_text(h))
                continue
            order = T('tuple', *[const(i) for i in range(n - 1)])
            o = C.method(h.val, 'input_iteration_order', [order], st=h.st.copy())
            its = None if o.dead else C.I.items(o.val, o.st)
            if its is None or any(x.op != 'const' for x in its):
                chk.dunno('reduced-order', hl, 'order not understood')
            else:
                got = [x.a[0] for x in its]
                exp = [i for i in range(n) if i != want] + [want]
                chk.verdict(got == exp, 'reduced-order', hl, site, 'order %s' % got)
            if C.I.find(C.I.rec(h.val, h.st).cls, 'output_keys')[0] is not None:
                ks = [C.I.sym('k%d' % i, 'slice') for i in range(n)]
                o = C.method(h.val, 'output_keys', [T('tuple', *ks)], st=h.st.copy())
                its = None if o.dead else C.I.items(o.val, o.st)
                if its is None:
                    chk.dunno('reduced-keys', hl, 'keys not understood')
                else:
                    exp = ks[:want] + ks[want + 1:]
                    chk.verdict([x.sid for x in its] == [x.sid for x in exp], 'reduced-keys',
                                hl, site, 'keys %s' % [str(x) for x in its])
            self.data(h, masked, want, hl, site)

    def data(self, h, masked, want, hl, site):
        """Reductions applied to the chunk by the first process_chunks call."""
        chk, C, n = self.chk, self.C, self.n
        ks = [C.I.sym('k%d' % i, 'slice') for i in range(n)]
        D = C.nd('D', n, 'ma' if masked else 'nd')
        st = h.st.copy()
        mk = C.run(lambda I, s: I.call(C.get('Chunk'), [T('tuple', *ks), D], {}, s), st=st)
        if mk.dead:
            chk.dunno('reduced-data', hl, 'Chunk')
            return
        p = C.run(lambda I, s: I.call(I.getattr(h.val, 'process_chunks', s),
                                      [T('tuple', mk.val)], {}, s), st=mk.st)
        if p.dead:
            chk.verdict(None if p.unsupported else False, 'reduced-data', hl, site,
                        'process_chunks always raises %s' % exc_text(p))
            return
        n_red = 0
        for e in p.events:
            if e['kind'] != 'call' and e['kind'] != 'index':
                continue
            if e['kind'] == 'index':
                # data.shape[axis]
                o, k = e['obj'], e['key']
                continue
            f, args, kw = e['f'], e['args'], e['kw']
            if f.op == 'ext':
                nm = f.a[0].split('.')[-1]
                obj = args[0] if args else None
                pos = args[1:]
            elif f.op == 'bmx':
                nm, obj, pos = f.a[1], f.a[0], args
            else:
                continue
            if nm not in REDUCE or obj is None:
                continue
            if 'D' not in reach(obj, p.st, C.I):
                continue
            ax = kw.get('axis', pos[0] if pos else None)
            sh = None
            from . import models
            sh = models.shape_of(C.I, obj, e.get('st') or p.st)
            rank = len(sh) if sh is not None else None
            n_red += 1
            if ax is None or ax.op != 'const' or ax.a[0] is None:
                if ax is None or (ax.op == 'const' and ax.a[0] is None):
                    if rank == 1 or nm in ('concatenate', 'take'):
                        continue
                    chk.verdict(False if n > 1 else True, 'reduced-data',
                                '%s: %s' % (hl, nm), loc(e), 'reduces every axis')
                    continue
                chk.dunno('reduced-data', hl, '%s axis %s' % (nm, ax))
                continue
            a = ax.a[0]
            a = a + (rank if rank is not None else n) if a < 0 else a
            if rank is not None and rank != n:
                continue
            chk.verdict(a == want, 'reduced-data', '%s: %s' % (hl, nm), loc(e),
                        '%s over axis %d' % (nm, ax.a[0]))
        if not n_red:
            # counting a plain chunk looks at its length along the axis only
            for x in self.shape_uses(p, D):
                n_red += 1
                chk.verdict(x == want, 'reduced-data', hl, site, 'uses the length of axis %s' % x)
            if not n_red:
                chk.dunno('reduced-data', hl, 'no reduction recognised')

    def shape_uses(self, p, D):
        """Axis lengths of the chunk added into the handler's running state."""
        C = self.C
        shape = {x.sid: i for i, x in enumerate(
            C.I.items(C.I.info(D)['attrs']['shape'], p.st))}
        for oid, rec in list(p.st.heap.items()):
            if isinstance(rec, Inst):
                for k, v in rec.fields.items():
                    c, m = lin(v)
                    for sid in m:
                        if sid in shape and rec.cls.name != 'Chunk':
                            yield shape[sid]

    def bad(self, axis, what, rule, types, st=None, kwarg=True):
        chk = self.chk
        lab = self.label(what)
        site = 'biggus.%s' % self.name
        A, r = self.req(axis, what, st=st, kwarg=kwarg)
        names = r.exc_names()
        if not r.dead:
            und = bool(r.unsupported) or (bool(names) and unk_in(r.val))
            chk.verdict(None if und else False, rule, lab, site,
                        'accepted: result %s%s' % (str(r.val)[:80], ' or ' + exc_text(r)
                                                   if names else ''))
        elif types is None or set(names) <= set(types):
            chk.ok(rule, lab, 'raises %s' % ', '.join(names))
        else:
            chk.verdict(None if r.unsupported else False, rule, lab, site,
                        'raises %s' % ', '.join(names))


def check(chk, root, tier):
    C = Ctx(root)
    I = C.I
    ranks = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    for name in AGGS:
        f = C.st0.envs.get('mod:biggus', {}).get(name)
        if f is None:
            chk.bad('accepted', 'biggus.' + name, 'biggus/__init__.py', 'does not exist')
            continue
        for n in ranks:
            q = Q(chk, C, f, name, n)
            for ax in range(-n, n):
                q.good(const(ax), ax % n, ax)
            q.good(const(n - 1), n - 1, 'positional %d' % (n - 1), kwarg=False)
            q.good(T('tuple', const(-1)), n - 1, '(-1,)')
            st = C.state()
            q.good(I.new_list(st, [ZERO]), 0, '[0]', st=st)
            st = C.state()
            it = C.run(lambda I, s: I.call(T('ext', 'builtins.iter'), [T('tuple', ZERO)], {}, s),
                       st=st)
            q.good(it.val, 0, 'iter((0,))', st=it.st)
            for ax in (-n - 1, -n - 2, n, n + 1):
                q.bad(const(ax), ax, 'out-of-range', {'ValueError'})
                q.bad(T('tuple', const(ax)), '(%d,)' % ax, 'out-of-range', {'ValueError'})
            big = I.sym('big', 'int', lo=n)
            q.bad(big, 'any >= n', 'out-of-range', {'ValueError'})
            neg = T('bin', '-', const(-n - 1), I.sym('d', 'int', lo=0))
            q.bad(neg, 'any < -n', 'out-of-range', {'ValueError'})
            q.bad(const(0.0), 0.0, 'not-integer', {'TypeError'})
            q.bad(const('0'), "'0'", 'not-integer', {'TypeError'})
            q.bad(T('tuple', const(0.5)), '(0.5,)', 'not-integer', {'TypeError'})
            q.bad(T('tuple', const('x')), "('x',)", 'not-integer', {'TypeError'})
            q.bad(NONE, None, 'not-single', None)
            q.bad(T('tuple'), '()', 'not-single', None)
            if n > 1:
                q.bad(T('tuple', ZERO, ONE), '(0, 1)', 'not-single', None)
                q.bad(T('tuple', const(-1), ZERO), '(-1, 0)', 'not-single', None)
                st = C.state()
                q.bad(I.new_list(st, [ZERO, ONE]), '[0, 1]', 'not-single', None, st=st)
            q.bad(T('tuple', ZERO, ZERO), '(0, 0)', 'not-single', None)
            A = C.array('A', n)
            r = C.call(f, [A])
            chk.verdict(True if r.dead and not r.unsupported else None if r.unsupported
                        else False, 'not-single', q.label('omitted'), 'biggus.' + name,
                        'raises %s' % exc_text(r) if r.dead else 'accepted')
    chk.assumptions += ['ranks %s are analysed; the code treats every rank alike'
                        % (ranks,)]
    return [C]
