"""C08: each operator and function evaluates its NumPy namesake, operands in order."""
from .ctx import *        # noqa
from .norm import *       # noqa
from . import models

RULES = {
    'direct-plain': 'ndarray() applies exactly the NumPy function of the documented name to the '
                    'plain conversions of the operands in the order written',
    'direct-masked': 'masked_array() applies the numpy.ma function of that name to the masked '
                     'conversions in order, or raises TypeError where there is none',
    'streamed-plain': 'the plain streams handler applies the same NumPy function to one chunk '
                      'of each source in order',
    'streamed-masked': 'the masked streams handler applies the numpy.ma function, or requesting '
                       'it raises TypeError',
    'sources': 'the sources are the operands, in order',
    'operator': 'every operator method builds the function of its name with the operands in '
                'forward / reflected order',
    'operator-refuses': 'an operand that is not array-like makes the operator return '
                        'NotImplemented',
}

UNARY = '''negative absolute rint sign conj:conjugate exp exp2 log log2 log10 expm1 sqrt square
reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh deg2rad
rad2deg invert logical_not isreal iscomplex isinf isnan signbit floor ceil trunc'''.split()
BINARY = '''add sub:subtract subtract multiply floor_divide true_divide divide:true_divide power
arctan2 hypot bitwise_and bitwise_or bitwise_xor left_shift right_shift greater greater_equal
less less_equal not_equal equal logical_and logical_or logical_xor maximum minimum fmax fmin
copysign nextafter ldexp fmod'''.split()
# functions without a masked counterpart although numpy.ma has one of that name
NOMASK = {'fmod'}
OPS = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'floordiv': 'floor_divide',
       'div': 'true_divide', 'truediv': 'true_divide', 'pow': 'power'}


def table():
    for names, n in ((UNARY, 1), (BINARY, 2)):
        for x in names:
            b, _, f = x.partition(':')
            f = f or b
            has = f in models.NP['ma'] and b not in NOMASK
            yield b, n, models.ext('numpy.' + f), (models.ext('numpy.ma.' + f) if has else None)


class Q(object):
    def __init__(self, chk, C):
        self.chk, self.C, self.I = chk, C, C.I

    def operands(self, n):
        """[(label, args, [operand source names])]."""
        C = self.C
        A2 = C.array('A', 2)
        if n == 1:
            yield 'A', [A2], ['A']
            return
        sh = list(C.I.items(C.I.info(A2)['attrs']['shape'], C.st0))
        B2 = C.array('B', 2, shape=sh)
        yield 'A,B', [A2, B2], ['A', 'B']
        yield 'A,A', [A2, A2], ['A', 'A']
        yield 'A,B[1d]', [A2, C.array('B', 1, shape=sh[1:])], ['A', 'B']
        yield 'A,B[1,n]', [A2, C.array('B', 2, shape=[ONE, sh[1]])], ['A', 'B']
        yield 'A[1d],B', [C.array('A', 1, shape=sh[1:]), B2], ['A', 'B']
        yield 'A,numpy', [A2, C.I.sym('B', 'nd', ndim=2, attrs={
            'shape': T('tuple', *sh), 'dtype': C.dtype('B.dtype')})], ['A', 'B']
        yield 'numpy,A', [C.I.sym('B', 'nd', ndim=2, attrs={
            'shape': T('tuple', *sh), 'dtype': C.dtype('B.dtype')}), A2], ['B', 'A']
        yield 'A,2', [A2, const(2)], ['A', 2]
        yield 'A,2.5', [A2, const(2.5)], ['A', 2.5]
        yield '2,A', [const(2), A2], [2, 'A']

    def isop(self, x, want, st):
        """Does the operand term x stand for source `want`?"""
        if isinstance(want, str):
            return set(reach(x, st, self.I)) == {want}
        if reach(x, st, self.I):
            return False
        return True if self.mentions(x, want, st, set()) else None

    def mentions(self, x, v, st, seen):
        if x is None or x.sid in seen:
            return False
        seen.add(x.sid)
        if x.op == 'const' and type(x.a[0]) is type(v) and x.a[0] == v:
            return True
        sub = list(children(x))
        r = self.I.rec(x, st)
        if isinstance(r, Inst):
            sub += list(r.fields.values())
        if isinstance(r, Lst):
            sub += list(r.items or ())
        return any(self.mentions(y, v, st, seen) for y in sub)

    def applied(self, val, st, func, opers, how):
        """True / False / None, detail."""
        I = self.I
        t = core(val, I, st)
        if t.op == 'bin' or t.op == 'neg':
            t = self.unbin(t)
        if t.op != 'call' or t.a[0].op != 'ext' or not t.a[0].a[0].startswith('numpy.'):
            if t.op == 'call' and t.a[0].op == 'ext' or not unk_in(t):
                if t.op in ('conv', 'const', 'sub', 'sym'):
                    return False, 'the result is %s' % str(t)[:200]
            return None, 'result not understood: %s' % str(t)[:200]
        f, args, kw = t.a[:3]
        bad = [k for k, v in kw if k not in ('dtype', 'out', 'casting', 'order', 'subok')]
        if bad:
            return None, 'keyword %s' % bad
        if f.a[0] in ('numpy.ma.filled', 'numpy.ma.getdata', 'numpy.where', 'numpy.ma.where'):
            return None, 'result not understood: %s' % str(t)[:200]
        if f.sid != func.sid:
            return False, 'applies %s instead of %s' % (f.a[0], func.a[0])
        if len(args) != len(opers):
            return False, '%d operands instead of %d' % (len(args), len(opers))
        for i, (x, w) in enumerate(zip(args, opers)):
            r = self.isop(x, w, st)
            if r is False:
                return False, 'operand %d is %s, not %s' % (i + 1, str(x)[:120], w)
            if r is None:
                return None, 'operand %d not understood: %s' % (i + 1, str(x)[:120])
            if how and isinstance(w, str):
                for c in walk(core(x, I, st)):
                    if c.op == 'conv' and c.a[0] != how:
                        return False, 'operand %d is converted %s' % (i + 1, c.a[0])
        return True, '%s(%s)' % (f.a[0], ', '.join(str(w) for w in opers))

    def unbin(self, t):
        names = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide',
                 '//': 'floor_divide', '**': 'power', '&': 'bitwise_and', '|': 'bitwise_or',
                 '^': 'bitwise_xor', '<<': 'left_shift', '>>': 'right_shift'}
        if t.op == 'bin' and t.a[0] in names:
            ma = any(c.op == 'conv' and c.a[0] == 'ma' for c in walk(t))
            return T('call', models.ext(('numpy.ma.' if ma else 'numpy.') + names[t.a[0]]),
                     (t.a[1], t.a[2]), ())
        return t

    def typeerror(self, r):
        return r.dead and r.raises and all(o.val.a[0] == 'TypeError' for o in r.raises)

    def instance(self, name, res, nf, maf, opers):
        chk, C = self.chk, self.C
        site = 'biggus.' + name
        if res.dead or res.val.op != 'ref':
            if res.dead and not res.unsupported:
                chk.bad('direct-plain', site, 'biggus/_init.py',
                        'requesting it always raises %s' % exc_text(res))
            else:
                chk.dunno('direct-plain', site, 'construction: %s' % str(res.val)[:100])
            return
        inst, st = res.val, res.st
        label = '%s(%s)' % (site, ', '.join(str(o) for o in opers))
        r = C.method(inst, 'ndarray', st=st.copy())
        if r.dead:
            v, d = (None, 'raises %s' % exc_text(r)) if r.unsupported else \
                (False, 'ndarray() always raises %s' % exc_text(r))
        else:
            v, d = self.applied(r.val, r.st, nf, opers, 'nd')
        chk.verdict(v, 'direct-plain', label, site, d)
        r = C.method(inst, 'masked_array', st=st.copy())
        if maf is None:
            ok = self.typeerror(r)
            if not ok and not r.dead:
                v, d = self.applied(r.val, r.st, nf, opers, None)
                v, d = (None, d) if v is None else (False, 'computes %s instead of raising' % d)
            else:
                v, d = (True, 'raises TypeError') if ok else (None, exc_text(r))
            chk.verdict(v, 'direct-masked', label, site, d)
        else:
            if r.dead:
                v, d = (False, 'masked_array() always raises %s' % exc_text(r)) \
                    if not r.unsupported else (None, 'not understood')
            else:
                v, d = self.applied(r.val, r.st, maf, opers, 'ma')
            chk.verdict(v, 'direct-masked', label, site, d)
        # streamed
        r = C.attr(inst, 'sources', st=st.copy())
        srcs = None if r.dead else C.I.items(r.val, r.st)
        if srcs is None:
            chk.dunno('sources', label, 'sources not understood')
        else:
            v = len(srcs) == len(opers)
            for x, w in zip(srcs, opers):
                q = self.isop(x, w, r.st)
                v = v if q else q if v else v
            chk.verdict(v, 'sources', label, site, 'sources are %s' % (
                ['/'.join(reach(x, r.st, self.I)) or str(x)[:40] for x in srcs],))
        for masked, f in ((False, nf), (True, maf)):
            rule = 'streamed-masked' if masked else 'streamed-plain'
            r = C.method(inst, 'streams_handler', [const(masked)], st=st.copy())
            if f is None:
                if self.typeerror(r):
                    chk.ok(rule, label, 'raises TypeError')
                    continue
                f2 = nf
            else:
                f2 = f
                if r.dead:
                    chk.verdict(None if r.unsupported else False, rule, label, site,
                                'streams_handler() raises %s' % exc_text(r))
                    continue
            chunk = C.get('Chunk')
            keys = self.I.sym('keys', 'tuple')
            ds = [self.I.sym('D%d' % i, 'ma' if masked else 'nd', ndim=2,
                             attrs={'dtype': C.dtype('D%d.dtype' % i)})
                  for i in range(len(opers))]
            mk = C.run(lambda I, s: T('tuple', *[I.call(chunk, [keys, d], {}, s) for d in ds]),
                       st=r.st)
            if mk.dead:
                chk.dunno(rule, label, 'Chunk')
                continue
            h = r.val
            r2 = C.run(lambda I, s: I.call(I.getattr(h, 'process_chunks', s), [mk.val], {}, s),
                       st=mk.st)
            if r2.dead:
                if f is None and self.typeerror(r2):
                    chk.ok(rule, label, 'raises TypeError')
                else:
                    chk.verdict(None if r2.unsupported else False, rule, label, site,
                                'process_chunks raises %s' % exc_text(r2))
                continue
            d = C.attr(r2.val, 'data', st=r2.st)
            k = C.attr(r2.val, 'keys', st=r2.st)
            if d.dead or k.dead:
                chk.dunno(rule, label, 'result chunk: %s' % str(r2.val)[:100])
                continue
            v, det = self.applied(d.val, d.st, f2, ['D%d' % i for i in range(len(opers))], None)
            if f is None and v is not None:
                v, det = False, 'computes %s instead of raising' % det
            if v and k.val.sid != keys.sid:
                v, det = (False if k.val.op in ('const', 'tuple') else None), \
                    'result keys are %s' % k.val
            chk.verdict(v, rule, label, site, det)

    def operators(self):
        chk, C = self.chk, self.C
        base = C.get('Array')
        classes = [c for c in C.array_classes()]
        seen = set()
        for op, f in OPS.items():
            func = models.ext('numpy.' + f)
            for refl in (False, True):
                m = '__%s%s__' % ('r' if refl else '', op)
                for ci in classes:
                    a, owner = C.I.find(ci, m)
                    label = '%s.%s' % (ci.name, m)
                    if a is None:
                        if op == 'div':
                            continue         # Python 2 only
                        chk.bad('operator', label, 'class %s' % ci.name,
                                'the operator method does not exist')
                        continue
                    key = (m, a.sid)
                    if key in seen:
                        continue
                    seen.add(key)
                    self.operator(label, a, func, refl)

    def operator(self, label, fn, func, refl):
        chk, C = self.chk, self.C
        A = C.array('A', 2)
        sh = list(C.I.items(C.I.info(A)['attrs']['shape'], C.st0))
        B = C.array('B', 2, shape=sh)
        for other, o in ((B, 'B'), (const(3), 3)):
            r = C.call(fn, [A, other])
            want = [o, 'A'] if refl else ['A', o]
            lab = '%s(A, %s)' % (label, o)
            ni = T('ext', 'builtins.NotImplemented')
            leaves = [] if r.dead else [x for _, x in phi_leaves(r.val) if x.sid != ni.sid]
            val = leaves[0] if leaves and len({x.sid for x in leaves}) == 1 else r.val
            if not r.dead and not leaves:
                chk.bad('operator', lab, label, 'always returns NotImplemented')
                continue
            if r.dead or val.op != 'ref':
                chk.verdict(None if r.unsupported or not r.dead else False, 'operator', lab,
                            label, 'result %s, raises %s' % (str(r.val)[:100], exc_text(r)))
                continue
            r2 = C.method(val, 'ndarray', st=r.st)
            if r2.dead:
                chk.dunno('operator', lab, 'ndarray() raises')
                continue
            v, d = self.applied(r2.val, r2.st, func, want, 'nd')
            chk.verdict(v, 'operator', lab, label, d)
        junk = C.I.sym('other', 'inst', isinst={}, notarray=True)
        C.I.overrides_sym = None
        r = C.call(fn, [A, junk])
        if r.dead:
            if any(o.val.a[0] == 'TypeError' for o in r.raises) and not r.unsupported:
                chk.bad('operator-refuses', label, label,
                        'TypeError escapes instead of NotImplemented')
            else:
                chk.dunno('operator-refuses', label, exc_text(r))
            return
        ni = T('ext', 'builtins.NotImplemented')
        leaves = [x for _, x in phi_leaves(r.val)]
        esc = [o for o in r.raises if o.val.a[0] == 'TypeError']
        if esc:
            chk.bad('operator-refuses', label, label, 'TypeError escapes')
        elif any(x.sid == ni.sid for x in leaves):
            chk.ok('operator-refuses', label, 'returns NotImplemented')
        else:
            chk.dunno('operator-refuses', label, 'result %s' % str(r.val)[:120])


def check(chk, root, tier):
    C = Ctx(root)
    q = Q(chk, C)
    for name, n, nf, maf in table():
        f = C.get(name)
        pub = C.st0.envs.get('mod:biggus', {}).get(name)
        if f is None or pub is None:
            chk.bad('direct-plain', 'biggus.' + name, 'biggus/__init__.py',
                    'the public function does not exist')
            continue
        for label, args, opers in q.operands(n):
            if tier == 'quick' and n == 2 and name not in ('add', 'subtract', 'copysign') and \
                    label not in ('A,B', 'A,2', '2,A'):
                continue
            res = C.call(pub, args)
            q.instance(name, res, nf, maf, opers)
    q.operators()
    chk.assumptions += ['the result of applying a NumPy function to its operands is right '
                        '(NumPy is trusted)',
                        'numpy.ma and ufunc facts (names, number of operands) are those of the '
                        'installed NumPy']
    return [C]
