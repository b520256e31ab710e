"""What C06 and C07 look at: conversions of every kind of array, also of rank 0 and indexed."""
from .zoo import *        # noqa
from .vtype import Eval, explore, Unk, LONG, V, CHARS, ALL


def rank0(C):
    """Specimens of rank 0 and 1."""
    I = C.I
    d = C.dtype('d')
    A = C.array('A', 0, shape=[], dtype=d, plain=True)
    B = C.array('B', 0, shape=[], plain=True)
    n0 = C.int('n0', 0)
    A1 = C.array('A1', 1, shape=[n0], dtype=d, plain=True)
    B1 = C.array('B1', 1, shape=[n0], plain=True)
    for cn in ('NumpyArrayAdapter', 'OrthoArrayAdapter'):
        if C.get(cn) is None:
            continue
        for r in (0, 1):
            for kind in ('concrete', 'nd', 'ma'):
                X = C.concrete('X', r) if kind == 'concrete' else C.nd('X', r, kind)
                yield Spec('%s of %s of rank %d' % (cn, {
                    'concrete': 'a file variable', 'nd': 'an ndarray',
                    'ma': 'a masked array'}[kind], r), C.call(cn, [X]), [X], r)
    for r, S, S2 in ((0, A, B), (1, A1, B1)):
        if C.get('ArrayContainer') is not None:
            yield Spec('ArrayContainer of rank %d' % r, C.call('ArrayContainer', [S]), [S], r)
        if C.get('AsDataTypeArray') is not None:
            yield Spec('AsDataTypeArray of rank %d' % r, C.call('AsDataTypeArray', [
                S, C.dtype('t')]), [S], r)
        if C.get('masked_equal') is not None:
            yield Spec('masked_equal of rank %d' % r, C.call('masked_equal', [
                S, I.sym('v', 'npscalar')]), [S], r)
        if C.get('ConstantArray') is not None:
            yield Spec('ConstantArray of rank %d' % r, C.call('ConstantArray', [
                T('tuple', *[n0][:r]), I.sym('v', 'npscalar'), C.dtype('dt')]), [], r)
        for n in ('zeros', 'ones'):
            if C.get(n) is not None:
                yield Spec('%s of rank %d' % (n, r), C.call(n, [T('tuple', *[n0][:r])]), [], r)
        if C.get('TransposedArray') is not None:
            yield Spec('TransposedArray of rank %d' % r, C.call('TransposedArray', [S]), [S], r)
        if C.get('NewAxesArray') is not None:
            for k in (0, 1):
                yield Spec('NewAxesArray (%d) of rank %d' % (k, r), C.call('NewAxesArray', [
                    S, T('tuple', *[const(k)] + [ZERO] * r)]), [S], r + k)
        if C.get('BroadcastArray') is not None:
            yield with_lists(C, 'BroadcastArray of rank %d' % r, [S], r + 1, None,
                             lambda lst, dct: ('BroadcastArray', [S, dct([]), T(
                                 'tuple', C.int('L2', 1))]))
        if C.get('ArrayStack') is not None:
            yield with_lists(C, 'ArrayStack of rank %d' % r, [S, S2], r + 1, None,
                             lambda lst, dct: ('ArrayStack', [lst([
                                 S, C.array('S2', r, shape=[n0][:r], dtype=d, plain=True)])]))
        if r and C.get('LinearMosaic') is not None:
            Ps = [C.array('P%d' % i, 1, shape=[const(m)], dtype=d, plain=True)
                  for i, m in enumerate((2, 3))]
            yield with_lists(C, 'LinearMosaic of rank 1', Ps, 1, [const(5)],
                             lambda lst, dct: ('LinearMosaic', [lst(Ps), ZERO]))
        for n, v, k in elementwise_names(C):
            yield Spec('%s of rank %d' % (n, r), C.call(v, [S, S2][:k]), [S, S2][:k], r)
            if k == 2:
                for x in (2, 300, 2.5):
                    yield Spec('%s of rank %d with %s' % (n, r, x), C.call(v, [
                        S, const(x)]), [S], r)
                yield Spec('%s of rank %d with a NumPy scalar' % (n, r), C.call(v, [
                    S, I.sym('w', 'npscalar')]), [S], r)
        if r:
            for n in AGGS:
                if C.get(n) is not None:
                    yield Spec('%s of rank 1' % n, C.call(n, [S], {'axis': ZERO}), [S], 0)


def nested(C):
    """Arrays made from other arrays of the package."""
    I = C.I
    n0, n1 = C.int('n0', 0), C.int('n1', 0)
    d = C.dtype('d')
    A = C.array('A', 2, shape=[n0, n1], dtype=d, plain=True)
    B = C.array('B', 2, shape=[n0, n1], plain=True)
    if C.get('add') is None or C.get('AsDataTypeArray') is None:
        return
    E = C.call('add', [A, B])
    for w, f in ways(C, E.val, E.st, 2) if not E.dead and E.val.op == 'ref' else ():
        r = f(E.st.copy())
        yield Spec('%s of an elementwise sum' % w, r, [A, B], None)
    M = C.call('masked_equal', [A, I.sym('v', 'npscalar')]) if C.get('masked_equal') else None
    if M is not None and not M.dead and M.val.op == 'ref':
        for w, f in ways(C, M.val, M.st, 2):
            r = f(M.st.copy())
            yield Spec('%s of an array masked by value' % w, r, [A], None)
    for kind, name in (('nd', 'an ndarray'), ('ma', 'a masked array')):
        X = C.nd('X', 2, kind)
        st = C.run(lambda I_, q: NONE).st
        for cn in ('TransposedArray', 'AsDataTypeArray', 'NewAxesArray', 'BroadcastArray',
                   'ArrayContainer', 'MaskValueArray'):
            if C.get(cn) is None:
                continue
            if cn == 'BroadcastArray':
                yield with_lists(C, '%s of %s' % (cn, name), [X], 3, None, lambda lst, dct: (
                    'BroadcastArray', [X, dct([]), T('tuple', C.int('L2', 1))]))
                continue
            more = {'AsDataTypeArray': [C.dtype('t')],
                    'NewAxesArray': [T('tuple', const(1), ZERO, ZERO)],
                    'MaskValueArray': [I.sym('v', 'npscalar')]}.get(cn, [])
            yield Spec('%s of %s' % (cn, name), C.call(cn, [X] + more), [X], None)
    K = C.call('mean', [A], {'axis': ZERO}) if C.get('mean') is not None else None
    if K is not None and not K.dead and K.val.op == 'ref':
        for w, f in ways(C, K.val, K.st, 1):
            r = f(K.st.copy())
            yield Spec('%s of a mean' % w, r, [A], None)


def keyed(C, s):
    kinds = ['i' * s.rank, 's' * s.rank, 'is'[:s.rank], 'si'[:s.rank], 'a' + 's' * (s.rank - 1),
             'b' + 's' * (s.rank - 1), 'N'] if s.rank else ['', 'N']
    if s.dims is not None:
        kinds = [k.replace('i', 'c').replace('s', ':') for k in kinds]
        kinds = [k for k in kinds if 'a' not in k and 'b' not in k]
    seen = set()
    for k in kinds:
        if k in seen or not k:
            continue
        seen.add(k)
        yield k, indexed(C, s, keyset(C, s, k))


def isarray(C, r):
    if r.dead or r.val.op != 'ref':
        return False
    rec = r.st.heap.get(r.val.a[0])
    return getattr(rec, 'cls', None) is not None and C.I.isarraycls(rec.cls)


def subjects(C, full):
    """(label, array, state) of everything which is converted."""
    for s in specimens(C, full):
        if not s.ok:
            yield s.label, None, s.why
            continue
        yield s.label, s.r.val, s.r.st
        for k, r in keyed(C, s):
            if isarray(C, r):
                if r.unsupported:
                    yield '%s[%s]' % (s.label, k), None, str(r.unsupported[0])[:100]
                else:
                    yield '%s[%s]' % (s.label, k), r.val, r.st
            elif not r.dead and r.val.op == 'sym' and C.I.info(r.val).get('kind') == 'array':
                pass
    for s in rank0(C):
        if not s.ok:
            if not s.r.dead:
                yield s.label, None, s.why
            continue
        yield s.label, s.r.val, s.r.st
    for s in nested(C):
        if s.ok and isarray(C, s.r):
            yield s.label, s.r.val, s.r.st


def conversions(C, val, st):
    for m, kind in (('ndarray', 'nd'), ('masked_array', 'ma')):
        yield m, kind, C.method(val, m, [], st=st.copy())


def say(sc):
    out = []
    for (kind, key), v in sc.fixed.items():
        if kind == 'dt':
            out.append('%s = %s' % (key, LONG.get(v, v)))
        elif kind == 'mask':
            if v:
                out.append(key)
        elif kind == 'el':
            if v:
                out.append('the element is masked')
        elif kind == 'file':
            if v:
                out.append(key)
    return ', '.join(out[:4])
