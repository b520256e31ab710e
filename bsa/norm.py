"""Normal forms and reachability used by the property queries."""
from .terms import *      # noqa
from .interp import Inst, Lst, Dct

DATA = ('array', 'concrete', 'nd', 'ma', 'anynd', 'ndint', 'ndbool')
WRAP = {'numpy.asarray', 'numpy.array', 'numpy.asanyarray', 'numpy.ascontiguousarray',
        'numpy.ma.asarray', 'numpy.ma.array', 'numpy.ma.MaskedArray', 'numpy.ma.asanyarray',
        'numpy.require', 'numpy.atleast_1d'}
WRAPM = {'astype', 'copy', 'view'}


def fields(v, st):
    r = st.heap.get(v.a[0]) if v.op == 'ref' else None
    return r.fields if isinstance(r, Inst) else {}


def reach(t, st, I, seen=None, out=None):
    """Data-bearing symbols reachable from a value (through the heap)."""
    seen = set() if seen is None else seen
    out = {} if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        if x is None:
            continue
        k = x.sid
        if k in seen:
            continue
        seen.add(k)
        if x.op == 'sym' and I.info(x).get('kind') in DATA:
            out[x.a[0]] = x
        if x.op == 'ref':
            r = st.heap.get(x.a[0])
            if isinstance(r, Inst):
                stack.extend(r.fields.values())
            elif isinstance(r, Lst):
                if r.items is not None:
                    stack.extend(r.items)
                else:
                    stack.append(r.seq)
                    stack.extend(r.tail)
            elif isinstance(r, Dct):
                for k2, v in r.items:
                    stack += [k2, v]
                stack.append(r.base)
        stack.extend(x.a[1:] if x.op == 'phi' else children(x))
    return out


def core(t, I, st, casts=None):
    """Strip wrappers that keep the element values (up to a cast)."""
    while True:
        if t.op == 'call':
            f, args, kw = t.a[:3]
            k = dict(kw)
            if f.op == 'ext' and f.a[0] in WRAP and len(args) >= 1 and 'mask' not in k and \
                    not (f.a[0].endswith('MaskedArray') and len(args) > 1) and \
                    not (f.a[0] in ('numpy.ma.array',) and len(args) > 2):
                if casts is not None:
                    casts.append(k.get('dtype', args[1] if len(args) > 1 else None))
                t = args[0]
                continue
            if f.op == 'bmx' and f.a[1] in WRAPM and (f.a[1] != 'view' or not args):
                if casts is not None and f.a[1] == 'astype':
                    casts.append(args[0] if args else k.get('dtype'))
                t = f.a[0]
                continue
        if t.op == 'withattr' and t.a[1] == 'fill_value':
            t = t.a[0]
            continue
        if t.op == 'phi':
            a, b = core(t.a[1], I, st), core(t.a[2], I, st)
            if a.sid == b.sid:
                t = a
                continue
            d = I.decide(t.a[0], st)
            if d is not None:
                t = t.a[1 if d else 2]
                continue
        return t


def unk_in(t, st=None):
    return contains(t, lambda x: x.op == 'unk')


def exc_text(r):
    return '; '.join('%s' % o.val.a[0] for o in r.raises[:6])


def site_of(o, I=None):
    n = o.node
    return 'line %d' % n.lineno if n is not None and hasattr(n, 'lineno') else '?'


def not_masked_constant(I, c, st):
    """Case split: no value is the masked constant (selections of single masked
    elements; the other case has no elements to speak of)."""
    if c.op == 'cmp' and c.a[0] == 'is' and any(
            x.op == 'ext' and x.a[0] == 'numpy.ma.masked' for x in c.a[1:]):
        return False
    return None
