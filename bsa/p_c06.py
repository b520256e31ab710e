"""C06: masked conversion keeps masks; plain conversion is plain."""
from .vtspec import *     # noqa
from . import c06_engine as E6
from .p_c03 import Ctx as PkgCtx

RULES = {
    'masked': 'masked_array gives a MaskedArray in which the elements are masked wherever '
              'they are masked in the source they come from',
    'plain': 'ndarray gives an ordinary ndarray, also for rank 0',
    'threads': 'a masked evaluation converts its sources with masked_array and uses handlers '
               'for masked data, an ordinary one uses ndarray and plain handlers; no thread '
               'takes the mask off what it passes on',
    'results': 'the results of a masked evaluation are stored in masked arrays, those of an '
               'ordinary evaluation in plain ones',
    'save': 'save stores masked pieces exactly if it is asked to',
}
KINDS = {'nd': 'a plain ndarray', 'npsc': 'a NumPy scalar instead of an array',
         'masked': 'the constant numpy.ma.masked instead of an array', 'ma': 'a masked array',
         'py': 'a Python number', 'op': 'an object'}
DOM = {'dt': ('d', 'i')}


def lost(sc, v):
    """The sources whose masked elements are not masked in the result."""
    if ALL in v.tags:
        return None, True
    have = {}
    for s, h in v.tags:
        have.setdefault(s, set()).add(h)
    for s, h in sorted(v.data, key=lambda x: (x[0], str(x[1]))):
        if not sc.fixed.get(('mask', 'elements of %s masked' % s)):
            continue
        if s not in have:
            return 'loses the mask of %s' % s, True
        if h not in have[s]:
            canon = all(x[-1] is True for hh in list(have[s]) + [h] for x in hh)
            return 'masks other elements than those masked in %s' % s, canon
    return None, True


class Stripping(Eval):
    stripping = True


def one(chk, C, lab, val, st):
    for m, kind, r in conversions(C, val, st):
        rule = 'masked' if kind == 'ma' else 'plain'
        what = '%s of %s' % (m, lab)
        if r.dead:
            continue
        if r.unsupported:
            chk.dunno(rule, what, str(r.unsupported[0])[:140])
            continue
        n = 0
        bad = unk = None
        for sc, v in explore(lambda sc: (Stripping if kind == 'ma' else Eval)(C, sc, r.st, DOM).ev(r.val)):
            n += 1
            if isinstance(v, Unk) or not isinstance(v, V):
                unk = unk or str(v)
                continue
            why, sure = None, True
            if v.kind != kind:
                why = 'gives %s' % KINDS.get(v.kind, v.kind)
            elif kind == 'ma':
                why, sure = lost(sc, v)
                if why is None and not v.tags and any(
                        k[0] == 'el' and b for k, b in sc.fixed.items()):
                    why = 'gives an element which is not masked for one that is'
            if why is not None:
                if sc.unsure or not sure:
                    unk = unk or why
                else:
                    bad = bad or (why, say(sc))
        if bad:
            chk.bad(rule, what, site(C, val, st, m), '%s%s' % (
                bad[0], ' when ' + bad[1] if bad[1] else ''))
        elif unk:
            chk.dunno(rule, what, unk)
        elif n:
            chk.ok(rule, what, '%d scenarios' % n)


def site(C, val, st, m):
    rec = st.heap.get(val.a[0])
    ci = getattr(rec, 'cls', None)
    if ci is None:
        return '?'
    f, owner = C.I.find(ci, m)
    node = C.I.funcs[f.a[0]].node if f is not None and f.op == 'func' and \
        f.a[0] in getattr(C.I, 'funcs', {}) else None
    return '%s.%s%s' % (getattr(owner, 'name', ci.name), m,
                        ':%d' % node.lineno if node is not None else '')


def check(chk, root, tier):
    chk.softness = 1         # conditions about types are evaluated, see vtype
    from .typestate import Package
    engine = E6.start(root, tier)
    C = Ctx(root)
    n = 0
    for lab, val, st in subjects(C, tier != 'quick'):
        n += 1
        if val is None:
            chk.dunno('plain', lab, st)
            continue
        one(chk, C, lab, val, st)
    chk.extra['subjects'] = n
    fns = E6.finish(chk, engine)
    return [C, PkgCtx(root, Package(root), fns, 0)]
