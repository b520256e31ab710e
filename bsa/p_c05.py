"""C05: aggregations equal the textbook statistic, however the data is chunked.

The streams handler of every aggregation is analysed as a transition system: what a chunk
does to its fields, and what its result is.  Values are followed for one generic cell of the
result as exact functions of the elements of the source (cellwise.py).

 exact       for short sequences of chunks the extracted closed form of the result is compared,
             as a rational function of the elements, with the statistic.  A difference is a
             violation.
 invariant   every field is a function of the counts, power sums and extremes of the elements
             so far (found from the closed forms, then shown to be kept by one more chunk of
             any length), and the result computed from those functions is the statistic.
 group       a chunk of the next result cell yields the result of the previous one unchanged,
             under its keys, and starts from scratch.
"""
import itertools

from .ctx import *        # noqa
from .norm import *       # noqa
from .interp import Inst
from .rat import Rat
from .cellwise import (Any_, Arr, Cell, Dt, Eval, Ext, F0, F1, K, Rest, Root, Sc, Unk, Wrong,
                       equal, extreme, num)

RULES = {
    'exact': 'the closed form of the result of a few chunks is the statistic',
    'masked': 'the result is masked exactly where it has to be',
    'empty': 'the count, or the sum, of no elements is 0',
    'storage': 'no intermediate value is truncated to, or wraps around in, an integer type',
    'invariant': 'fields are functions of counts, power sums and extremes, kept by every chunk',
    'group': 'the result of one group of chunks does not depend on the next group',
}
STATS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')


class Stats(object):
    """Counts, power sums and extremes of the elements so far."""
    def __init__(self, c=F0, m=F0, s1=F0, s2=F0, lo=(), hi=()):
        self.c, self.m, self.s1, self.s2 = c, m, s1, s2
        self.lo, self.hi = tuple(lo), tuple(hi)

    def add(self, x):
        if isinstance(x, Rest):
            return Stats(self.c + x.nu, self.m + x.nm, self.s1 + x.p[1], self.s2 + x.p[2],
                         self.lo + ((x.lo,) if x.u is not None else ()),
                         self.hi + ((x.hi,) if x.u is not None else ()))
        if x.m:
            return Stats(self.c, self.m + F1, self.s1, self.s2, self.lo, self.hi)
        return Stats(self.c + F1, self.m, self.s1 + x.v, self.s2 + x.v * x.v,
                     self.lo + (x.v,), self.hi + (x.v,))

    @property
    def regime(self):
        z = self.c.signs()
        if z == {0}:
            return 'E' if self.m.signs() == {0} else 'P0'
        return 'P1'

    def __repr__(self):
        return 'C=%r M=%r S1=%r' % (self.c, self.m, self.s1)


def spec(name, masked, g, par):
    """(masked?, value) of the statistic; par: ddof or mdtol, and the sign facts."""
    n = g.c + g.m
    if name == 'count':
        return False, g.c if masked else n
    empty = g.c.signs() == {0}
    if empty:
        return True, None
    if name == 'min':
        return False, extreme('min', g.lo)
    if name == 'max':
        return False, extreme('max', g.hi)
    if name == 'sum':
        return False, g.s1
    if name == 'mean':
        if masked:
            s = (g.m / n - par).signs()
            t = (F1 - par).signs()
            if t <= {1} and s <= {1}:
                return True, None
            if not (s <= {-1, 0} or t <= {-1, 0}):
                raise Unk('tolerance')
        return False, g.s1 / g.c
    s = (g.c - par).signs()
    if s <= {-1, 0}:
        return True, None
    if not s <= {1}:
        raise Unk('ddof')
    q = (g.s2 - g.s1 * g.s1 / g.c) / (g.c - par)
    return False, Root(q) if name == 'std' else q


def agree(v, exp):
    """Compare one result element with the specified value: (rule, True/False/None, text)."""
    em, ev = exp
    if bool(v.m) != em:
        return 'masked', False, '%s, but it has to be %s' % (
            'masked' if v.m else 'not masked', 'masked' if em else 'unmasked')
    if em:
        return 'masked', True, ''
    a, b = num(v.v), num(ev)
    r = equal(a, b)
    return 'exact', r, '%r instead of %r' % (a, b)


class Handler(object):
    """One handler of the code and the transitions extracted from it."""
    def __init__(self, C, name, masked, axis, rank, kw, plain_sizes=True):
        self.C, self.name, self.masked, self.axis, self.rank = C, name, masked, axis, rank
        I = C.I
        self.ok = False
        shape = [C.int('A.s%d' % i, 0) for i in range(rank)]
        self.A = C.array('A', rank, shape=shape, dtype=C.dtype('A.dtype'))
        self.total = shape[axis]
        st = C.state()
        k = dict(kw)
        k['axis'] = const(axis)
        r = C.call(name, [self.A], k, st=st)
        self.why = 'the call is not understood: %s' % str(r.unsupported[:1])[:80]
        if r.dead:
            self.why = 'the call always raises: %s' % exc_text(r)
            return
        h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st)
        if h.dead or h.val.op != 'ref' or h.unsupported:
            self.why = 'no streams handler: %s %s' % (exc_text(h), str(h.unsupported[:1])[:80])
            return
        self.h, self.st0 = h.val, h.st
        self.cls = h.st.heap[h.val.a[0]].cls
        self.ok = True

    def chunk(self, tag, st, group='g'):
        """A chunk object, and the symbol of its data."""
        C, I = self.C, self.C.I
        sh = []
        for i in range(self.rank):
            if i == self.axis and tag == 'empty':
                sh.append(const(0))
            elif i == self.axis:
                sh.append(C.int('%s.s%d' % (tag, i), 1))
            else:
                sh.append(C.int('%s.s%d' % (group, i), 0))
        D = I.sym(tag, 'ma' if self.masked else 'nd', ndim=self.rank, attrs={
            'shape': T('tuple', *sh), 'dtype': C.dtype('A.dtype')})
        ks = T('tuple', *[I.sym('%s.k%d' % (tag if i == self.axis else group, i), 'slice')
                          for i in range(self.rank)])
        c = C.call(C.get('Chunk'), [ks, D], st=st)
        outkeys = T('tuple', *[k for i, k in enumerate(ks.a) if i != self.axis])
        return c, D, sh, outkeys

    def process(self, tag, st, group='g'):
        """(result, D, shape, outkeys) of one more chunk."""
        c, D, sh, ok = self.chunk(tag, st, group)
        if c.dead:
            raise Unk('Chunk')
        p = self.C.method(self.h, 'process_chunks', [self.C.I.new_list(c.st, [c.val])],
                          st=c.st)
        if p.dead:
            raise Wrong('a chunk always raises %s' % exc_text(p))
        if p.unsupported:
            raise Unk(str(p.unsupported[0])[:90])
        return p, D, sh, ok

    def finalise(self, st):
        f = self.C.method(self.h, 'finalise', [], st=st)
        if f.dead:
            raise Wrong('finalise always raises %s' % exc_text(f))
        if f.unsupported:
            raise Unk(str(f.unsupported[0])[:90])
        d = self.C.attr(f.val, 'data', st=f.st)
        ks = self.C.attr(f.val, 'keys', st=f.st)
        if d.dead or d.unsupported or ks.dead:
            raise Unk('the result is not a chunk')
        return f, d.val, ks.val

    def fields(self, st):
        return dict(st.heap[self.h.a[0]].fields)

    def axes(self):
        return [K if i == self.axis else str(i) for i in range(self.rank)]

    def evaluator(self, chunks, total, extra=None):
        """chunks: [(D, shape terms, cells)]."""
        env = {}
        for D, sh, cells in chunks:
            env[D.sid] = Arr(self.axes(), cells, 'ma' if self.masked else 'nd', 'src')
            n = F0
            for c in cells:
                n = n + (c.nu + c.nm if isinstance(c, Rest) else F1)
            for i, s in enumerate(sh):
                if i == self.axis:
                    env[s.sid] = Sc(n, 'int')
                    env[('axis', s.sid)] = K
                else:
                    env[('axis', s.sid)] = str(i)
                    env[s.sid] = Sc(Rat.sym('>extent of axis %d' % i), 'int')
        shp = self.A.info['attrs']['shape'] if self.A.info and 'attrs' in self.A.info else None
        for i in range(self.rank):
            if i != self.axis and shp is not None:
                env[('axis', shp.a[i].sid)] = str(i)
                env[shp.a[i].sid] = Sc(Rat.sym('>extent of axis %d' % i), 'int')
        env[self.total.sid] = Sc(total, 'int')
        for k, v in (extra or {}).items():
            env[k] = v
        return Eval(self.C.I, env, axis=self.axis, rank=self.rank)

    def result(self, e, t):
        """The one cell of the result array."""
        v = e.ev(t)
        want = tuple(str(i) for i in range(self.rank) if i != self.axis)
        if not isinstance(v, Arr):
            raise Unk('the result is not an array')
        if v.axes != want:
            if v.sel is None and v.flat is None:
                raise Wrong('the result has axes %s instead of %s' % (v.axes, want))
            raise Unk('result axes')
        if v.sel is not None or len(v.cells) != 1:
            raise Unk('result')
        return v.cells[0]


def splits(n):
    """Compositions of n."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in splits(n - k):
            yield (k,) + r


def case(H, ch, cut, cells, par):
    """(verdict, rule, text, storage faults) for given elements."""
    g = Stats()
    for c in cells:
        g = g.add(c)
    env, pos = [], 0
    for (D, sh), k in zip(ch[0], cut):
        env.append((D, sh, cells[pos:pos + k]))
        pos += k
    e = H.evaluator(env, Rat(len(cells)))
    try:
        exp = spec(H.name, H.masked, g, par)
        if not H.masked and exp[0]:
            return 'skip', '', '', []
        r = H.result(e, ch[1])
        if not H.masked and r.m:
            return 'skip', '', '', []
        rule, ok, text = agree(r, exp)
    except Unk as x:
        return None, str(x), '', []
    except Wrong as x:
        return False, 'exact', str(x), []
    return ok, rule, text, e.faults


def exact(chk, H, par, label, maxn, site):
    """Compare closed forms for all the ways to cut up to maxn elements into chunks."""
    n = 0
    chains = {}
    worst = None
    for total in range(1, maxn + 1):
        for cut in splits(total):
            if len(cut) > 3:
                continue
            key = len(cut)
            if key not in chains:
                try:
                    st = H.st0.copy()
                    ds = []
                    for i in range(key):
                        p, D, sh, ok = H.process('D%d' % i, st)
                        st = p.st
                        ds.append((D, sh))
                    f, d, ks = H.finalise(st)
                    chains[key] = (ds, d)
                except Unk as x:
                    chains[key] = x
                except Wrong as x:
                    chk.bad('exact', label, site, str(x))
                    return False
            ch = chains[key]
            if isinstance(ch, Unk):
                worst = str(ch)
                continue
            for pat in itertools.product((False, True), repeat=total if H.masked else 0):
                pat = pat or (False,) * total
                what = 'chunks of %s elements, masked %s' % (
                    '+'.join(map(str, cut)), ''.join('-m'[m] for m in pat) or 'none')
                got = None
                # any elements; where the code compares them: positive ones, with zeros
                for var in ('any', 'positive', 'first zero', 'last zero'):
                    cells = []
                    for i in range(total):
                        v = Rat.sym('%s%d' % ('x' if var == 'any' else '>x', i))
                        if i == (0 if var == 'first zero' else total - 1) and 'zero' in var:
                            v = F0
                        cells.append(Cell(Rat.sym('g%d' % i) if pat[i] else v, pat[i]))
                    w = what if var == 'any' else '%s, %s' % (what, var)
                    got = case(H, ch, cut, cells, par)
                    if got[0] is False or (got[0] is True and var == 'any'):
                        break
                    if got[0] is True:
                        got = (None, 'compares elements', '', [])
                if got[0] == 'skip':
                    continue
                ok, rule, text, faults = got
                if ok is None:
                    worst = '%s %s (%s)' % (rule, text[:200], what)
                    continue
                what = w
                if ok is False:
                    chk.bad(rule, label, site, '%s; %s' % (text[:300], what))
                    return False
                if faults and not (H.name in ('sum', 'count') and all(
                        'of the source' in x for x in faults)):
                    chk.bad('storage', label, site, '%s; %s' % (faults[0], what))
                    return False
                n += 1
    if worst:
        chk.dunno('exact', label, worst)
        return None
    chk.ok('exact', label, '%d combinations of chunk sizes and masks' % n)
    chk.ok('masked', label)
    chk.ok('storage', label)
    return True


def empty(chk, H, label, site):
    """An axis without elements comes as a single chunk."""
    try:
        p, D, sh, ok = H.process('empty', H.st0.copy())
        f, d, ks = H.finalise(p.st)
        r = H.result(H.evaluator([(D, sh, [])], F0), d)
        if r.m or not isinstance(r.v, Rat) or r.v.const() is None:
            raise Unk('the result is not a number')
    except Unk as x:
        return chk.dunno('empty', label, str(x))
    except Wrong as x:
        return chk.bad('empty', label, site, str(x))
    if r.v.equals(F0):
        chk.ok('empty', label)
    else:
        chk.bad('empty', label, site, 'gives %s' % r.v)


# ------------------------------------------------------------------- invariants
def candidates(g, total, local=None):
    """Functions of the elements so far which a field may hold."""
    out = [('0', F0), ('1', F1), ('true', True), ('false', False)]
    for nm, s in (('', g), ('local ', local)):
        if s is None:
            continue
        c, m, n = s.c, s.m, s.c + s.m
        out += [(nm + 'count', c), (nm + 'length', n), (nm + 'masked', m),
                (nm + 'S1', s.s1), (nm + 'S2', s.s2)]
        if s.regime == 'P1':
            out += [(nm + 'mean', s.s1 / c), (nm + 'M2', s.s2 - s.s1 * s.s1 / c),
                    (nm + 'meansq', s.s2 / c),
                    (nm + 'var', (s.s2 - s.s1 * s.s1 / c) / c),
                    (nm + 'lo', extreme('min', s.lo)), (nm + 'hi', extreme('max', s.hi))]
        if s.regime != 'E' and n.signs() == {1}:
            out += [(nm + 'S1/length', s.s1 / n), (nm + 'masked share', m / n)]
    out += [('S1/total', g.s1 / total), ('S2/total', g.s2 / total)]
    return out


def lookup(cands, name):
    for n, v in cands:
        if n == name:
            return v
    return None


class NoProof(Exception):
    pass


def shape_of(v):
    """What a slot is, apart from the element values."""
    if isinstance(v, Sc):
        return ('sc', v.dt)
    if isinstance(v, Arr):
        if any(isinstance(c, Rest) for c in v.cells):
            raise NoProof('a field keeps the rest of a chunk')
        return ('arr', v.axes, v.kind, v.dt, v.flat, v.sel, len(v.cells))
    raise NoProof('a field is %s' % type(v).__name__)


def build(sh, tmpl, cands):
    """A value of that shape whose elements are the named functions."""
    def one(n):
        if n == '?':
            return Any_('unknown')
        v = lookup(cands, n)
        if v is None:
            raise NoProof('no %s' % n)
        return v
    if sh[0] == 'sc':
        return Sc(one(tmpl[0][0]), sh[1])
    return Arr(sh[1], [Cell(one(n), m) for n, m in tmpl], sh[2], sh[3], sh[5], sh[4])


def cells_of(v):
    return [Cell(v.v)] if isinstance(v, Sc) else v.cells


def veq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Any_) or isinstance(b, Any_):
        return False
    if a is None or b is None:
        return a is b
    return equal(a, b) is True


class Template(object):
    """Per regime: the names of the functions which the slots hold."""
    def __init__(self):
        self.shape = {}
        self.names = {}              # (regime, slot) -> [(name, masked)]

    def learn(self, regime, points):
        """points: [(slots, candidates)] reached in a regime; fix the names."""
        for slot in points[0][0]:
            if slot not in self.shape:
                self.shape[slot] = shape_of(points[0][0][slot])
            res = []
            for i, c0 in enumerate(cells_of(points[0][0][slot])):
                pick = '?'
                for n, _ in points[0][1]:
                    if all(i < len(cells_of(s[slot])) and
                           lookup(cs, n) is not None and
                           veq(cells_of(s[slot])[i].v, lookup(cs, n)) for s, cs in points):
                        pick = n
                        break
                res.append((pick, c0.m))
            self.names[regime, slot] = res

    def verify(self, regime, slots, cands):
        """Whether the values are those of the template."""
        for slot, v in slots.items():
            sh = shape_of(v)
            if sh != self.shape[slot]:
                a, b = sh, self.shape[slot]
                raise NoProof('%s changes its form: %s, %s' % (slot, a, b))
            names = self.names.get((regime, slot))
            if names is None:
                raise NoProof('regime %s' % (regime,))
            for c, (n, m) in zip(cells_of(v), names):
                if c.m != m:
                    raise NoProof('%s: mask' % slot)
                if n == '?':
                    continue
                w = lookup(cands, n)
                if w is None or not veq(c.v, w):
                    raise NoProof('%s is not always %s: %r' % (slot, n, c.v))

    def make(self, regime, cands):
        return {s: build(self.shape[s], self.names[regime, s], cands) for s in self.shape}


_n = [0]


def fresh(pre):
    _n[0] += 1
    return Rat.sym('%s%d' % (pre, _n[0]))


def generic(regime, masked):
    """Any statistics of that regime."""
    if regime == 'E':
        return Stats()
    if regime == 'P0':
        return Stats(F0, fresh('>m'))
    lo, hi = fresh('lo'), fresh('hi')
    return Stats(F1 + fresh('+c'), fresh('+m') if masked else F0, fresh('S1_'), fresh('S2_'), (lo,), (hi,))


def some(masked):
    return Cell(fresh('g') if masked else fresh('x'), masked)


def rest(kind, masked):
    """Arbitrarily many more elements: 'u' at least one unmasked, 'm' masked only."""
    _n[0] += 1
    xi = 'xi%d' % _n[0]
    if kind == 'u':
        nm = fresh('+rm') if masked else F0
        return Rest(xi, F1 + fresh('+rc'), nm,
                    {1: fresh('r1_'), 2: fresh('r2_')}, fresh('rlo'), fresh('rhi'),
                    Cell(Rat.sym(xi)), Cell(fresh('g'), True) if masked else None)
    return Rest(xi, F0, fresh('>rm'), {1: F0, 2: F0}, None, None,
                None, Cell(fresh('g'), True))


class Prover(object):
    def __init__(self, H, par):
        self.H, self.par = H, par
        self.total = Rat.sym('>total')
        self.stats0 = None           # statistics before the chunk being processed
        self.chunk_cells = None
        self.n_steps = 0

    # loops over a rest ----------------------------------------------------------
    def rest_loop(self, e, slots, vals, idx, seq, arr, i):
        H = self.H
        r = arr.cells[i]
        before = arr.cells[:i]
        # the elements of the chunk which come before the sequence of the loop
        D = self.chunk_cells
        if not any(isinstance(c, Rest) and c.xi == r.xi for c in D):
            raise Unk('rest of another chunk')
        g = self.stats0
        for c in D:
            if isinstance(c, Rest):
                break
            g = g.add(c)
        loc = Stats()
        for c in before:
            loc = loc.add(Cell(Rat.sym('?'), c.m) if not isinstance(c.v, Rat) else c)
        if before:
            loc = None
        tp = Template()

        def kinds():
            return (False, True) if r.w is not None else (False,)

        def step(vs, gg, ll, m):
            x = fresh('x')
            src = Cell(fresh('g'), True) if m else Cell(x, False)
            self.n_steps += 1
            out = e.step(slots, vs, idx, i, True if m else x)
            return out, gg.add(src), ll.add(src) if ll is not None else None

        def reg(gg, ll):
            return (gg.regime, ll.regime if ll is not None else '-')

        # find the functions along some short runs
        runs = {}
        frontier = [(vals, g, loc)]
        for depth in range(4):
            nxt = []
            for vs, gg, ll in frontier:
                for m in kinds():
                    if m and r.w is None or (not m and r.u is None):
                        continue
                    o = step(vs, gg, ll, m)
                    nxt.append(o)
                    runs.setdefault(reg(o[1], o[2]), []).append(
                        (o[0], candidates(o[1], self.total, o[2])))
            frontier = nxt[-4:]
        for rg, pts in runs.items():
            tp.learn(rg, pts[:10])
        # one step from any state
        for rg in list(runs):
            for m in kinds():
                if not m and r.u is None:
                    continue
                gg = generic(rg[0], H.masked)
                ll = None
                if rg[1] != '-':
                    ll = generic(rg[1], H.masked)
                    # the elements before the loop and those of the loop
                    if rg[0] == 'P1':
                        gg = gg if rg[1] == 'E' else Stats(
                            gg.c + ll.c, gg.m + ll.m, gg.s1 + ll.s1, gg.s2 + ll.s2,
                            gg.lo + ll.lo, gg.hi + ll.hi)
                    else:
                        gg = Stats(F0, gg.m + ll.m)
                vs = tp.make(rg, candidates(gg, self.total, ll))
                o = step(vs, gg, ll, m)
                tp.verify(reg(o[1], o[2]), o[0], candidates(o[1], self.total, o[2]))
        # the first step is covered by the runs
        g2 = g.add(r)
        l2 = loc.add(r) if loc is not None else None
        return tp.make(reg(g2, l2), candidates(g2, self.total, l2))

    # chunks ------------------------------------------------------------------------
    def chunks(self):
        ks = (False, True) if self.H.masked else (False,)
        for m in ks:
            for r in (None,) + (('u', 'm') if self.H.masked else ('u',)):
                yield m, r

    def run(self):
        H = self.H
        p, D, sh, ok = H.process('D0', H.st0.copy())
        f1 = H.fields(p.st)
        skip = {n for n, v in f1.items() if v.sid in self.keepsids(p.st)}
        # the first chunk, exactly
        base = []
        tp = Template()
        for m, r in self.chunks():
            cells = [some(m)] + ([rest(r, H.masked)] if r else [])
            base.append(self.fields_after(f1, skip, [(D, sh, cells)], Stats(), {}, cells))
        # any later chunk: the fields become symbols of the same kind
        st2 = p.st
        I = H.C.I
        names = [n for n in f1 if n not in skip and n in base[0][0]]
        syms = {}
        rec = st2.heap[H.h.a[0]]
        nf = dict(rec.fields)
        for n in names:
            info = dict(self.kindinfo(f1[n], st2))
            s = I.sym('F.' + n, info.pop('kind'), **info)
            syms[n] = s
            nf[n] = s
        st2.put(H.h.a[0], Inst(rec.cls, nf))
        q, D2, sh2, ok2 = H.process('D1', st2.copy())
        f2 = H.fields(q.st)
        # functions: from the first chunk and one or two more
        runs = {}
        for vs, g in base:
            runs.setdefault(g.regime, []).append((vs, candidates(g, self.total)))
        frontier = base
        for depth in range(2):
            nxt = []
            for vs, g in frontier:
                for m in ((False, True) if H.masked else (False,)):
                    cells = [some(m)]
                    o = self.fields_after(f2, skip, [(D2, sh2, cells)], g,
                                          {syms[n].sid: vs[n] for n in names}, cells)
                    nxt.append(o)
                    runs.setdefault(o[1].regime, []).append(
                        (o[0], candidates(o[1], self.total)))
            frontier = nxt[-4:]
        for rg, pts in runs.items():
            tp.learn(rg, pts[:14])
        for rg in list(runs):
            for m, r in self.chunks():
                g = generic(rg, H.masked)
                vs = tp.make(rg, candidates(g, self.total))
                cells = [some(m)] + ([rest(r, H.masked)] if r else [])
                o = self.fields_after(f2, skip, [(D2, sh2, cells)], g,
                                      {syms[n].sid: vs[n] for n in names}, cells)
                tp.verify(o[1].regime, o[0], candidates(o[1], self.total))
        # the result
        fin = st2.copy()
        f, d, ks = H.finalise(fin)
        out = []
        for rg in runs:
            for g, par, case in self.cases(rg):
                n = g.c + g.m
                vs = tp.make(rg, candidates(g, n))
                env = {syms[k].sid: vs[k] for k in names}
                if par is not None:
                    env[self.par.sid] = Sc(par, 'float')
                e = H.evaluator([(D, sh, [some(False)])], n, env)
                exp = spec(H.name, H.masked, g, par)
                if not H.masked and exp[0]:
                    continue
                c = H.result(e, d)
                rule, okk, text = agree(c, exp)
                if okk is not True:
                    raise NoProof('%s: %s' % (case, text[:160]))
                out.append(case)
        return {'fields': {n: {rg: '/'.join(x[0] for x in tp.names[rg, n]) for rg in runs}
                           for n in names}, 'cases': out, 'steps': self.n_steps}

    def keepsids(self, st):
        """Fields which the construction has set and chunks leave alone."""
        a = self.H.st0.heap[self.H.h.a[0]].fields
        b = st.heap[self.H.h.a[0]].fields
        return {b[n].sid for n in b if n in a and a[n].sid == b[n].sid}

    def kindinfo(self, t, st):
        I = self.H.C.I
        k = I.kind(t, st)
        if k is None and t.op == 'bin':
            k = I.kind(t.a[1], st)
        if k in ('int', 'bool', 'float', 'num', 'npscalar'):
            d = {'kind': k}
            if k == 'int':
                d['lo'] = 0
            return d
        if k is None:
            k = 'ma' if self.H.masked else 'nd'
        if k not in ('nd', 'ma', 'anynd'):
            raise Unk('field of kind %s' % k)
        return {'kind': k}

    def fields_after(self, f, skip, chunks, g, env, cells):
        H = self.H
        e = H.evaluator(chunks, self.total, env)
        self.stats0, self.chunk_cells = g, cells
        e.rest_loop = self.rest_loop
        vs = {}
        for n, t in f.items():
            if n in skip:
                continue
            try:
                vs[n] = e.ev(t)
            except Unk as x:
                if t.op == 'tuple' or self.H.C.I.kind(t, H.st0) in (
                        'tuple', 'shape', 'dtype', 'list', 'none', 'intseq') or t.op in (
                            'ref',):
                    continue
                raise Unk('%s: %s' % (n, x))
            if not isinstance(vs[n], (Arr, Sc)):
                del vs[n]
        for c in cells:
            g = g.add(c)
        self.n_steps += 1
        return vs, g

    def cases(self, rg):
        """Statistics and parameter in all their relations."""
        H = self.H
        if H.name in ('count', 'min', 'max', 'sum') or (H.name == 'mean' and not H.masked):
            yield generic(rg, H.masked), None, rg
            return
        if H.name == 'mean':
            g = generic(rg, H.masked)
            n = g.c + g.m
            if rg == 'P0':
                a, b = fresh('>a'), fresh('>b')
                yield g, a / (a + b), 'all masked'
                yield generic(rg, H.masked), F1 + fresh('+t'), 'all masked, no tolerance'
                return
            t = fresh('>t')
            yield g, g.m / n - t, 'tolerance exceeded'
            g = generic(rg, H.masked)
            yield g, g.m / (g.c + g.m), 'at the tolerance'
            g = generic(rg, H.masked)
            yield g, F1 + fresh('+t'), 'no tolerance'
            g = generic(rg, H.masked)
            a, b = fresh('>a'), fresh('>b')
            yield g, (g.m + g.c * a / (a + b)) / (g.c + g.m), 'below the tolerance'
            return
        if rg == 'P0':
            yield generic(rg, H.masked), fresh('+ddof'), 'all masked'
            return
        d = fresh('+ddof')
        g = generic(rg, H.masked)
        g.c = d + F1 + fresh('+c')
        yield g, d, 'count above ddof'
        g = generic(rg, H.masked)
        yield g, g.c, 'count equal to ddof'
        g = generic(rg, H.masked)
        yield g, g.c + F1 + fresh('+d'), 'count below ddof'


def prove(chk, H, par, label, site):
    P = Prover(H, par)
    try:
        res = P.run()
    except NoProof as x:
        chk.dunno('invariant', label, str(x))
        return
    except Unk as x:
        chk.dunno('invariant', label, str(x))
        return
    except Wrong as x:
        chk.bad('invariant', label, site, str(x))
        return
    chk.ok('invariant', label, str(res)[:300])
    return res


# ------------------------------------------------------------------------- groups
def group(chk, H, label, site, par):
    try:
        st = H.st0.copy()
        p, D, sh, ok = H.process('D0', st)
        if not (p.val.op == 'const' and p.val.a[0] is None):
            d = H.C.I.decide(mk_cmp('is', p.val, NONE), p.st)
            if d is False:
                chk.bad('group', label, site, 'the first chunk yields a result')
                return
            if d is None:
                raise Unk('result of the first chunk')
        s1 = p.st.copy()
        s1b = p.st.copy()
        f, d, ks = H.finalise(s1b)
        if ks.sid != ok.sid:
            chk.bad('group', label, site, 'the result has keys %s instead of %s'
                    % (show(ks, 4), show(ok, 4)))
            return
        if H.rank == 1:
            chk.ok('group', label, 'a single result cell')
            return
        # a chunk of another group
        I = H.C.I
        cD, D2, sh2, ok2 = H.chunk('D1', s1, 'h')
        I.hyp = lambda I_, c, s: (False if c.op == 'cmp' and c.a[0] == '==' and
                                  {c.a[1].op, c.a[2].op} <= {'sym', 'slice', 'tuple'} and
                                  any('.k' in str(x.a[0]) for x in c.a[1:]
                                      if x.op == 'sym') else None)
        try:
            q, D2, sh2, ok2 = H.process('D1', s1, 'h')
            r = q.val
            if r.op == 'phi':
                raise Unk('result of the second group')
            if r.op == 'const' and r.a[0] is None:
                chk.bad('group', label, site,
                        'a chunk of the next group does not end the previous group')
                return
            dd = H.C.attr(r, 'data', st=q.st).val
            kk = H.C.attr(r, 'keys', st=q.st).val
            f2, d2, ks2 = H.finalise(q.st.copy())
        finally:
            I.hyp = None
        if kk.sid != ok.sid:
            chk.bad('group', label, site, 'the result of a group is stored under the keys %s '
                    'instead of %s' % (show(kk, 4), show(ok, 4)))
            return
        if ks2.sid != ok2.sid:
            chk.bad('group', label, site, 'the keys of a later group are %s instead of %s'
                    % (show(ks2, 4), show(ok2, 4)))
            return
        # the same as with a single group
        n = 0
        for m in ((False, True) if H.masked else (False,)):
            for m2 in ((False, True) if H.masked else (False,)):
                c1, c2 = [some(m), some(m2)], [some(m2), some(False)]
                tot = Rat(2)
                e = H.evaluator([(D, sh, c1), (D2, sh2, c2)], tot)
                for term, cells in ((dd, c1), (d2, c2)):
                    g = Stats()
                    for c in cells:
                        g = g.add(c)
                    exp = spec(H.name, H.masked, g, par)
                    if not H.masked and exp[0]:
                        continue
                    r1 = H.result(e, term)
                    rule, okk, text = agree(r1, exp)
                    if okk is False:
                        chk.bad('group', label, site, 'two groups of chunks: %s' % text[:300])
                        return
                    if okk is None:
                        raise Unk(text)
                    n += 1
        chk.ok('group', label, '%d combinations' % n)
    except Unk as x:
        chk.dunno('group', label, str(x))
    except Wrong as x:
        chk.bad('group', label, site, str(x))


def params(name, masked):
    if name == 'mean' and masked:
        return [('mdtol', v) for v in (0, 0.25, 0.5, 1)] + [(None, None)]
    if name in ('std', 'var'):
        return [('ddof', v) for v in (0, 1, 2)] + [(None, None)]
    return [(None, None)]


def check(chk, root, tier):
    C = Ctx(root)
    thorough = tier == 'thorough'
    proofs = {}
    shapes = [(0, 1), (0, 2), (1, 2), (1, 3)] + ([(0, 3), (2, 3)] if thorough else [])
    for name in STATS:
        if C.get(name) is None:
            chk.bad('exact', name, 'biggus/_init.py', 'the function does not exist')
            continue
        for masked in (False, True):
            for axis, rank in shapes:
                for pn, pv in params(name, masked):
                    kw = {} if pn is None else {pn: const(pv)}
                    label = '%s %s, axis %d of %d%s' % (
                        'masked' if masked else 'plain', name, axis, rank,
                        '' if pn is None else ', %s=%s' % (pn, pv))
                    H = Handler(C, name, masked, axis, rank, kw)
                    if not H.ok:
                        if H.why.startswith('the call always') and pn is None:
                            chk.bad('exact', label, 'biggus/_init.py', H.why)
                        else:
                            chk.dunno('exact', label, H.why)
                        continue
                    site = '%s.py:%d (%s)' % (H.cls.module.replace('.', '/'),
                                              H.cls.node.lineno, H.cls.name)
                    par = Rat(0)
                    if name == 'mean':
                        from fractions import Fraction
                        par = Rat(Fraction(1 if pv is None else pv))
                    elif name in ('std', 'var'):
                        par = Rat(pv or 0)
                    n = 3 if rank > 1 and not thorough else 4
                    if rank == 3 or (pn and pv not in (0, 1, 0.5) and not thorough):
                        n = 3
                    exact(chk, H, par, label, n, site)
                    if name == 'count' or name == 'sum' and not masked:
                        empty(chk, H, label, site)
                    if pv in (None, 0.5) or (pn == 'ddof' and pv == 1):
                        group(chk, H, label, site, par)
                # the parameter as a symbol
                kw, psym = {}, None
                if name == 'mean' and masked:
                    psym = C.I.sym('mdtol', 'float')
                    kw = {'mdtol': psym}
                elif name in ('std', 'var'):
                    psym = C.int('ddof', 0)
                    kw = {'ddof': psym}
                label = '%s %s, axis %d of %d' % ('masked' if masked else 'plain', name, axis,
                                                 rank)
                H = Handler(C, name, masked, axis, rank, kw)
                if not H.ok:
                    chk.dunno('invariant', label, H.why)
                    continue
                site = '%s.py:%d (%s)' % (H.cls.module.replace('.', '/'),
                                          H.cls.node.lineno, H.cls.name)
                r = prove(chk, H, psym, label, site)
                if r:
                    proofs[label] = r['fields']
    chk.extra['invariants'] = proofs
    chk.assumptions += [
        'arithmetic is exact: rounding is not modelled',
        'NumPy reductions, masked arithmetic and rollaxis/squeeze/flatten behave as documented',
    ]
    return [C]
