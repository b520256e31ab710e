"""C13: chunked traversal covers every element exactly once, in the right place."""
import itertools

from .ctx import *        # noqa
from .norm import *       # noqa
from .tiling import *     # noqa
from .tiling import is_const as isc

RULES = {
    'tiling': 'for every combination of sizes and limit, the keys along each axis are one '
              'family of slices (whole / unit / step>=1) that partitions the axis, each axis '
              'having its own position of one full np.ndindex traversal',
    'chunk-limit': 'in every combination, the product of the chunk lengths is at most the limit',
    'order': 'the divided axes vary in the requested order, the last one fastest',
    'same-region': 'the data of a chunk is read at the keys it is labelled with / stored at',
    'store': 'a received chunk is stored at its keys and nowhere else',
    'input-order': 'the input of an aggregation varies fastest along the aggregated axis, the '
                   'other axes keeping the order asked for',
    'output-keys': 'the output chunk of an aggregation has the keys and shape of its input '
                   'without the aggregated axis',
    'grouping': 'a stream of chunks is processed as: start, process every chunk of one output '
                'chunk, finalise it when the output keys change',
    'elementwise-keys': 'elementwise evaluation labels its result with the keys of its inputs',
}
PROBE = '''
class BsaProbe(_AggregationStreamsHandler):
    def bootstrap(self, processed_chunk_shape):
        bsa_bootstrap(processed_chunk_shape)

    def process_data(self, data):
        bsa_process(data)

    def finalise(self):
        return bsa_finalise(self.current_keys)
'''


class Q(object):
    def __init__(self, chk, C, tier):
        self.chk, self.C, self.I, self.tier = chk, C, C.I, tier
        self.MAX = C.I.sym('MAX', 'int', lo=1)

    def state(self):
        st = self.C.state()
        if 'MAX_CHUNK_SIZE' in st.envs['mod:' + self.C.M]:
            st.setvar('mod:' + self.C.M, 'MAX_CHUNK_SIZE', self.MAX)
        return st

    # ------------------------------------------------------- judging traversals
    def judge(self, lab, site, shape, evs, order=None, rules=('tiling', 'chunk-limit', 'order')):
        """evs: [(key term, path conditions, ndindex-like sequence or None)]."""
        try:
            fails = self.prove(shape, evs, order)
        except Unknown as e:
            fails = {r: str(e) for r in rules}
        wit = None
        for r in rules:
            if r == 'order' and order is None:
                continue
            if r not in fails:
                self.chk.ok(r, lab)
                continue
            if wit is None:
                wit = self.witness(shape, evs, order)
            if wit.get(r):
                self.chk.bad(r, lab, site, wit[r])
            else:
                self.chk.dunno(r, lab, 'not derived: %s%s' % (
                    fails[r][:150], '' if wit else '; no witness'))

    def prove(self, shape, evs, order):
        fails = {}
        if len(evs) != 1:
            raise Unknown('%d traversals' % len(evs))
        key, path, idx = evs[0]
        n = len(shape)
        if idx is None:
            if n:
                raise Unknown('no traversal')
            dims = T('tuple')
        else:
            und = idx.a[1]
            while und.op == 'map' and isc(und.a[3], True):
                und = und.a[0]
            if und.op != 'ndindex' or und.a[0].op != 'tuple':
                raise Unknown('sequence %s' % und.op)
            dims = und.a[0]
        for c in path:
            if idx is not None and c.op == 'cmp' and c.a[0] == '<' and c.a[1].sid == idx.sid \
                    and c.a[2].op == 'len':
                continue
            if c.op == 'not' and c.a[0].op == 'throws':
                continue
            raise Unknown('guard %s' % str(c)[:80])
        if key.op != 'tuple' and key.op != 'phi' or key.op == 'tuple' and len(key.a) != n:
            raise Unknown('key %s' % str(key)[:80])
        for asg, r in cases(T('tuple', key, dims, *shape)):
            k, d = r.a[0], r.a[1]
            f = Facts(asg)
            if not f.feasible():
                continue
            if k.op != 'tuple' or len(k.a) != n:
                raise Unknown('key %s' % str(k)[:80])
            length = dict(enumerate(d.a))
            fam = [axis_tile(x, s, length) for x, s in zip(k.a, shape)]
            if None in fam:
                i = fam.index(None)
                fails.setdefault('tiling', 'axis %d: %s' % (i, show(k.a[i], 5)))
                fails.setdefault('chunk-limit', 'tiling')
                fails.setdefault('order', 'tiling')
                continue
            pos = [p for _, _, p in fam if p is not None]
            left = [p for p in range(len(d.a)) if p not in pos]
            if len(set(pos)) != len(pos) or any(not isc(d.a[p], 1) for p in left):
                fails.setdefault('tiling', 'positions %s of %d' % (pos, len(d.a)))
            rest, step = (), None
            for (kind, stp, _), s in zip(fam, shape):
                m = mono(s)
                if kind == 'whole':
                    rest = rest + m[1]
                elif kind == 'step':
                    sp = step_parts(stp)
                    if sp is None or not f.bounded(sp[1]) or not f.at_least_one(sp[1]):
                        fails.setdefault('tiling', 'step %s' % show(stp, 5))
                    if step is not None or sp is None:
                        fails.setdefault('chunk-limit', 'two partial axes')
                    step = sp
            rest = tuple(sorted(rest))
            if not f.is_zero(rest):
                if step is None:
                    if not f.bounded(rest):
                        fails.setdefault('chunk-limit', 'whole axes %s' % (rest,))
                else:
                    more = minus(step[1], rest)
                    if more is None or not f.at_least_one(more):
                        fails.setdefault('chunk-limit', 'step for %s, whole %s' % (
                            step[1], rest))
            if order is not None:
                o = [fam[a][2] for a in order if fam[a][2] is not None]
                if o != sorted(o):
                    fails.setdefault('order', 'positions %s for axes %s' % (o, order))
        return fails

    def witness(self, shape, evs, order):
        """Sizes for which the traversal, as extracted, is definitely wrong."""
        out = {}
        names = [mono(s)[1][0] for s in shape]
        for sizes, limit in witnesses(len(shape)):
            env = dict(zip(names, sizes), MAX=limit)
            try:
                keys = self.keys(env, evs)
                if keys is None:
                    return out
                why = partition_fault(keys, sizes, limit)
                starts = None
                if order is not None and why is None:
                    starts = [tuple((k[a].start or 0) if isinstance(k[a], slice) else k[a]
                                    for a in order) for k in keys]
            except (Unknown, TypeError, ZeroDivisionError, IndexError):
                continue
            at = ' (sizes %s, limit %d)' % (sizes, limit)
            if why:
                out.setdefault('chunk-limit' if why.startswith('a chunk of') else 'tiling',
                               why + at)
            if starts is not None and starts != sorted(starts):
                out.setdefault('order', 'the chunks come in the order %s of axes %s%s' % (
                    starts[:4], list(order), at))
        return out

    def keys(self, env, evs):
        keys = []
        for key, path, idx in evs:
            nm = Num(env)
            if idx is None:
                if all(self.guard(nm, c) for c in path):
                    keys.append(nm.ev(key))
                continue
            for el, i in nm.each(idx, idx.a[1]):
                if all(self.guard(nm, c) for c in path):
                    keys.append(nm.ev(key))
        return keys

    def guard(self, nm, c):
        if c.op == 'not' and c.a[0].op == 'throws':
            return True
        return bool(nm.ev(c))

    def free_idx(self, t, path=()):
        """The loop variable of a generic key."""
        bound = set()
        for x in walk(t):
            if x.op == 'map':
                bound.add(x.a[1].sid)
        ids = {x.sid: x for x in walk(t) if x.op == 'idx'}
        # variables only mentioned inside the sequences of other variables
        inner = set()
        for x in ids.values():
            for y in walk(x.a[1]) if isinstance(x.a[1], T) else ():
                if y.op == 'idx':
                    inner.add(y.sid)
        free = [x for k, x in ids.items() if k not in inner or k not in bound]
        free = [x for x in free if x.sid not in inner]
        if not free:
            for c in path:
                if c.op == 'cmp' and c.a[0] == '<' and c.a[1].op == 'idx':
                    free.append(c.a[1])
            free = list({x.sid: x for x in free}.values())[:1]
        if len(free) > 1:
            raise Unknown('%d loop variables' % len(free))
        return free[0] if free else None

    # ------------------------------------------------------------ entry points
    def index_gen(self, rank):
        C, I, chk = self.C, self.I, self.chk
        if C.get('ProducerNode.chunk_index_gen') is None:
            return
        names = [C.int('n%d' % i, 0) for i in range(rank)]
        for order in itertools.permutations(range(rank)):
            lab = 'ProducerNode.chunk_index_gen(rank %d, order %s)' % (rank, list(order))
            site = 'ProducerNode.chunk_index_gen'
            st = self.state()
            r = C.call('ProducerNode.chunk_index_gen',
                       [T('tuple', *names), I.new_list(st, [const(i) for i in order])], st=st)
            if r.dead:
                self.raises('tiling', lab, site, r)
                continue
            seq = I.seqterm(r.val, r.st) if r.val.op == 'ref' else r.val
            its = I.items(r.val, r.st)
            if its is not None:
                evs = [(x, (), None) for x in its]
            elif seq.op == 'map':
                evs = [(seq.a[2], () if isc(seq.a[3], True) else (seq.a[3],), seq.a[1])]
                if seq.a[1].a[1].sid != seq.a[0].sid:
                    evs = [(seq.a[2], (T('unk', 'index variable'),), seq.a[1])]
            else:
                chk.dunno('tiling', lab, 'keys are %s' % str(seq)[:100])
                continue
            self.judge(lab, site, names, evs, order)

    def raises(self, rule, lab, site, r):
        names = r.exc_names()
        self.chk.verdict(None if r.unsupported or not names else False, rule, lab, site,
                         'raises %s' % ', '.join(names))

    def regions(self, lab, site, A, r, sink):
        """[(key, path, idx)] of the stores/emissions of a run; sink(event) gives
        (key, data) or None."""
        evs = []
        for e in r.events:
            x = sink(e)
            if x is None:
                continue
            key, data = x
            self.same_region(lab, site, A, key, data)
            path = [c for c in e['path'] if c.op != 'not' or c.a[0].op != 'throws']
            evs.append((key, tuple(path), self.free_idx(key, path)))
        return evs

    def same_region(self, lab, site, A, key, data):
        chk = self.chk
        if data.op == 'conv' and data.a[1].op == 'sub' and data.a[1].a[0].sid == A.sid:
            k2 = data.a[1].a[1]
            if k2.sid == key.sid:
                chk.ok('same-region', lab)
                return
            # different texts may still be the same region
            try:
                idx = self.free_idx(T('tuple', key, k2))
                shape = self.I.info(A)['attrs']['shape'].a
                for sizes, limit in witnesses(len(shape)):
                    env = dict(zip([s.a[0] for s in shape], sizes), MAX=limit)
                    nm = Num(env)
                    for el, i in (nm.each(idx, idx.a[1]) if idx is not None else [(0, 0)]):
                        a, b = region(nm.ev(key), sizes), region(nm.ev(k2), sizes)
                        if a != b:
                            chk.bad('same-region', lab, site, 'read at %s, stored at %s '
                                    '(sizes %s, limit %d)' % (nm.ev(k2), nm.ev(key), sizes,
                                                              limit))
                            return
            except Unknown:
                pass
            chk.dunno('same-region', lab, 'read at %s, stored at %s' % (
                str(k2)[:60], str(key)[:60]))
        elif data.op == 'conv' and data.a[1].sid == A.sid:
            chk.bad('same-region', lab, site, 'the whole array is the data of every chunk')
        else:
            chk.dunno('same-region', lab, 'data %s' % str(data)[:100])

    def save(self, rank, masked):
        C, I, chk = self.C, self.I, self.chk
        if C.get('save') is None:
            return
        lab, site = 'save(rank %d, masked=%s)' % (rank, masked), 'save'
        st = self.state()
        A = C.array('A', rank)
        tg = I.sym('TARGET', 'opaque')
        r = C.call('save', [I.new_list(st, [A]), I.new_list(st, [tg])],
                   {'masked': const(masked)}, st=st)
        if r.dead:
            return self.raises('tiling', lab, site, r)

        def sink(e):
            if e['kind'] == 'mutate' and e['how'] == 'setitem' and \
                    origin(e['target']).sid == tg.sid:
                return e['key'], e['val']
        try:
            evs = self.regions(lab, site, A, r, sink)
        except Unknown as e:
            chk.dunno('tiling', lab, str(e))
            return
        if not evs:
            chk.verdict(None if r.unsupported else False, 'tiling', lab, site,
                        'nothing is stored in the target')
            return
        self.judge(lab, site, list(I.info(A)['attrs']['shape'].a), evs,
                   rules=('tiling', 'chunk-limit'))

    def producer(self, rank, masked):
        C, I, chk = self.C, self.I, self.chk
        if C.get('ProducerNode') is None:
            return
        A = C.array('A', rank)
        for order in itertools.permutations(range(rank)):
            lab = 'ProducerNode(rank %d, order %s, masked=%s).run()' % (
                rank, list(order), masked)
            site = 'ProducerNode.run'
            st = self.state()
            p = C.call('ProducerNode', [A, I.new_list(st, [const(i) for i in order]),
                                        const(masked)], st=st)
            q = I.sym('QUEUE', 'opaque')
            if not p.dead:
                p2 = C.method(p.val, 'add_output_queue', [q], st=p.st)
            if p.dead or p2.dead:
                chk.dunno('tiling', lab, 'no node')
                continue
            r = C.method(p.val, 'run', [], st=p2.st)
            if r.dead:
                self.raises('tiling', lab, site, r)
                continue

            def sink(e):
                if e['kind'] == 'call' and e['f'].op == 'bmx' and e['f'].a[1] == 'put' and \
                        e['f'].a[0].sid == q.sid and e['args'] and e['args'][0].op == 'nt':
                    f = e['args'][0].a[1]
                    if len(f) == 2:
                        return f[0], f[1]
            try:
                evs = self.regions(lab, site, A, r, sink)
            except Unknown as e:
                chk.dunno('tiling', lab, str(e))
                continue
            if not evs:
                chk.verdict(None if r.unsupported else False, 'tiling', lab, site,
                            'no chunk is emitted')
                continue
            self.judge(lab, site, list(I.info(A)['attrs']['shape'].a), evs, order)

    # ----------------------------------------------------------------- storing
    def store(self, rank, masked):
        C, I, chk = self.C, self.I, self.chk
        if C.get('NdarrayNode') is None or C.get('Chunk') is None:
            return
        lab, site = 'NdarrayNode(rank %d, masked=%s)' % (rank, masked), \
            'NdarrayNode.process_chunks'
        A = C.array('A', rank)
        p = C.call('NdarrayNode', [A, const(masked)], st=self.state())
        if p.dead:
            return self.raises('store', lab, site, p)
        D = C.nd('D', rank, 'ma' if masked else 'nd')
        keys = T('tuple', *[I.sym('k%d' % i, 'slice') for i in range(rank)])
        f = dict(fields(p.val, p.st))
        c = C.call(C.get('Chunk'), [keys, D], st=p.st)
        r = C.method(p.val, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st)
        if r.dead:
            return self.raises('store', lab, site, r)
        muts = [e for e in r.events if e['kind'] == 'mutate']
        if len(muts) != 1 or muts[0]['how'] != 'setitem':
            chk.verdict(False if not muts and not r.unsupported else None, 'store', lab, site,
                        'stores: %s' % [e['how'] for e in muts])
            return
        e = muts[0]
        res = f.get('result')
        if res is not None and origin(e['target']).sid != res.sid:
            chk.dunno('store', lab, 'target %s' % str(e['target'])[:100])
        elif core(e['val'], I, r.st).sid != D.sid:
            chk.verdict(False if core(e['val'], I, r.st).op in ('const', 'sym') else None,
                        'store', lab, site, 'stores %s' % str(e['val'])[:80])
        elif e['key'].sid == keys.sid or (rank == 0 and isc(e['key'], Ellipsis)):
            chk.ok('store', lab)
        else:
            simple = not contains(e['key'], lambda x: x.op in ('phi', 'call', 'unk', 'map'))
            chk.verdict(False if simple else None, 'store', lab, site,
                        'the chunk for %s is stored at %s' % (keys, str(e['key'])[:80]))

    # ------------------------------------------------------------- aggregation
    AGGS = ('count', 'min', 'max', 'sum', 'mean', 'std', 'var')

    def handler(self, name, masked, rank, axis):
        C, I = self.C, self.I
        A = C.array('A', rank, dtype=C.dtype('A.dtype', dkind='f'))
        st = self.state()
        r = C.call(name, [A], {'axis': const(axis)}, st=st)
        if r.dead:
            return None
        h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st)
        return None if h.dead else h

    def orders(self, rank, axis, h, lab, site):
        """input_iteration_order and output_keys of one handler."""
        C, I, chk = self.C, self.I, self.chk
        for order in itertools.permutations(range(rank - 1)):
            l2 = '%s order %s' % (lab, list(order))
            st = h.st.copy()
            r = C.method(h.val, 'input_iteration_order',
                         [I.new_list(st, [const(i) for i in order])], st=st)
            its = None if r.dead else I.items(r.val, r.st)
            if its is None or any(x.op != 'const' for x in its):
                if r.dead:
                    self.raises('input-order', l2, site, r)
                else:
                    chk.dunno('input-order', l2, str(r.val)[:100])
                continue
            got = [x.a[0] for x in its]
            exp = [i if i < axis else i + 1 for i in order] + [axis]
            chk.verdict(got == exp, 'input-order', l2, site, 'input order %s, expected %s' % (
                got, exp))

    def emitted(self, t):
        if t.op == 'nt' and len(t.a[1]) == 2:
            return t.a[1]
        return None

    def outkeys(self, name, masked, rank, axis):
        C, I, chk = self.C, self.I, self.chk
        site = '%s handler (masked=%s)' % (name, masked)
        lab = '%s(rank %d, axis=%d), masked=%s' % (name, rank, axis, masked)
        h = self.handler(name, masked, rank, axis)
        if h is None or C.get('Chunk') is None:
            chk.dunno('output-keys', lab, 'no handler')
            return
        self.orders(rank, axis, h, lab, site)
        ks = [[I.sym('k%d' % i, 'slice') for i in range(rank)] for _ in range(2)]
        other = [i for i in range(rank) if i != axis]
        D = C.nd('D', rank, 'ma' if masked else 'nd')
        D2 = C.nd('D2', rank, 'ma' if masked else 'nd')
        keys = [I.sym('k%d' % i, 'slice') for i in range(rank)]
        keys2 = [I.sym('K%d' % i, 'slice') for i in range(rank)]
        exp = T('tuple', *[keys[i] for i in other])
        exp2 = T('tuple', *[keys2[i] for i in other])
        a = self.feed(h.val, keys, D, h.st)
        if a.dead:
            return self.raises('output-keys', lab, site, a)
        chk.verdict(self.isnone(a.val), 'output-keys', lab + ' first chunk', site,
                    'the first chunk already gives %s' % str(a.val)[:60])
        f = C.method(h.val, 'finalise', [], st=a.st.copy())
        self.emits(f, exp, lab + ' finalise', site)
        if not other:
            b = self.feed(h.val, keys2, D2, a.st.copy())
            if not b.dead:
                chk.verdict(self.isnone(b.val), 'output-keys', lab + ' second chunk', site,
                            'the second chunk of one result already gives %s' % str(b.val)[:60])
            return
        b = self.feed(h.val, keys2, D2, a.st.copy(),
                      assume=[mk_not(mk_cmp('==', exp, exp2))])
        self.emits(b, exp, lab + ' next output chunk', site)
        if not b.dead:
            f = C.method(h.val, 'finalise', [], st=b.st.copy())
            self.emits(f, exp2, lab + ' finalise of the next', site)

    def isnone(self, t):
        if isc(t, None):
            return True
        return False if t.op in ('nt', 'const') else None

    def feed(self, h, keys, D, st, assume=()):
        C, I = self.C, self.I
        c = C.call(C.get('Chunk'), [T('tuple', *keys), D], st=st)
        return C.method(h, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st,
                        assume=assume)

    def emits(self, r, exp, lab, site):
        chk = self.chk
        if r.dead:
            return self.raises('output-keys', lab, site, r)
        got = self.emitted(r.val)
        if got is None:
            chk.verdict(False if isc(r.val, None) else None, 'output-keys', lab, site,
                        'gives %s' % str(r.val)[:80])
            return
        k = self.I.refine(got[0], r.st)
        if k.sid == exp.sid:
            chk.ok('output-keys', lab)
        else:
            chk.verdict(False if not contains(k, lambda x: x.op in ('phi', 'call', 'unk'))
                        else None, 'output-keys', lab, site,
                        'keys %s, expected %s' % (str(k)[:80], exp))

    def grouping(self, rank, axis):
        """The state machine of process_chunks, by a probe for its extension points."""
        C, I, chk = self.C, self.I, self.chk
        if C.cls('_AggregationStreamsHandler') is None or C.get('Chunk') is None:
            return
        lab = '_AggregationStreamsHandler.process_chunks (rank %d, axis %d)' % (rank, axis)
        site = '_AggregationStreamsHandler.process_chunks'
        st = self.state()
        for n in ('bootstrap', 'process', 'finalise'):
            st.setvar('mod:' + C.M, 'bsa_' + n, T('ext', 'bsa.' + n))
        d = C.define(PROBE, st)
        if d.dead:
            return
        A = C.array('A', rank)
        p = C.call(d.st.envs['mod:' + C.M]['BsaProbe'], [A, const(axis)], st=d.st)
        if p.dead:
            chk.dunno('grouping', lab, 'no handler')
            return
        other = [i for i in range(rank) if i != axis]

        def sl(a, b):
            return T('slice', const(a), const(b), NONE)
        # chunks: (output part, part along the axis)
        seqs = [[(0, 0), (0, 1), (0, 2)]]
        if other:
            seqs += [[(0, 0), (1, 0), (2, 0)], [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0)],
                     [(0, 0), (1, 0), (1, 1)]]
        for seq in seqs:
            l2 = '%s, chunks %s' % (lab, seq)
            st, trace, ok = p.st.copy(), [], True
            for n, (o, i) in enumerate(seq):
                key = [sl(2 * o, 2 * o + 2)] * rank
                key[axis] = sl(3 * i, 3 * i + 3)
                D = C.nd('D%d' % n, rank)
                c = C.call(C.get('Chunk'), [T('tuple', *key), D], st=st)
                r = C.method(p.val, 'process_chunks', [I.new_list(c.st, [c.val])], st=c.st)
                if r.dead:
                    self.raises('grouping', l2, site, r)
                    ok = None
                    break
                st = r.st
                for e in r.events:
                    if e['kind'] == 'call' and e['f'].op == 'ext' and \
                            e['f'].a[0].startswith('bsa.'):
                        live = [x for x in e['path'] if x.op != 'not' or x.a[0].op != 'throws']
                        if any(self.I.decide(x, r.st) is not True for x in live):
                            ok = False
                        trace.append((e['f'].a[0][4:], e['args'][0].sid if e['args'] else None))
                fin = [t for t in trace if t[0] == 'finalise']
                trace.append(('result', 'none' if isc(r.val, None) else
                              'final' if r.val.op == 'call' and r.val.a[0].op == 'ext' and
                              r.val.a[0].a[0] == 'bsa.finalise' else str(r.val)[:60]))
            if ok is None:
                continue
            exp, cur = [], None
            for n, (o, i) in enumerate(seq):
                D = C.nd('D%d' % n, rank)
                sh = T('tuple', *[I.info(D)['attrs']['shape'].a[x] for x in other])
                okeys = T('tuple', *[sl(2 * o, 2 * o + 2)] * len(other))
                res = 'none'
                if o != cur:
                    if cur is not None:
                        exp.append(('finalise', T('tuple', *[sl(2 * cur, 2 * cur + 2)] *
                                                  len(other)).sid))
                        res = 'final'
                    exp.append(('bootstrap', sh.sid))
                exp.append(('process', D.sid))
                exp.append(('result', res))
                cur = o
            if trace == exp:
                chk.ok('grouping', l2)
            else:
                chk.verdict(False if ok else None, 'grouping', l2, site,
                            'does %s, expected %s' % (
                                [t[0] if t[0] != 'result' else t for t in trace],
                                [t[0] if t[0] != 'result' else t for t in exp]))

    def elementwise(self, masked, nin):
        C, I, chk = self.C, self.I, self.chk
        f = C.get('add' if nin == 2 else 'sqrt')
        if f is None or C.get('Chunk') is None:
            return
        lab = 'elementwise handler (%d inputs, masked=%s)' % (nin, masked)
        site = '_ElementwiseStreamsHandler.process_chunks'
        st = self.state()
        A, B = C.array('A', 2), C.array('B', 2)
        B = C.array('B', 2, shape=list(I.info(A)['attrs']['shape'].a))
        r = C.call(f, [A, B][:nin], st=st)
        if r.dead:
            chk.dunno('elementwise-keys', lab, 'no expression')
            return
        h = C.method(r.val, 'streams_handler', [const(masked)], st=r.st)
        if h.dead:
            chk.dunno('elementwise-keys', lab, 'no handler')
            return
        keys = T('tuple', *[I.sym('k%d' % i, 'slice') for i in range(2)])
        st, cs = h.st, []
        for n in range(nin):
            D = C.nd('D%d' % n, 2, 'ma' if masked else 'nd')
            c = C.call(C.get('Chunk'), [keys, D], st=st)
            st = c.st
            cs.append(c.val)
        for order in itertools.permutations(range(2)):
            r = C.method(h.val, 'input_iteration_order',
                         [I.new_list(st, [const(i) for i in order])], st=st.copy())
            its = None if r.dead else I.items(r.val, r.st)
            if its is None:
                chk.dunno('elementwise-keys', '%s order %s' % (lab, order), str(r.val)[:80])
                continue
            chk.verdict([x.a[0] for x in its] == list(order), 'elementwise-keys',
                        '%s order %s' % (lab, order), site, 'input order %s' % its)
        r = C.method(h.val, 'process_chunks', [I.new_list(st, cs)], st=st)
        if r.dead:
            self.raises('elementwise-keys', lab, site, r)
            return
        got = self.emitted(r.val)
        if got is None:
            chk.verdict(False if isc(r.val, None) else None, 'elementwise-keys', lab, site,
                        'gives %s' % str(r.val)[:80])
        else:
            k = self.I.refine(got[0], r.st)
            chk.verdict(True if k.sid == keys.sid else
                        None if contains(k, lambda x: x.op in ('phi', 'call')) else False,
                        'elementwise-keys', lab, site, 'keys %s, expected %s' % (
                            str(k)[:80], keys))
        f = C.method(h.val, 'finalise', [], st=r.st)
        if not f.dead:
            chk.verdict(self.isnone(f.val), 'elementwise-keys', lab + ' finalise', site,
                        'gives %s' % str(f.val)[:80])

    def run(self):
        top = 4 if self.tier == 'thorough' else 3
        for rank in range(0, top + 1):
            for masked in (False, True):
                self.save(rank, masked)
                self.store(rank, masked)
                if rank <= 3:
                    self.producer(rank, masked)
            self.index_gen(rank)
        for nin in (1, 2):
            for masked in (False, True):
                self.elementwise(masked, nin)
        for rank in range(1, top + 1):
            for axis in range(rank):
                self.grouping(rank, axis)
                for name in self.AGGS:
                    for masked in (False, True):
                        self.outkeys(name, masked, rank, axis)


def origin(t):
    """The object a loop-carried variable started as."""
    while t.op in ('mu', 'loop', 'withattr'):
        t = t.a[2] if t.op in ('mu', 'loop') else t.a[0]
    return t


def check(chk, root, tier):
    C = Ctx(root)
    C.I.hyp = not_masked_constant
    chk.assumptions += [
        'sizes are non-negative integers and MAX_CHUNK_SIZE is a positive integer',
        'np.ndindex(*dims) visits the product of range(d) in lexicographic order',
        'the threaded engine is the streamed evaluation meant; the experimental dask engine '
        'has its own grouping of chunks (C16)']
    q = Q(chk, C, tier)
    for name in ('save',):
        if C.get(name) is None:
            chk.bad('tiling', name, '_init.py', 'the public function is missing')
    q.run()
    return [C]
