"""Tilings of index ranges, read off the terms of chunk keys.

A traversal is a term `map<ndindex<(L0, ..)>, idx, key, guard>` (or the generic key of a
loop over such a sequence).  `cases` splits its conditions on sizes into the finitely many
combinations, `axis_tile` recognises each component of a key as one family of slices of an
axis, and the rules of C13 are decided on the families.  `Num` evaluates such terms for given sizes; it
is used only to find a witness for an obligation that has already failed.
"""
import itertools

from .terms import *      # noqa

FN = {'builtins.min': min, 'builtins.max': max, 'numpy.min': min, 'numpy.max': max,
      'numpy.minimum': min, 'numpy.maximum': max, 'numpy.amin': min, 'numpy.amax': max}


class Unknown(Exception):
    pass


# ------------------------------------------------------------------ monomials
def mono(t):
    """(coefficient, sorted names) of a product of integers and symbols, or None."""
    if t.op == 'const' and type(t.a[0]) is int:
        return t.a[0], ()
    if t.op == 'sym':
        return 1, (t.a[0],)
    if t.op == 'bin' and t.a[0] == '*':
        x, y = mono(t.a[1]), mono(t.a[2])
        if x and y:
            return x[0] * y[0], tuple(sorted(x[1] + y[1]))
    if t.op == 'call' and t.a[0].op == 'ext' and len(t.a[1]) == 1 and \
            t.a[0].a[0] in ('builtins.int', 'numpy.int64', 'numpy.intp'):
        return mono(t.a[1][0])
    return None


def atom(c, mx='MAX'):
    """(atom, sense) of a condition comparing a product of sizes with the limit:
    atom ('le', m): m <= MAX, ('lt', m): m < MAX."""
    if c.op == 'not':
        r = atom(c.a[0], mx)
        return None if r is None else (r[0], not r[1])
    if c.op != 'cmp' or c.a[0] not in ('<', '<='):
        return None
    x, y = mono(c.a[1]), mono(c.a[2])
    if x is None or y is None:
        return None
    lim = (1, (mx,))
    if y == lim and mx not in x[1]:
        return ('le' if c.a[0] == '<=' else 'lt', x), True
    if x == lim and mx not in y[1]:
        return ('lt' if c.a[0] == '<=' else 'le', y), False
    return None


def consistent(asg):
    """No m < MAX with not m <= MAX."""
    for (k, m), v in asg.items():
        if k == 'lt' and v and asg.get(('le', m)) is False:
            return False
        # m <= MAX false, but a multiple m*x of it smaller than the limit needs a zero factor
    return True


def resolve(t, asg, memo=None):
    """t with the phis on assigned atoms replaced by their arms."""
    memo = {} if memo is None else memo
    if t.sid in memo:
        return memo[t.sid]
    if t.op == 'phi':
        a = atom(t.a[0])
        if a is not None and a[0] in asg:
            r = resolve(t.a[1 if asg[a[0]] == a[1] else 2], asg, memo)
            memo[t.sid] = r
            return r
    if t.op in ('const', 'sym', 'ext', 'func', 'cls', 'ref'):
        return t
    ch = [False]

    def go(x):
        if isinstance(x, T):
            y = resolve(x, asg, memo)
            ch[0] = ch[0] or y.sid != x.sid
            return y
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    r = t
    if ch[0]:
        r = mk_bin(*a) if t.op == 'bin' else mk_cmp(*a) if t.op == 'cmp' else \
            mk_phi(*a) if t.op == 'phi' else T(t.op, *a, info=t.info)
    memo[t.sid] = r
    return r


def cases(t, extra=(), limit=200):
    """[(assignment, resolved term)] over the conditions of the phis of a term."""
    out = []
    todo = [dict(extra)]
    while todo:
        asg = todo.pop()
        r = resolve(t, asg)
        a = None
        for x in walk(r):
            if x.op == 'phi':
                a = atom(x.a[0])
                if a is not None:
                    break
        if a is None:
            out.append((asg, r))
            if len(out) > limit:
                raise Unknown('cases')
            continue
        for v in (True, False):
            n = dict(asg)
            n[a[0]] = v
            if consistent(n):
                todo.append(n)
    return out


class Facts(object):
    """What an assignment says about the sizes."""

    def __init__(self, asg):
        self.asg = asg
        self.positive = set()
        for (k, m), v in asg.items():
            if not v and m[0] == 1:
                # m >= MAX >= 1 (lt) or m > MAX (le)
                self.positive |= set(m[1])
        self.zero = []              # name multisets whose product is zero
        for (k, m), v in asg.items():
            for (k2, m2), v2 in asg.items():
                if not v and v2 and k == 'le' and m[0] == m2[0] == 1:
                    rest = minus(m2[1], m[1])
                    if rest is not None:
                        self.zero.append(rest)

    def is_zero(self, names):
        return any(minus(names, z) is not None for z in self.zero)

    def feasible(self):
        return not any(set(z) <= self.positive for z in self.zero)

    def at_least_one(self, names):
        return all(n in self.positive for n in names)

    def bounded(self, names):
        """The product of the names is at most MAX."""
        if not names or self.is_zero(names):
            return True
        for (k, m), v in self.asg.items():
            if v and m[0] >= 1:
                rest = minus(m[1], names)
                if rest is not None and self.at_least_one(rest):
                    return True
        return False


def minus(a, b):
    """Multiset difference a - b of name tuples, None unless b is contained in a."""
    a = list(a)
    for x in b:
        if x not in a:
            return None
        a.remove(x)
    return tuple(a)


# --------------------------------------------------------------------- tiles
def is_const(t, v):
    return t.op == 'const' and t.a[0] == v and type(t.a[0]) is type(v)


def strip_sub(t):
    """(x,)[anything] is x for a one-element tuple."""
    while t.op in ('sub', 'at') and t.a[0].op == 'tuple' and len(t.a[0].a) == 1:
        t = t.a[0].a[0]
    return t


def min_parts(t):
    if t.op == 'call' and t.a[0].op == 'ext' and FN.get(t.a[0].a[0]) is min:
        a = t.a[1]
        if len(a) == 1 and a[0].op == 'tuple':
            a = a[0].a
        return list(a) if len(a) == 2 else None
    if t.op == 'phi' and t.a[0].op == 'cmp' and t.a[0].a[0] in ('<', '<='):
        x, y = t.a[0].a[1:]
        if t.a[1].sid == x.sid and t.a[2].sid == y.sid:
            return [x, y]
    return None


def axis_tile(k, size, length):
    """(family, step, position) of a key component over an axis of the given size,
    where `length` maps positions of the traversal to their number of indices.
    families: whole, unit (slices), item (integers), step; None when not recognised."""
    k = strip_sub(k)
    szn = mono(size)

    def count(pos, exp):
        n = length.get(pos)
        return n is not None and any(n.sid == e.sid for e in exp)

    def rng(*a):
        return T('call', T('ext', 'builtins.range'), tuple(a), ())

    def mi(t):
        return t.a[1].a[0] if t.op == 'mi' and t.a[1].op == 'const' else None
    if k.op == 'slice' and is_const(k.a[2], None):
        lo, hi = k.a[0], k.a[1]
        if (is_const(lo, None) or is_const(lo, 0)) and (
                is_const(hi, None) or hi.sid == size.sid):
            return 'whole', None, None
        f, g = lin(lo), lin(hi)
        if f[0] == 0 and len(f[1]) == 1:
            (c, x), = f[1].values()
            p = mi(x)
            d = lin_sub(g, f)
            if c == 1 and p is not None and d == (1, {}) and count(p, [
                    size, T('len', rng(size)), T('len', rng(ZERO, size))]):
                return 'unit', None, p
            if c == 1 and x.op == 'rngel' and mi(x.a[0]) is not None and \
                    is_const(x.a[1], 0) and x.a[2].sid == size.sid:
                p, step = mi(x.a[0]), x.a[3]
                ends = [hi]
                m = min_parts(hi)
                if m is not None:
                    ends = [e for e in m if e.sid != size.sid]
                    if len(ends) != 1:
                        return None
                if lin_sub(lin(ends[0]), f) == lin(step) and \
                        count(p, [T('len', rng(ZERO, size, step))]):
                    return 'step', step, p
        return None
    if k.op in ('sub', 'at') and k.a[1].op == 'mi':
        b = k.a[0]
        if b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] == 'builtins.range' and \
                (len(b.a[1]) == 1 or len(b.a[1]) == 2 and is_const(b.a[1][0], 0)):
            k = k.a[1]
    f = lin(k)
    if f[0] == 0 and len(f[1]) == 1:
        (c, x), = f[1].values()
        p = mi(x)
        if c == 1 and p is not None and count(p, [
                size, T('len', rng(size)), T('len', rng(ZERO, size))]):
            return 'item', None, p
    return None


def step_parts(step):
    """m of a step MAX // m."""
    if step.op == 'bin' and step.a[0] == '//' and step.a[1].op == 'sym' and \
            step.a[1].a[0] == 'MAX':
        m = mono(step.a[2])
        return m if m and m[0] == 1 else None
    return None


# ------------------------------------------------------------------- witness
class Num(object):
    """Values of integer terms for given sizes."""

    def __init__(self, env):
        self.env = env            # name -> int
        self.bound = {}           # sid of idx -> (position, element or None)

    def ev(self, t):
        op = t.op
        if op == 'const':
            return t.a[0]
        if op == 'sym':
            if t.a[0] in self.env:
                return self.env[t.a[0]]
            raise Unknown(t.a[0])
        if op == 'bin':
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            try:
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                        '//': lambda: x // y, '%': lambda: x % y, '/': lambda: x / y,
                        '**': lambda: x ** y}[t.a[0]]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise Unknown('bin')
        if op == 'neg':
            return -self.ev(t.a[0])
        if op == 'phi':
            return self.ev(t.a[1 if self.ev(t.a[0]) else 2])
        if op == 'not':
            return not self.ev(t.a[0])
        if op == 'truthy':
            return bool(self.ev(t.a[0]))
        if op == 'and':
            return all(self.ev(x) for x in t.a)
        if op == 'cmp':
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            try:
                return {'==': lambda: x == y, '<': lambda: x < y, '<=': lambda: x <= y,
                        'is': lambda: x is y or x == y, 'in': lambda: x in y}[t.a[0]]()
            except (KeyError, TypeError):
                raise Unknown('cmp')
        if op == 'tuple':
            return tuple(self.ev(x) for x in t.a)
        if op == 'slice':
            return slice(*[self.ev(x) for x in t.a])
        if op in ('sub', 'at'):
            x, i = self.ev(t.a[0]), self.ev(t.a[1])
            try:
                return x[i]
            except (IndexError, TypeError, KeyError):
                raise Unknown('sub')
        if op == 'len':
            return len(self.seq(t.a[0]))
        if op == 'idx':
            if t.sid in self.bound:
                return self.bound[t.sid][0]
            raise Unknown('idx')
        if op == 'mi':
            if t.a[0].sid not in self.bound:
                raise Unknown('mi')
            i, el = self.bound[t.a[0].sid]
            if not isinstance(el, tuple):
                raise Unknown('mi')
            return el[self.ev(t.a[1])]
        if op == 'rngel':
            return self.ev(t.a[1]) + self.ev(t.a[0]) * self.ev(t.a[3])
        if op == 'call' and t.a[0].op == 'ext':
            n, args = t.a[0].a[0], t.a[1]
            if t.a[2]:
                raise Unknown(n)
            if n in FN:
                v = [self.ev(x) for x in args]
                try:
                    return FN[n](*v)
                except (TypeError, ValueError):
                    raise Unknown(n)
            if n == 'builtins.range':
                return self.seq(t)
            if n in ('builtins.int', 'numpy.int64', 'numpy.intp', 'builtins.abs') and args:
                return abs(self.ev(args[0])) if n.endswith('abs') else int(self.ev(args[0]))
            if n in ('numpy.prod', 'numpy.product') and len(args) == 1:
                r = 1
                for x in self.seq(args[0]):
                    r *= x
                return r
            if n in ('math.ceil', 'math.floor', 'numpy.ceil', 'numpy.floor'):
                import math
                return getattr(math, n.split('.')[1])(self.ev(args[0]))
        if op in ('map', 'ndindex', 'cat', 'list', 'rev', 'zip', 'enum'):
            return tuple(self.seq(t))
        raise Unknown(op)

    def seq(self, t):
        """The elements of a sequence term."""
        if t.op in ('tuple', 'list'):
            return [self.ev(x) for x in t.a]
        if t.op == 'phi':
            return self.seq(t.a[1 if self.ev(t.a[0]) else 2])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.range':
            v = [self.ev(x) for x in t.a[1]]
            if any(type(x) is not int for x in v) or len(v) == 3 and v[2] == 0:
                raise Unknown('range')
            r = range(*v)
            if len(r) > 4096:
                raise Unknown('range')
            return list(r)
        if t.op == 'ndindex':
            dims = self.seq(t.a[0])
            if any(type(x) is not int for x in dims):
                raise Unknown('ndindex')
            return list(itertools.product(*[range(x) for x in dims]))
        if t.op == 'map':
            src, var, body, guard = t.a
            out = []
            for el, b in self.each(var, src):
                if self.ev(guard):
                    out.append(self.ev(body))
            return out
        if t.op == 'cat':
            return [x for p in t.a for x in self.seq(p)]
        if t.op == 'rev':
            return self.seq(t.a[0])[::-1]
        if t.op == 'enum':
            s = self.ev(t.a[1])
            return [(s + i, x) for i, x in enumerate(self.seq(t.a[0]))]
        if t.op == 'zip':
            return [tuple(x) for x in zip(*[self.seq(p) for p in t.a])]
        v = self.ev(t)
        if isinstance(v, tuple):
            return list(v)
        raise Unknown('seq')

    def under(self, src):
        """The ndindex elements behind a sequence that maps over it one to one."""
        while src.op == 'map' and is_const(src.a[3], True):
            src = src.a[0]
        return self.seq(src) if src.op == 'ndindex' else None

    def each(self, var, src):
        els = self.seq(src)
        und = self.under(src)
        old = self.bound.get(var.sid)
        try:
            for i, el in enumerate(els):
                self.bound[var.sid] = (i, und[i] if und is not None else el)
                yield el, i
        finally:
            if old is None:
                self.bound.pop(var.sid, None)
            else:
                self.bound[var.sid] = old


def region(key, shape):
    """The set of index tuples a key selects."""
    if not isinstance(key, tuple):
        key = (key,)
    axes = []
    if len(key) > len(shape):
        raise Unknown('too many keys')
    for k, n in itertools.zip_longest(key, shape, fillvalue=slice(None)):
        if isinstance(k, slice):
            axes.append(list(range(n))[k])
        elif type(k) is int:
            if not -n <= k < n:
                return None
            axes.append([k % n])
        else:
            raise Unknown('key')
    return list(itertools.product(*axes))


def partition_fault(keys, shape, limit):
    """What is wrong with a sequence of keys for the given sizes, or None."""
    seen = set()
    for k in keys:
        r = region(k, shape)
        if r is None:
            return 'key %s is out of range' % (k,)
        if len(r) > limit:
            return 'a chunk of %d elements, limit %d' % (len(r), limit)
        for x in r:
            if x in seen:
                return 'element %s is visited twice' % (x,)
            seen.add(x)
    n = 1
    for s in shape:
        n *= s
    if len(seen) != n:
        return '%d of %d elements are visited' % (len(seen), n)
    return None


def witnesses(rank):
    """Sizes and limits tried for a failed obligation."""
    sizes = {0: [()], 1: [(n,) for n in (0, 1, 2, 3, 5, 7, 8)],
             2: list(itertools.product((0, 1, 2, 3, 5), (1, 2, 3, 4))),
             3: list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 4)))}.get(rank) or \
        list(itertools.product((1, 2, 3), repeat=rank))
    for s in sizes:
        for m in (1, 2, 3, 4, 5, 6, 12):
            yield s, m
