"""Terms of the value graph.

A term is an immutable description of a value.  Two terms with the same
structure have the same `sid`; two *occurrences* of a value that denote the same
run-time object are the same Python object (`is`), which is how aliasing of
mutable arrays is tracked.
"""

_intern = {}
_by_sid = []


class T(object):
    __slots__ = ('op', 'a', 'sid', 'info')

    def __init__(self, op, *a, **kw):
        self.op = op
        self.a = a
        self.info = kw.get('info')
        key = (op, tuple(_k(x) for x in a))
        sid = _intern.get(key)
        if sid is None:
            sid = len(_intern)
            _intern[key] = sid
            _by_sid.append(self)
        self.sid = sid

    def __repr__(self):
        return show(self)

    def __eq__(self, other):
        raise TypeError('compare sid explicitly')

    __hash__ = object.__hash__


def _k(x):
    if isinstance(x, T):
        return ('T', x.sid)
    if isinstance(x, tuple):
        return ('t',) + tuple(_k(y) for y in x)
    return (type(x).__name__, x)


def same(a, b):
    return a.sid == b.sid


def const(v):
    return T('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELLIPSIS = const(Ellipsis)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.a[0]


def is_num(t):
    return t.op == 'const' and isinstance(t.a[0], (int, float)) and \
        not isinstance(t.a[0], bool)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _flat(x):
                yield y


def _flat(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _flat(y):
                yield z


def walk(t, seen=None):
    """All distinct sub-terms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.sid in seen:
            continue
        seen.add(x.sid)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def contains_sid(t, sid):
    return any(x.sid == sid for x in walk(t))


# --------------------------------------------------------------- linear forms
def lin(t, depth=0):
    """(constant, {sid: (coef, term)}) of an integer-valued term."""
    if t.op == 'const' and isinstance(t.a[0], (int, float)):
        v = t.a[0]
        return (int(v) if isinstance(v, bool) else v), {}
    if t.op == 'bin' and depth < 40:
        op, x, y = t.a
        if op in '+-':
            c1, m1 = lin(x, depth + 1)
            c2, m2 = lin(y, depth + 1)
            s = 1 if op == '+' else -1
            m = dict(m1)
            for k, (c, a) in m2.items():
                c0 = m[k][0] if k in m else 0
                if c0 + s * c == 0:
                    m.pop(k, None)
                else:
                    m[k] = (c0 + s * c, a)
            return c1 + s * c2, m
        if op == '*':
            c1, m1 = lin(x, depth + 1)
            c2, m2 = lin(y, depth + 1)
            if not m1:
                c1, m1, c2, m2 = c2, m2, c1, m1
            if not m2:
                if c2 == 0:
                    return 0, {}
                return c1 * c2, {k: (c * c2, a) for k, (c, a) in m1.items()}
    if t.op == 'neg':
        c, m = lin(t.a[0], depth + 1)
        return -c, {k: (-v, a) for k, (v, a) in m.items()}
    return 0, {t.sid: (1, t)}


def lin_sub(f, g):
    c, m = f[0] - g[0], dict(f[1])
    for k, (v, a) in g[1].items():
        v0 = m[k][0] if k in m else 0
        if v0 == v:
            m.pop(k, None)
        else:
            m[k] = (v0 - v, a)
    return c, m


def lin_add(f, g, s=1):
    return lin_sub(f, (-s * g[0], {k: (-s * v, a) for k, (v, a) in g[1].items()}))


def lin_term(f):
    """Rebuild a canonical term from a linear form."""
    c, m = f
    out = None
    for k in sorted(m):
        v, a = m[k]
        x = a if v == 1 else T('bin', '*', const(v), a)
        out = x if out is None else T('bin', '+', out, x)
    if out is None:
        return const(c)
    if c:
        out = T('bin', '+', out, const(c))
    return out


# -------------------------------------------------------------- constructors
def mk_not(c):
    if c.op == 'const':
        return const(not c.a[0])
    if c.op == 'not':
        return c.a[0]
    return T('not', c)


def mk_and(cs):
    out = []
    for c in cs:
        if c.op == 'and':
            out.extend(c.a)
        elif c.op == 'const' and c.a[0] is True:
            continue
        elif c.op == 'const' and c.a[0] is False:
            return FALSE
        else:
            out.append(c)
    seen, res = set(), []
    for c in out:
        if c.sid not in seen:
            seen.add(c.sid)
            res.append(c)
    for c in res:
        if mk_not(c).sid in seen:
            return FALSE
    if not res:
        return TRUE
    return res[0] if len(res) == 1 else T('and', *res)


def mk_or(cs):
    return mk_not(mk_and([mk_not(c) for c in cs]))


def mk_phi(c, a, b, memo=None):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.a[0] else b
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if a.sid == b.sid:
        return a
    if memo is not None:
        k = (id(a), id(b), c.sid)
        if k in memo:
            return memo[k]
    # collapse phis on the same condition
    x = a.a[1] if a.op == 'phi' and a.a[0].sid == c.sid else a
    y = b.a[2] if b.op == 'phi' and b.a[0].sid == c.sid else b
    if x.op == 'const' and y.op == 'const' and x.a[0] is True and y.a[0] is False:
        r = c
    elif x.op == 'const' and y.op == 'const' and x.a[0] is False and y.a[0] is True:
        r = mk_not(c)
    elif x.sid == y.sid:
        r = x
    elif c.op == 'cmp' and c.a[0] == '==' and \
            {c.a[1].sid, c.a[2].sid} == {x.sid, y.sid}:
        # {x == k ? k : x} is x; {x == k ? x : k} is k
        r = y
    else:
        r = T('phi', c, x, y)
    if memo is not None:
        memo[k] = r
    return r


_ARITH = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
    '//': lambda a, b: a // b, '%': lambda a, b: a % b, '/': lambda a, b: a / b,
    '**': lambda a, b: a ** b, '<<': lambda a, b: a << b,
    '>>': lambda a, b: a >> b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
    '^': lambda a, b: a ^ b,
}


def mk_bin(op, a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            return const(_ARITH[op](a.a[0], b.a[0]))
        except Exception:
            return T('bin', op, a, b)
    if a.op == 'tuple' and b.op == 'tuple' and op == '+':
        return T('tuple', *(a.a + b.a))
    if a.op == 'tuple' and op == '*' and b.op == 'const':
        return T('tuple', *(a.a * b.a[0]))
    if op in ('+', '-') and b.op == 'const' and type(b.a[0]) is int and b.a[0] == 0:
        return a
    if op == '*' and b.op == 'const' and type(b.a[0]) is int and b.a[0] == 1:
        return a
    return T('bin', op, a, b)


def mk_cmp(op, a, b):
    """Canonical comparison; returns a term built from ==, <, <=, is, in, not."""
    if op == '!=':
        return mk_not(mk_cmp('==', a, b))
    if op == 'is not':
        return mk_not(mk_cmp('is', a, b))
    if op == 'not in':
        return mk_not(mk_cmp('in', a, b))
    if op == '>':
        return mk_cmp('<', b, a)
    if op == '>=':
        return mk_cmp('<=', b, a)
    if a.op == 'const' and b.op == 'const':
        x, y = a.a[0], b.a[0]
        try:
            if op == '==':
                return const(x == y)
            if op == '<':
                return const(x < y)
            if op == '<=':
                return const(x <= y)
            if op == 'is':
                return const(x is y or (type(x) is type(y) and x == y and
                                        isinstance(x, (int, bool, type(None), str))))
            if op == 'in':
                return const(x in y)
        except Exception:
            pass
    if op == '==' and a.op == 'tuple' and b.op == 'tuple':
        if len(a.a) != len(b.a):
            return FALSE
        return mk_and([mk_cmp('==', x, y) for x, y in zip(a.a, b.a)])
    if op == '==' and a.sid == b.sid and a.op != 'elemwise':
        return TRUE
    if op == 'is' and a is b:
        return TRUE
    if op == 'is' and a.sid == b.sid and a.op in ('ext', 'cls', 'func', 'ref', 'sym'):
        return TRUE
    if op == '==' and a.sid > b.sid:
        a, b = b, a
    if op == 'is' and b.op == 'const' and b.a[0] is None:
        if a.op in ('tuple', 'slice', 'ref', 'nt', 'func', 'cls'):
            return FALSE
        if a.op == 'phi':
            x, y = mk_cmp('is', a.a[1], b), mk_cmp('is', a.a[2], b)
            if x.op == 'const' and y.op == 'const':
                return mk_phi(a.a[0], x, y)
    return T('cmp', op, a, b)


def subst(t, m, memo=None):
    """Replace sub-terms by sid.  `m`: {sid: T}."""
    memo = {} if memo is None else memo
    if t.sid in m:
        return m[t.sid]
    if t.sid in memo:
        return memo[t.sid]
    if t.op in ('const', 'sym', 'ext', 'func', 'cls', 'ref'):
        memo[t.sid] = t
        return t

    changed = [False]

    def go(x):
        if isinstance(x, T):
            y = subst(x, m, memo)
            if y is not x:
                changed[0] = True
            return y
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    if not changed[0]:
        r = t
    elif t.op == 'bin':
        r = mk_bin(*a)
    elif t.op == 'phi':
        r = mk_phi(*a)
    elif t.op == 'not':
        r = mk_not(*a)
    elif t.op == 'and':
        r = mk_and(a)
    elif t.op == 'cmp':
        r = mk_cmp(*a)
    else:
        r = T(t.op, *a, info=t.info)
    memo[t.sid] = r
    return r


def phi_leaves(t, path=()):
    """[(path conditions, leaf)] of nested phis."""
    if t.op == 'phi':
        c, a, b = t.a
        return phi_leaves(a, path + ((c, True),)) + phi_leaves(b, path + ((c, False),))
    return [(path, t)]


def show(t, depth=7):
    if depth <= 0:
        return '..'
    d = depth - 1
    s = lambda x: show(x, d) if isinstance(x, T) else (
        '(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    if t.op == 'const':
        return repr(t.a[0])
    if t.op in ('sym', 'ext'):
        return str(t.a[0])
    if t.op == 'bin':
        return '(%s %s %s)' % (s(t.a[1]), t.a[0], s(t.a[2]))
    if t.op == 'cmp':
        return '(%s %s %s)' % (s(t.a[1]), t.a[0], s(t.a[2]))
    if t.op == 'attr':
        return '%s.%s' % (s(t.a[0]), t.a[1])
    if t.op == 'sub':
        return '%s[%s]' % (s(t.a[0]), s(t.a[1]))
    if t.op == 'tuple':
        return '(%s)' % ', '.join(s(x) for x in t.a)
    if t.op == 'call':
        f, args, kw = t.a[:3]
        parts = [s(x) for x in args] + ['%s=%s' % (k, s(v)) for k, v in kw]
        return '%s(%s)' % (s(f), ', '.join(parts))
    if t.op == 'phi':
        return '{%s ? %s : %s}' % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    return '%s<%s>' % (t.op, ', '.join(s(x) for x in t.a))
