"""Exact rational functions, and the sign facts which hold for all their arguments.

Polynomials are dictionaries from monomials to fractions; a monomial is a sorted tuple of
(symbol, exponent).  Symbols whose name starts with '+' stand for non-negative reals and
symbols whose name starts with '>' for positive ones; all others are arbitrary reals.
"""
from fractions import Fraction


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(x, y):
    d = dict(x)
    for s, e in y:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


class Rat(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        if not isinstance(n, dict):
            n = {(): Fraction(n)} if n else {}
        self.n, self.d = n, d if d is not None else ONE
        self.reduce()

    def reduce(self):
        if not self.n:
            self.d = ONE
        elif len(self.d) == 1:
            # divide by a common monomial
            (m, c), = self.d.items()
            if m == () and c == 1:
                return
            if m == ():
                self.n = {k: v / c for k, v in self.n.items()}
                self.d = ONE
                return
            g = dict(m)
            for k in self.n:
                kd = dict(k)
                g = {s: min(e, kd.get(s, 0)) for s, e in g.items() if kd.get(s, 0)}
            if g or c != 1:
                def cut(k):
                    return tuple((s, e - g.get(s, 0)) for s, e in k if e - g.get(s, 0))
                self.n = {cut(k): v / c for k, v in self.n.items()}
                self.d = {cut(m): Fraction(1)}
        elif same(self.n, self.d):
            self.n, self.d = ONE, ONE
        else:
            q = divide(self.n, self.d)
            if q is not None:
                self.n, self.d = q, ONE

    @staticmethod
    def sym(name):
        return Rat({((name, 1),): Fraction(1)})

    def __add__(self, o):
        if same(self.d, o.d):
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return self + o * Rat(-1)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise ZeroDivisionError
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def equals(self, o):
        return same(pmul(self.n, o.d), pmul(o.n, self.d))

    def const(self):
        """The constant this is, or None."""
        if not self.n:
            return Fraction(0)
        if list(self.n) == [()] and list(self.d) == [()]:
            return self.n[()] / self.d[()]
        return None

    def symbols(self):
        return {s for p in (self.n, self.d) for m in p for s, e in m}

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def subst(self, env):
        """Replace symbols by rational functions."""
        def ev(p):
            r = Rat(0)
            for m, c in p.items():
                t = Rat(c)
                for s, e in m:
                    b = env[s] if s in env else Rat.sym(s)
                    for _ in range(e):
                        t = t * b
                r = r + t
            return r
        return ev(self.n) / ev(self.d)

    def signs(self):
        """The possible signs, a subset of {-1, 0, 1}."""
        c = self.const()
        if c is not None:
            return {(c > 0) - (c < 0)}
        a, b = psigns(self.n), psigns(self.d) - {0}
        return {x * y for x in a for y in b}

    def __repr__(self):
        def p(x):
            def mono(m):
                return '*'.join(s if e == 1 else '%s^%d' % (s, e) for s, e in m)
            if not x:
                return '0'
            return ' + '.join(
                (mono(m) if c == 1 and m else '%s%s' % (c, '*' + mono(m) if m else ''))
                for m, c in sorted(x.items(), key=str))
        return p(self.n) if self.d == ONE else '(%s)/(%s)' % (p(self.n), p(self.d))


def same(a, b):
    return a == b


def divide(a, b):
    """a / b if it is a polynomial, for the few cases worth finding."""
    if len(a) > 60 or len(b) > 12:
        return None
    syms = sorted({s for m in list(a) + list(b) for s, e in m})
    if len(syms) > 8:
        return None

    def order(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(s, 0) for s in syms))
    lb = max(b, key=order)
    q, r = {}, dict(a)
    for _ in range(60):
        if not r:
            return q
        lr = max(r, key=order)
        d = dict(lr)
        for s, e in lb:
            d[s] = d.get(s, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        m = tuple(sorted((s, e) for s, e in d.items() if e))
        c = r[lr] / b[lb]
        q[m] = c
        r = padd(r, pmul({m: c}, b), -1)
    return None


def psigns(p):
    if not p:
        return {0}
    pos, neg, strict = False, False, False
    for m, c in p.items():
        if any(s[0] not in '+>' and e % 2 for s, e in m):
            return {-1, 0, 1}
        if c > 0:
            pos = True
        else:
            neg = True
        if all(s[0] == '>' for s, e in m):
            strict = True
    if pos and neg:
        return {-1, 0, 1}
    r = {1} if pos else {-1}
    return r if strict else r | {0}
