"""Concrete dtypes: what a program can tell about a pair of them.

Conditions about symbolic dtypes which the interpreter can't decide are decided for some pairs of
concrete dtypes; what the program does for those is what it does for some inputs."""

KINDS = {'?': 'b', 'b': 'i', 'h': 'i', 'i': 'i', 'l': 'i', 'B': 'u', 'H': 'u', 'I': 'u', 'L': 'u',
         'e': 'f', 'f': 'f', 'd': 'f', 'F': 'c', 'D': 'c', 'S': 'S'}
SIZES = {'?': 1, 'b': 1, 'h': 2, 'i': 4, 'l': 8, 'B': 1, 'H': 2, 'I': 4, 'L': 8, 'e': 2, 'f': 4,
         'd': 8, 'F': 8, 'D': 16}
NUMS = '?bBhHiIlL'
NAMES = {'?': 'bool', 'e': 'float16', 'f': 'float32', 'd': 'float64', 'F': 'complex64',
         'D': 'complex128', 'b': 'int8', 'h': 'int16', 'i': 'int32', 'l': 'int64', 'B': 'uint8',
         'H': 'uint16', 'I': 'uint32', 'L': 'uint64'}
GENERIC = {'floating': 'f', 'integer': 'iu', 'signedinteger': 'i', 'unsignedinteger': 'u',
           'number': 'iufc', 'inexact': 'fc', 'complexfloating': 'c', 'bool_': 'b',
           'generic': 'biufcS', 'string_': 'S', 'bytes_': 'S', 'character': 'S',
           'flexible': 'S'}


class D(object):
    def __init__(self, text):
        self.text = text
        self.order = text[0] if text[0] in '<>' else ''
        t = text.lstrip('<>')
        self.char = t[0]
        self.kind = KINDS[self.char]
        self.size = int(t[1:]) if self.char == 'S' else SIZES[self.char]

    def key(self):
        return self.char, self.size, self.order == '>' and self.size > 1 and self.char != 'S'

    def attr(self, name):
        if name == 'kind':
            return self.kind
        if name == 'char':
            return self.char
        if name == 'itemsize':
            return self.size
        if name == 'alignment' and self.char != 'S':
            return self.size
        if name == 'name':
            return NAMES.get(self.char, 'bytes%d' % (8 * self.size))
        if name == 'str':
            o = '|' if self.size == 1 or self.char == 'S' else '>' if self.key()[2] else '<'
            return '%s%s%d' % (o, self.kind, self.size)
        if name == 'byteorder':
            return '|' if self.size == 1 or self.char == 'S' else '>' if self.key()[2] else '='
        if name == 'type':
            return 'type', self.char
        if name == 'isnative':
            return not self.key()[2]
        if name == 'hasobject':
            return False
        return None


def can_cast(a, b, casting='safe'):
    if casting == 'unsafe':
        return True
    if casting == 'no':
        return a.key() == b.key()
    if casting == 'equiv':
        return a.key()[:2] == b.key()[:2]
    if a.kind == 'S' or b.kind == 'S':
        if a.kind == b.kind:
            return casting == 'same_kind' or a.size <= b.size
        return None
    if casting == 'same_kind':
        rank = {'b': 0, 'u': 1, 'i': 2, 'f': 3, 'c': 4}
        return rank[a.kind] <= rank[b.kind]
    if a.kind == b.kind:
        return a.size <= b.size
    if a.kind == 'b':
        return True
    if b.kind == 'b':
        return False
    if (a.kind, b.kind) == ('u', 'i'):
        return a.size < b.size
    if a.kind in 'ui' and b.kind in 'fc':
        need = 2 if a.size == 1 else 4 if a.size == 2 else 8
        return need <= (b.size // 2 if b.kind == 'c' else b.size)
    if (a.kind, b.kind) == ('f', 'c'):
        return a.size * 2 <= b.size
    return False


PAIRS = (('f', 'd'), ('d', 'f'), ('h', 'd'), ('i', 'f'), ('d', 'i'), ('B', 'b'), ('b', 'B'),
         ('i', 'I'), ('?', 'b'), ('>f', '<f'), ('S1', 'S3'), ('S3', 'S1'), ('l', 'h'))


class Pair(object):
    """A hypothesis about what the symbols of a program's dtypes are."""

    def __init__(self, env):
        self.env = {k: D(v) for k, v in env.items()}
        self.used = set()

    def __str__(self):
        return ', '.join('%s is %s' % (k, v.attr('str')) for k, v in sorted(self.env.items()))

    def ev(self, t):
        if t.op == 'sym':
            v = self.env.get(t.a[0])
            if v is not None:
                self.used.add(t.a[0])
            return v
        if t.op == 'const':
            return t.a[0]
        if t.op == 'attr':
            b = self.ev(t.a[0])
            return b.attr(t.a[1]) if isinstance(b, D) else None
        if t.op == 'ext':
            n = t.a[0].split('.')[-1]
            return ('generic', GENERIC[n]) if n in GENERIC else None
        if t.op == 'call' and t.a[0].op == 'ext':
            n = t.a[0].a[0]
            args, kw = call_args(t)
            if args is None:
                return None
            vs = [self.ev(x) for x in args]
            if any(v is None for v in vs):
                return None
            if n == 'numpy.can_cast' and len(vs) in (2, 3) and isinstance(vs[0], D) and \
                    isinstance(vs[1], D):
                c = vs[2] if len(vs) == 3 else 'safe'
                for k, x in kw:
                    if k != 'casting':
                        return None
                    c = self.ev(x)
                return can_cast(vs[0], vs[1], c) if isinstance(c, str) else None
            if kw:
                return None
            if n in ('numpy.issubdtype', 'numpy.issubclass_') and len(vs) == 2:
                k = vs[0].kind if isinstance(vs[0], D) else None
                if k and isinstance(vs[1], tuple) and vs[1][0] == 'generic':
                    return k in vs[1][1]
            if n in ('numpy.promote_types', 'numpy.result_type') and len(vs) == 2 and \
                    all(isinstance(v, D) for v in vs):
                for a, b in (vs, vs[::-1]):
                    if can_cast(a, b):
                        return D(b.char) if b.char != 'S' else b
                return None
            if n == 'numpy.dtype' and len(vs) == 1 and isinstance(vs[0], D):
                return vs[0]
        return None

    def decide(self, I, c, st):
        if c.op == 'truthy':
            v = self.ev(c.a[0])
            return None if v is None or not isinstance(v, (bool, int, str)) else bool(v)
        if c.op == 'not':
            r = self.decide(I, c.a[0], st)
            return None if r is None else not r
        if c.op == 'call':
            v = self.ev(c)
            return v if isinstance(v, bool) else None
        if c.op == 'cmp':
            x, y = self.ev(c.a[1]), self.ev(c.a[2])
            if x is None or y is None:
                return None
            if isinstance(x, D) and isinstance(y, D):
                x, y = x.key(), y.key()
            elif isinstance(x, D) or isinstance(y, D):
                return None
            op = c.a[0]
            if op in ('==', 'is'):
                return x == y
            if op in ('!=', 'is not'):
                return x != y
            if isinstance(x, (int, str)) and type(x) is type(y):
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}.get(op)
            if op in ('in', 'not in') and isinstance(x, str) and isinstance(y, str):
                return (x in y) == (op == 'in')
        return None


def call_args(t):
    args, kw = t.a[1], t.a[2] if len(t.a) > 2 else ()
    return list(args), [(k, v) for k, v in kw]
