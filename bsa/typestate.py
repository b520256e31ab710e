"""A typestate analysis for the thread/queue code of the evaluation engine.

The abstract syntax of the engine is interpreted over an abstract domain: the
objects which the engine itself creates (nodes, queues, threads, lists, dicts)
are tracked exactly, everything else (arrays, data, handlers) is opaque.  All
the branches which depend on something opaque are explored; loops are explored
until the abstract state repeats.  Nothing of the package is executed.
"""
import ast
import builtins
import os


class Unsupported(Exception):
    """The code does something which this analysis doesn't model."""


class Pruned(Exception):
    """The abstract state has been seen before."""


class Killed(Exception):
    """A violation has been recorded and the path ends here."""


class NotReady(Exception):
    """A queue whose writer hasn't been analysed yet."""


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _GenClose(Exception):
    """Closes a generator (runs its finally clauses); carries what to do then."""
    def __init__(self, gen, inner):
        self.gen, self.inner = gen, inner


class PyExc(Exception):
    """An exception of the analysed program."""
    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------ values
class Opaque(object):
    def __init__(self, tag, eq=None, roots=(), deps=(), nonnull=True):
        self.tag = tag
        self.eq = eq if eq is not None else ('u', id(self))
        self.roots = frozenset(roots)
        self.src = frozenset()       # the arrays whose data it is
        self.deps = tuple(deps)
        self.nonnull = nonnull       # True / False: None / None: may be None
        self.truth = None
        self.facts = {}
        self.attrs = {}
        self.kind = ''

    def __repr__(self):
        return '<%s>' % self.tag


class Tok(Opaque):
    """A chunk received from a queue."""


class Stub(Opaque):
    agg = False

    def __init__(self, label, sources=None, shape=None, ndim=2):
        Opaque.__init__(self, label, ('stub', label), (label,))
        self.label, self.sources, self.ndim = label, sources, ndim
        self.kind = 'array'
        self.src = frozenset([label])
        self.attrs['shape'] = Opaque('%s.shape' % label, ('shape', shape or label), (label,))
        self.attrs['dtype'] = Opaque('%s.dtype' % label, ('dtype', label), (label,))


class Ext(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExcVal(object):
    """cls: the name of a builtin exception class, '?Exception' or '?Base'."""
    def __init__(self, cls, injected=False, user=None):
        self.cls, self.injected, self.user = cls, injected, user
        self.memo = {}
        self.attrs = {}


class Func(object):
    def __init__(self, node, env, mod, cls=None, name=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinMethod(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Class(object):
    def __init__(self, node, mod, bases, ns):
        self.node, self.mod, self.bases, self.ns = node, mod, bases, ns
        self.name = node.name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]


class Static(object):
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class Inst(object):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class NTClass(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class NTInst(object):
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, vals


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VList(object):
    def __init__(self, items):
        self.items = list(items)


class VSet(object):
    def __init__(self, items):
        self.items = list(items)


class VDict(object):
    def __init__(self):
        self.pairs = []


class Queue(object):
    def __init__(self, qid, maxsize, site):
        self.qid, self.maxsize, self.site = qid, maxsize, site
        self.content = []
        self.undone = 0

    def __repr__(self):
        return 'queue %d' % self.qid


class Thread(object):
    def __init__(self, tid, target, args, kwargs, site):
        self.tid, self.target, self.args, self.kwargs = tid, target, args, kwargs
        self.site = site
        self.started = 0
        self.joined = 0
        self.ran = False
        self.attrs = {}


class Gen(object):
    """An unevaluated generator: run(on_item) drives it."""
    def __init__(self, run, what):
        self.run, self.what, self.used = run, what, False


class Iter(object):
    def __init__(self, items):
        self.items, self.pos = items, 0


class Frame(object):
    def __init__(self, env, name):
        self.env, self.name, self.tmp, self.node = env, name, [], None


class Env(object):
    def __init__(self, parent, mod):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.globals_, self.nonlocals_ = set(), set()


EXC = {n for n, v in vars(builtins).items()
       if isinstance(v, type) and issubclass(v, BaseException)}
BUILTINS = EXC | {'object', 'type', 'int', 'str', 'bool', 'list', 'tuple', 'dict', 'set',
                  'frozenset', 'len', 'range', 'enumerate', 'zip', 'any', 'all', 'id',
                  'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'callable',
                  'iter', 'next', 'reversed', 'sorted', 'min', 'max', 'sum', 'map', 'filter',
                  'repr', 'print', 'super', 'slice', 'float', 'abs', 'hash', 'staticmethod',
                  'classmethod', 'property', 'NotImplemented', 'Ellipsis', 'vars', 'format'}


class Package(object):
    """The parsed modules of the package."""

    def __init__(self, root):
        self.root, self.mods = root, {}
        base = os.path.join(root, 'biggus')
        for d, _, fs in sorted(os.walk(base)):
            if os.path.basename(d) in ('tests', '__pycache__') or '/tests/' in d + '/':
                continue
            for f in sorted(fs):
                if f.endswith('.py'):
                    path = os.path.join(d, f)
                    name = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(path) as fh:
                        src = fh.read()
                    self.mods[name] = (path, ast.parse(src), src)
        self._gen = {}

    def is_generator(self, fn):
        k = id(fn)
        if k not in self._gen:
            found = False
            stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                      ast.GeneratorExp)):
                    stack.extend(ast.iter_child_nodes(n))
            self._gen[k] = found
        return self._gen[k]


_MISSING = object()


class Machine(object):
    """One path through the program."""

    def __init__(self, pkg, prefix=(), seen=None, pathno=0):
        self.pkg = pkg
        self.prefix, self.trace = list(prefix), []
        self.seen = seen if seen is not None else {}
        self.pathno = pathno
        self.genv = {}
        self.frames = []
        self.queues, self.threads = [], []
        self.order = []              # wiring events
        self.eqs, self.neqs = {}, set()
        self.mon = None              # the monitor of a thread, None while wiring
        self.log = []
        self.progress = 0
        self.depth = 0
        self.steps = 0
        self.functions = set()
        self.frozen = {}             # id(obj) -> thread that may be reading it
        self.keep = []
        self.inject = None           # called before an operation that may fail
        self.on_join = None
        self.njoin = None            # how many choices were made before joining
        self.curexc = []
        self.inside = None           # interpret the functions of the package as well
        self.item_truth = None       # whether the keys of chunks are true (not empty)

    # ------------------------------------------------------------ nondeterminism
    def choose(self, n, why=''):
        if n <= 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        if len(self.trace) > 400:
            raise Unsupported('too many choices on one path')
        return c

    def say(self, text):
        self.log.append(text)

    def site(self, node=None):
        for fr in reversed(self.frames):
            n = node or fr.node
            if n is not None and hasattr(n, 'lineno'):
                return '%s:%d (%s)' % (os.path.relpath(self.pkg.mods[fr.env.mod][0],
                                                       self.pkg.root), n.lineno, fr.name)
        return '?'

    # ------------------------------------------------------------------- modules
    def module(self, name):
        if name not in self.genv:
            env = Env(None, name)
            self.genv[name] = env
            env.lazy = {}
            for st in self.pkg.mods[name][1].body:
                self._index(env, st)
        return self.genv[name]

    def _index(self, env, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            env.lazy[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                env.lazy[a.asname or a.name.split('.')[0]] = \
                    ('mod', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == '*':
                    env.__dict__.setdefault('stars', []).append((st.module, st.level))
                    continue
                env.lazy[a.asname or a.name] = ('from', st.module, a.name, st.level)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.lazy[t.id] = ('expr', st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for b in ast.iter_child_nodes(st):
                if isinstance(b, ast.stmt):
                    self._index(env, b)

    def module_attr(self, mod, name):
        env = self.module(mod)
        if name in env.vars:
            return env.vars[name]
        if name in env.lazy:
            st = env.lazy[name]
            fr = Frame(env, '<module>')
            self.frames.append(fr)
            try:
                if isinstance(st, tuple):
                    if st[0] == 'mod':
                        v = Ext(st[1])
                    elif st[0] == 'from':
                        v = self._from(mod, *st[1:])
                    else:
                        fr.node = st[1]
                        v = self.ev(st[1], env)
                    env.vars[name] = v
                else:
                    v = self._def(st, env)
                    env.vars[name] = v
                    if isinstance(st, ast.FunctionDef):
                        for d in st.decorator_list:
                            s = ast.unparse(d)
                            if s not in ('export', 'staticmethod'):
                                v = Opaque(name, ('g', mod, name))
                                env.vars[name] = v
            finally:
                self.frames.pop()
            return v
        if not name.startswith('_'):
            for src, level in reversed(getattr(env, 'stars', ())):
                v = self._from(mod, src, name, level)
                if not isinstance(v, Ext):
                    env.vars[name] = v
                    return v
        return _MISSING

    def _from(self, mod, src, name, level):
        if level:
            parts = mod.split('.')
            pkgpath = self.pkg.mods[mod][0]
            if not pkgpath.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (level - 1)]
            src = '.'.join(parts + ([src] if src else []))
        if src in self.pkg.mods:
            v = self.module_attr(src, name)
            if v is not _MISSING:
                return v
        if src in ('six.moves', 'builtins', 'six.moves.builtins') and name in BUILTINS:
            return Ext('builtins.' + name)
        if '%s.%s' % (src, name) in self.pkg.mods:
            return Ext('%s.%s' % (src, name))
        return Ext('%s.%s' % (src, name))

    def lookup(self, name, env):
        e = env
        while e is not None:
            if e.parent is None:
                break
            if name in e.globals_:
                e = None
                break
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        v = self.module_attr(env.mod, name)
        if v is not _MISSING:
            return v
        if name in BUILTINS or hasattr(builtins, name):
            return Ext('builtins.' + name)
        raise PyExc(ExcVal('NameError'))

    def setname(self, name, v, env):
        if name in env.globals_:
            env = self.module(env.mod)
        elif name in env.nonlocals_:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e or env
        self.mutated(env)
        env.vars[name] = v

    def _def(self, st, env, cls=None):
        if isinstance(st, ast.FunctionDef):
            f = Func(st, env, env.mod, cls)
            f.defaults = [self.ev(d, env) if not (cls or env.parent is None) or
                          isinstance(d, ast.Constant) else self.try_ev(d, env)
                          for d in st.args.defaults]
            f.kwdefaults = [None if d is None else self.try_ev(d, env)
                            for d in st.args.kw_defaults]
            return f
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Call) and ast.unparse(b.func).endswith('with_metaclass'):
                for x in b.args[1:]:
                    bases.append(self.ev(x, env))
            else:
                bases.append(self.ev(b, env))
        c = Class(st, env.mod, bases, {})
        cenv = Env(env, env.mod)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = self._def(s, env, c)
                for d in s.decorator_list:
                    u = ast.unparse(d)
                    if u in ('staticmethod', 'classmethod', 'property'):
                        f = Static(f, u)
                    elif u.split('.')[-1] in ('abstractmethod', 'abstractproperty'):
                        pass
                    elif u.endswith('.setter'):
                        f = Static(f, 'setter')
                    else:
                        f = Static(f, 'unknown')
                if isinstance(f, Static) and f.kind == 'setter':
                    c.ns[s.name + '.setter'] = f
                else:
                    c.ns[s.name] = f
                    cenv.vars[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c.ns[s.name] = cenv.vars[s.name] = self._def(s, env)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = self.try_ev(s.value, cenv)
                        c.ns[t.id] = cenv.vars[t.id] = v
        return c

    def try_ev(self, e, env):
        try:
            return self.ev(e, env)
        except Unsupported:
            return Opaque(ast.unparse(e)[:30])

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported('too many steps')
        fr = self.frames[-1]
        fr.node = st
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('the statement %s' % type(st).__name__)
        m(st, env)

    def s_Expr(self, st, env):
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = \
                Ext(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self._from(env.mod, st.module, a.name, st.level)

    def s_Global(self, st, env):
        env.globals_ |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals_ |= set(st.names)

    def s_FunctionDef(self, st, env):
        f = self._def(st, env)
        for d in st.decorator_list:
            raise Unsupported('a decorated inner function')
        env.vars[st.name] = f

    def s_ClassDef(self, st, env):
        env.vars[st.name] = self._def(st, env)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
        else:
            ld = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
            ld.ctx = ast.Load()
            old = self.ev(ld, env)
        v = self.ev(st.value, env)
        if isinstance(old, VList) and isinstance(st.op, ast.Add):
            self.mutated(old)
            old.items.extend(self.to_list(v))
            return
        if isinstance(old, Opaque) and self.mon is not None:
            self.mon.updated(old, v, st)
        self.assign(t, self.binop(st.op, old, v, st), env)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    self.mutated(o)
                    o.attrs.pop(t.attr, None)
            else:
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                self.call_method(o, '__delitem__', [k], {}, t)

    def s_Return(self, st, env):
        raise _Return(self.ev(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_If(self, st, env):
        self.block(st.body if self.test(st.test, env) else st.orelse, env)

    def s_Assert(self, st, env):
        v = self.ev(st.test, env)
        if self.mon is None and isinstance(v, Opaque) and v.truth is None:
            v.truth = True
            return
        if not self.truth(v):
            if self.mon is None:
                raise Killed()           # the choices made so far contradict it
            raise PyExc(ExcVal('AssertionError'))

    def test(self, e, env):
        return self.truth(self.ev(e, env))

    def loop_head(self, st):
        if len(self.trace) < len(self.prefix):
            return
        key = self.canon(st)
        hit = self.seen.get(key)
        if hit is not None:
            if hit[0] == self.pathno and hit[1] == self.progress:
                self.report('termination', 'the loop at %s can repeat for ever without '
                            'receiving anything' % self.site(st))
            raise Pruned()
        self.seen[key] = (self.pathno, self.progress)
        if len(self.seen) > 60000:
            raise Unsupported('too many states')

    def s_While(self, st, env):
        fr = self.frames[-1]
        n = 0
        while True:
            fr.node = st
            self.loop_head(st)
            n += 1
            if n > 60:
                raise Unsupported('the states of the loop at line %d do not repeat' % st.lineno)
            if not self.test(st.test, env):
                self.block(st.orelse, env)
                return
            try:
                self.block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        fr = self.frames[-1]
        fr.tmp.append(it)

        def body(v):
            self.assign(st.target, v, env)
            try:
                self.block(st.body, env)
            except _Continue:
                pass
            fr.node = st
        try:
            try:
                self.iterate(it, body, st)
            except _Break:
                return
            self.block(st.orelse, env)
        finally:
            fr.tmp.pop()

    def s_With(self, st, env):
        for item in st.items:
            v = self.ev(item.context_expr, env)
            if not isinstance(v, Opaque):
                raise Unsupported('the context manager %r' % (v,))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        self.block(st.body, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            if not self.curexc:
                raise PyExc(ExcVal('RuntimeError'))
            raise PyExc(self.curexc[-1])
        v = self.ev(st.exc, env)
        raise PyExc(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, Ext):
            n = v.name.split('.')[-1]
            return ExcVal(n if n in EXC else '?Exception')
        if isinstance(v, Class):
            v = self.call(v, [], {}, None)
        if isinstance(v, Inst):
            e = ExcVal('?Exception', user=v.cls)
            for b in v.cls.ext_bases():
                n = b.name.split('.')[-1]
                if n in EXC:
                    e.cls = n
            return e
        return ExcVal('?Exception')

    def matches(self, exc, h, env):
        """-> (matches, broad)."""
        if h.type is None:
            return True, True
        t = self.ev(h.type, env)
        ts = self.to_list(t) if isinstance(t, (tuple, VList)) else [t]
        for t in ts:
            if isinstance(t, Class):
                if exc.user is not None and t in exc.user.mro():
                    return True, False
                if exc.user is None and exc.cls.startswith('?') and \
                        self.memo_choose(exc, ('cls', id(t))):
                    return True, False
                continue
            n = t.name.split('.')[-1] if isinstance(t, Ext) else '?'
            broad = n in ('Exception', 'BaseException')
            if exc.cls == '?Exception':
                ok = True if broad else self.memo_choose(exc, n) if n != 'GeneratorExit' \
                    else False
            elif exc.cls == '?Base':
                ok = True if n == 'BaseException' else False if broad else \
                    (n in EXC and not issubclass(getattr(builtins, n), Exception) and
                     self.memo_choose(exc, n))
            elif exc.cls in ('Empty', 'Full'):
                ok = broad or n == exc.cls
            elif exc.cls in EXC and n in EXC:
                ok = issubclass(getattr(builtins, exc.cls), getattr(builtins, n))
            else:
                ok = False
            if ok:
                return True, broad
        return False, False

    def memo_choose(self, o, k):
        memo = o.memo if isinstance(o, ExcVal) else o.facts
        if k not in memo:
            memo[k] = bool(self.choose(2, str(k)))
        return memo[k]

    def s_Try(self, st, env):
        depth = len(self.curexc)
        nf = len(self.frames)
        fr = self.frames[-1]
        ntmp = len(fr.tmp)

        def handled():
            try:
                self.block(st.body, env)
            except PyExc as e:
                del self.frames[nf:]
                del fr.tmp[ntmp:]
                exc = e.exc
                for h in st.handlers:
                    ok, broad = self.matches(exc, h, env)
                    if ok:
                        if broad and self.mon is not None and exc.cls not in ('Empty', 'Full'):
                            self.mon.fail('caught an exception', exc)
                        self.curexc.append(exc)
                        if h.name:
                            env.vars[h.name] = exc
                        try:
                            self.block(h.body, env)
                        finally:
                            del self.curexc[depth:]
                        return
                raise
            self.block(st.orelse, env)
        if not st.finalbody:
            return handled()
        try:
            handled()
        except (PyExc, _Break, _Continue, _Return, _GenClose) as e:
            del self.frames[nf:]
            del fr.tmp[ntmp:]
            if isinstance(e, PyExc):
                if self.mon is not None and e.exc.cls not in ('Empty', 'Full'):
                    self.mon.pending_exc = e.exc
                self.curexc.append(e.exc)
            # What is going to happen afterwards is part of the state.
            fr.tmp.append(e.exc if isinstance(e, PyExc) else type(e).__name__)
            try:
                self.block(st.finalbody, env)
            finally:
                del self.curexc[depth:]
                del fr.tmp[ntmp:]
            raise
        self.block(st.finalbody, env)

    # ------------------------------------------------------------------- binding
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                for i, x in enumerate(t.elts):
                    self.assign(x, self.op_get(v, i, x), env)
                return
            vs = self.to_list(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(t.elts) - i - 1
                parts = vs[:i] + [VList(vs[i:len(vs) - k])] + vs[len(vs) - k:]
                if len(vs) < len(t.elts) - 1:
                    raise PyExc(ExcVal('ValueError'))
            else:
                parts = vs
                if len(vs) != len(t.elts):
                    raise PyExc(ExcVal('ValueError'))
            for x, p in zip(t.elts, parts):
                self.assign(x, p, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.setitem(o, k, v, t)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def setattr(self, o, name, v, node):
        if isinstance(o, Inst):
            s = o.cls.find(name + '.setter')
            if s is not None:
                return self.call(Bound(s.f, o), [v], {}, node)
            self.mutated(o)
            o.attrs[name] = v
        elif isinstance(o, Thread):
            o.attrs[name] = v
        elif isinstance(o, Opaque):
            self.fallible('setting .%s of %r' % (name, o), node)
            self.effect(o, 'set .' + name, [v], node)
        elif isinstance(o, Class):
            o.ns[name] = v
        elif isinstance(o, (ExcVal, Func)):
            o.__dict__.setdefault('attrs', {})[name] = v
        else:
            raise Unsupported('setting an attribute of %r' % (o,))

    def setitem(self, o, k, v, node):
        if isinstance(o, VDict):
            self.mutated(o)
            for p in o.pairs:
                if self.equal(p[0], k):
                    p[1] = v
                    return
            o.pairs.append([k, v])
        elif isinstance(o, VList):
            self.mutated(o)
            if isinstance(k, int):
                try:
                    o.items[k] = v
                except IndexError:
                    raise PyExc(ExcVal('IndexError'))
            elif isinstance(k, slice):
                o.items[k] = self.to_list(v)
            else:
                raise Unsupported('a list index')
        elif isinstance(o, Opaque):
            self.fallible('storing into %r' % o, node)
            self.effect(o, 'setitem', [k, v], node)
        elif isinstance(o, Inst):
            self.call_method(o, '__setitem__', [k, v], {}, node)
        elif o is None:
            raise PyExc(ExcVal('TypeError'))
        else:
            raise Unsupported('item assignment')

    # ---------------------------------------------------------- tracked mutation
    def mutated(self, o):
        t = self.frozen.get(id(o))
        if t is not None and self.mon is None:
            self.report('registration', 'state which the thread started at %s uses is changed '
                        'afterwards at %s' % (t.site, self.site()))

    # --------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('the expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return 'text'

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.setname(e.target.id, v, env)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return VList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.mkset(self.elts(e.elts, env))

    def mkset(self, items):
        out = []
        for x in items:
            if not any(self.equal(x, y) for y in out):
                out.append(x)
        return VSet(out)

    def elts(self, es, env):
        out = []
        fr = self.frames[-1]
        fr.tmp.append(out)
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        fr.tmp.pop()
        return out

    def e_Dict(self, e, env):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                for p in o.pairs:
                    self.setitem(d, p[0], p[1], e)
            else:
                self.setitem(d, self.ev(k, env), self.ev(v, env), e)
        return d

    def e_Lambda(self, e, env):
        f = Func(e, env, env.mod)
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.test(e.test, env) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        return self.derive('unary', [v])

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def binop(self, op, a, b, node):
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str, tuple)):
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return 'text'
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                        ast.Mod: lambda: a % b, ast.Div: lambda: a / b,
                        ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b,
                        ast.Pow: lambda: a ** b}[type(op)]()
            except (KeyError, TypeError, ValueError, ZeroDivisionError):
                raise Unsupported('arithmetic')
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return 'text'
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, VList):
                    return VList(x.items * y)
                if isinstance(y, int) and isinstance(x, tuple):
                    return x * y
        if isinstance(a, VSet) and isinstance(b, VSet):
            if isinstance(op, ast.BitOr):
                return self.mkset(a.items + b.items)
            if isinstance(op, ast.Sub):
                return VSet([x for x in a.items
                             if not any(self.equal(x, y) for y in b.items)])
            if isinstance(op, ast.BitAnd):
                return VSet([x for x in a.items
                             if any(self.equal(x, y) for y in b.items)])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.derive(type(op).__name__, [a, b])
        raise Unsupported('an operation on %r and %r' % (a, b))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            res = self.compare(op, left, right)
            if not (res is True):
                if res is False:
                    return False
                if len(e.ops) > 1:
                    if not self.truth(res):
                        return False
                    res = True
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return not self.identical(a, b)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return not self.equal(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            try:
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                        ast.GtE: a >= b}[type(op)]
            except TypeError:
                raise Unsupported('a comparison')
        if isinstance(a, VSet) and isinstance(b, VSet):
            raise Unsupported('set comparison')
        return self.derive(type(op).__name__, [a, b])

    def contains(self, b, a):
        if isinstance(b, VDict):
            return any(self.equal(p[0], a) for p in b.pairs)
        if isinstance(b, (VList, VSet, tuple, NTInst)):
            return any(self.identical(x, a) or self.equal(x, a) for x in self.to_list(b))
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, Opaque):
            return self.truth(self.derive('contains', [b, a]))
        raise Unsupported('membership of %r' % (b,))

    def nullness(self, o):
        """Whether an opaque object is None."""
        if o.nonnull is None:
            o.nonnull = not self.choose(2, '%s is None' % o.tag)
            if not o.nonnull:
                self.say('%s is None' % o.tag)
        return not o.nonnull

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque):
                if y is None:
                    return self.nullness(x)
                if not isinstance(y, Opaque):
                    if isinstance(y, (bool,)) and not x.kind:
                        return self.memo_choose(x, ('is', y))
                    return False
        if a is b:
            return True
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.eq == b.eq and a.kind != 'handler':
                return True
            if isinstance(a, (Tok, Stub)) or isinstance(b, (Tok, Stub)) or a.kind or b.kind:
                return False
            return self.pair(a, b)
        if isinstance(a, Ext) or isinstance(b, Ext):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (int, str, bool, float, bytes)) and type(a) is type(b):
            return a == b
        if a == () and b == () and isinstance(a, tuple) and isinstance(b, tuple):
            return True
        return False

    def find(self, k):
        while self.eqs.get(k, k) != k:
            k = self.eqs[k]
        return k

    def pair(self, a, b):
        """Whether two different opaque values are equal: either."""
        x, y = self.find(a.eq), self.find(b.eq)
        if x == y:
            return True
        k = frozenset([x, y])
        for n in self.neqs:
            if frozenset(self.find(z) for z in n) == k:
                return False
        if self.choose(2, 'equal'):
            self.eqs[x] = y
            return True
        self.neqs.add(k)
        return False

    def different_form(self, x, y):
        return False

    def equal(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and y is None:
                return self.nullness(x)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if self.find(a.eq) == self.find(b.eq):
                return True
            if isinstance(a, (Tok, Stub)) and isinstance(b, (Tok, Stub)):
                return False
            return self.pair(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque):
                if isinstance(y, (Ext, Inst, Class, Queue, Thread)):
                    return False
                if isinstance(y, (tuple, VList)) and self.different_form(x, y):
                    return False
                return self.pair(x, Opaque('const', ('const', self.key_of(y))))
        if isinstance(a, (tuple, VList)) and type(a) is type(b):
            x, y = self.to_list(a), self.to_list(b)
            if len(x) != len(y):
                return False
            # Decide the definite differences first.
            for p, q in zip(x, y):
                if self.differ(p, q):
                    return False
            return all(self.equal(p, q) for p, q in zip(x, y))
        if isinstance(a, NTInst) and isinstance(b, NTInst):
            return self.equal(tuple(a.vals), tuple(b.vals))
        if isinstance(a, (int, float, str, bool, bytes)) and \
                isinstance(b, (int, float, str, bool, bytes)):
            return a == b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, slice) and isinstance(b, slice):
            return self.equal((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, Inst) and a.cls.find('__eq__'):
            raise Unsupported('__eq__')
        return False

    def differ(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return False
        if isinstance(a, (tuple, VList)) and type(a) is type(b):
            x, y = self.to_list(a), self.to_list(b)
            return len(x) != len(y) or any(self.differ(p, q) for p, q in zip(x, y))
        if isinstance(a, (tuple, VList, VDict, VSet)) or isinstance(b, (tuple, VList, VDict, VSet)):
            return type(a) is not type(b)
        return not self.equal(a, b)

    def truth(self, v):
        if isinstance(v, Opaque):
            if v.nonnull is None or v.nonnull is False:
                if self.nullness(v):
                    return False
            if self.item_truth is not None and (
                    v.kind == 'item' or getattr(v, 'owner', (0, ''))[1] == 'keys'):
                return self.item_truth
            if isinstance(v, (Tok, Stub)) or v.kind:
                return True
            if v.truth is None:
                v.truth = bool(self.choose(2, v.tag))
            return v.truth
        if isinstance(v, (VList, VSet)):
            return bool(v.items)
        if isinstance(v, VDict):
            return bool(v.pairs)
        if isinstance(v, (tuple, int, float, str, bytes)) or v is None:
            return bool(v)
        if isinstance(v, Inst) and (v.cls.find('__bool__') or v.cls.find('__nonzero__') or
                                    v.cls.find('__len__')):
            raise Unsupported('__bool__')
        if isinstance(v, NTInst):
            return bool(v.vals)
        return True

    def key_of(self, v):
        if isinstance(v, Opaque):
            return ('o', self.find(v.eq))
        if isinstance(v, (tuple, VList, VSet)):
            return (type(v).__name__,) + tuple(self.key_of(x) for x in self.to_list(v))
        if isinstance(v, NTInst):
            return ('nt',) + tuple(self.key_of(x) for x in v.vals)
        if isinstance(v, VDict):
            return ('d',) + tuple((self.key_of(a), self.key_of(b)) for a, b in v.pairs)
        if isinstance(v, Ext):
            return ('x', v.name)
        if isinstance(v, slice):
            return ('sl', self.key_of(v.start), self.key_of(v.stop), self.key_of(v.step))
        if isinstance(v, (int, float, str, bytes, type(None), type(Ellipsis), complex)):
            return v
        return ('id', id(v))

    def flat(self, v, out=None, depth=0):
        """The opaque values inside a value."""
        out = [] if out is None else out
        if isinstance(v, Opaque):
            out.append(v)
        elif depth < 6:
            if isinstance(v, (tuple, VList, VSet)):
                for x in self.to_list(v):
                    self.flat(x, out, depth + 1)
            elif isinstance(v, NTInst):
                for x in v.vals:
                    self.flat(x, out, depth + 1)
            elif isinstance(v, VDict):
                for p in v.pairs:
                    self.flat(p[0], out, depth + 1)
                    self.flat(p[1], out, depth + 1)
            elif isinstance(v, slice):
                for x in (v.start, v.stop, v.step):
                    self.flat(x, out, depth + 1)
        return out

    def derive(self, tag, args, unique=False, tagname=None):
        ops = [x for a in args for x in self.flat(a)]
        roots = set()
        deps = []
        for o in ops:
            roots |= o.roots
            for d in self.entity(o):
                if d not in deps:
                    deps.append(d)
        eq = None if unique else ('f', tag, tuple(self.key_of(a) for a in args))
        r = Opaque(tagname or tag, eq, roots, deps)
        for o in ops:
            r.src |= o.src
        return r

    def entity(self, o):
        return ((o,) if o.kind in ('chunk', 'item', 'out') else ()) + o.deps

    # --------------------------------------------------------------- attributes
    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, e)

    def getattr(self, o, name, node):
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            f = o.cls.find(name)
            if f is not None:
                return self.bind(f, o, o.cls, node)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if any(b.name.endswith('Thread') for b in o.cls.ext_bases()):
                return BuiltinMethod(o, name)
            raise PyExc(ExcVal('AttributeError'))
        if isinstance(o, Stub):
            if name == 'sources':
                if o.sources is None:
                    raise PyExc(ExcVal('AttributeError'))
                return tuple(o.sources)
            if name == 'ndim':
                return o.ndim
            if name == 'streams_handler' and o.sources is None:
                raise PyExc(ExcVal('AttributeError'))
            if name in o.attrs:
                return o.attrs[name]
            return BuiltinMethod(o, name)
        if isinstance(o, Opaque):
            if self.nullness(o):
                raise PyExc(ExcVal('AttributeError'))
            if name not in o.attrs:
                o.attrs[name] = Opaque('%s.%s' % (o.tag, name), ('a', o.eq, name), o.roots,
                                       self.entity(o))
                o.attrs[name].owner = (o, name)
            return o.attrs[name]
        if isinstance(o, Ext):
            full = '%s.%s' % (o.name, name)
            if o.name in ('six.moves', 'six.moves.builtins') and name in BUILTINS:
                return Ext('builtins.' + name)
            if o.name in self.pkg.mods:
                v = self.module_attr(o.name, name)
                if v is not _MISSING:
                    return v
            return Ext(full)
        if isinstance(o, Class):
            f = o.find(name)
            if f is not None:
                if isinstance(f, Static):
                    if f.kind == 'staticmethod':
                        return f.f
                    if f.kind == 'classmethod':
                        return Bound(f.f, o)
                    return f
                return f
            if name == '__name__':
                return o.name
            raise PyExc(ExcVal('AttributeError'))
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Inst) else o.obj.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.obj, c, node)
            return BuiltinMethod(o, name)
        if isinstance(o, NTInst):
            if name in o.cls.fields:
                return o.vals[o.cls.fields.index(name)]
            return BuiltinMethod(o, name)
        if isinstance(o, Thread):
            if name in o.attrs:
                return o.attrs[name]
            return BuiltinMethod(o, name)
        if isinstance(o, (VList, VDict, VSet, Queue, tuple, str, int, float, ExcVal, Iter, Gen)):
            if isinstance(o, ExcVal) and name in o.attrs:
                return o.attrs[name]
            return BuiltinMethod(o, name)
        if o is None:
            raise PyExc(ExcVal('AttributeError'))
        if isinstance(o, (Func, Bound, NTClass)):
            if name == '__name__':
                return 'name'
        if isinstance(o, slice) and name in ('start', 'stop', 'step'):
            return getattr(o, name)
        raise Unsupported('the attribute %s of %r' % (name, o))

    def bind(self, f, o, cls, node):
        if isinstance(f, Static):
            if f.kind == 'staticmethod':
                return f.f
            if f.kind == 'classmethod':
                return Bound(f.f, o.cls if isinstance(o, Inst) else o)
            if f.kind == 'property':
                return self.call(Bound(f.f, o), [], {}, node)
            raise Unsupported('a decorated method')
        if isinstance(f, Func):
            return Bound(f, o)
        return f

    # -------------------------------------------------------------------- items
    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env), e)

    def e_Slice(self, e, env):
        g = [None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)]
        return slice(*g)

    def getitem(self, o, k, node):
        if isinstance(o, VDict):
            for p in o.pairs:
                if self.equal(p[0], k):
                    return p[1]
            raise PyExc(ExcVal('KeyError'))
        if isinstance(o, NTInst) and isinstance(k, int):
            return o.vals[k]
        if isinstance(o, (VList, tuple, str)):
            seq = o.items if isinstance(o, VList) else o
            if isinstance(k, (int, slice)):
                if isinstance(k, slice) and self.flat(k):
                    return self.derive('item', [o, k])
                try:
                    r = seq[k]
                except IndexError:
                    raise PyExc(ExcVal('IndexError'))
                return VList(r) if isinstance(o, VList) and isinstance(k, slice) else r
            return self.derive('item', [o, k])
        if isinstance(o, Tok) and isinstance(k, int):
            return self.getattr(o, ('keys', 'data')[k] if k in (0, 1) else 'item%s' % k, node)
        if isinstance(o, Opaque):
            return self.op_get(o, k, node)
        if isinstance(o, Inst):
            return self.call_method(o, '__getitem__', [k], {}, node)
        if o is None:
            raise PyExc(ExcVal('TypeError'))
        raise Unsupported('indexing %r' % (o,))

    def op_get(self, o, k, node):
        if self.nullness(o):
            raise PyExc(ExcVal('TypeError'))
        if isinstance(o, Stub) or o.roots:
            self.fallible('indexing %r' % o, node)
        r = self.derive('item', [o, k], tagname='%s[...]' % o.tag)
        r.base, r.key = o, k
        r.src = o.src
        return r

    # ---------------------------------------------------------------- iteration
    def to_list(self, v):
        if isinstance(v, (VList, VSet)):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, VDict):
            return [p[0] for p in v.pairs]
        if isinstance(v, NTInst):
            return list(v.vals)
        if isinstance(v, Iter):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, Gen):
            out = []
            fr = self.frames[-1]
            fr.tmp.append(out)
            self.iterate(v, out.append, None)
            fr.tmp.pop()
            return out
        if isinstance(v, Tok):
            return [self.getattr(v, 'keys', None), self.getattr(v, 'data', None)]
        if isinstance(v, str):
            return list(v)
        if v is None:
            raise PyExc(ExcVal('TypeError'))
        raise Unsupported('the elements of %r' % (v,))

    def iterate(self, it, body, node):
        if isinstance(it, VList):
            i = 0
            while i < len(it.items):
                body(it.items[i])
                i += 1
                if i > 200:
                    raise Unsupported('a growing list')
            return
        if isinstance(it, (tuple, VSet, VDict, NTInst, str)):
            for x in self.to_list(it):
                body(x)
            return
        if isinstance(it, Iter):
            while it.pos < len(it.items):
                it.pos += 1
                body(it.items[it.pos - 1])
            return
        if isinstance(it, Gen):
            if it.used:
                return
            it.used = True
            nf = len(self.frames)

            def on_item(v):
                try:
                    saved = self.frames[nf:]
                    del self.frames[nf:]
                    body(v)
                    self.frames.extend(saved)
                except (PyExc, _Break, _Return, _Continue) as e:
                    raise _GenClose(it, e)
            try:
                it.run(on_item)
            except _GenClose as c:
                del self.frames[nf:]
                if c.gen is not it:
                    raise
                raise c.inner
            return
        if isinstance(it, Opaque):
            return self.iterate_opaque(it, body, node)
        if isinstance(it, Inst):
            r = self.call_method(it, '__iter__', [], {}, node)
            return self.iterate(r, body, node)
        if isinstance(it, Queue):
            raise PyExc(ExcVal('TypeError'))
        raise Unsupported('iteration over %r' % (it,))

    def iterate_opaque(self, it, body, node):
        n = 0
        if self.mon is None:
            raise Unsupported('iteration over the unknown %s while wiring' % it.tag)
        while True:
            if node is not None:
                self.loop_head(node)
            n += 1
            if n > 60:
                raise Unsupported('the states of a loop do not repeat')
            self.fallible('the next item of %r' % it, node)
            item = self.mon.next_item(it)
            self.progress += 1
            if item is None:
                return
            body(item)

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, env, emit, elt):
        cenv = Env(env, env.mod)

        def level(i):
            if i == len(e.generators):
                emit(elt(cenv))
                return
            g = e.generators[i]
            it = self.ev(g.iter, env if i == 0 else cenv)

            def body(v):
                self.assign(g.target, v, cenv)
                if all(self.test(c, cenv) for c in g.ifs):
                    level(i + 1)
            self.iterate(it, body, None if isinstance(it, Opaque) else e)
        level(0)

    def opaque_comp(self, e, env):
        it = self.ev(e.generators[0].iter, env)
        if isinstance(it, Opaque) and not isinstance(it, Tok):
            return it
        return None

    def e_ListComp(self, e, env):
        it = self.opaque_comp(e, env) if len(e.generators) == 1 and \
            isinstance(e.generators[0].iter, (ast.Name, ast.Attribute)) else None
        if it is not None and self.mon is None:
            return self.derive('comp%d' % e.lineno, [it])
        out = VList([])
        fr = self.frames[-1]
        fr.tmp.append(out)
        n = len(fr.tmp)
        self.comp(e, env, out.items.append, lambda c: self.ev(e.elt, c))
        del fr.tmp[n - 1:]
        return out

    def e_SetComp(self, e, env):
        out = []
        self.comp(e, env, out.append, lambda c: self.ev(e.elt, c))
        return self.mkset(out)

    def e_DictComp(self, e, env):
        d = VDict()
        self.comp(e, env, lambda kv: self.setitem(d, kv[0], kv[1], e),
                  lambda c: (self.ev(e.key, c), self.ev(e.value, c)))
        return d

    def e_GeneratorExp(self, e, env):
        it = e.generators[0].iter
        first = self.ev(it, env)
        if isinstance(first, Opaque) and not isinstance(first, Tok) and self.mon is None:
            return self.derive('comp%d' % e.lineno, [first])

        def run(on_item):
            cenv = Env(env, env.mod)

            def level(i):
                if i == len(e.generators):
                    on_item(self.ev(e.elt, cenv))
                    return
                g = e.generators[i]

                def body(v):
                    self.assign(g.target, v, cenv)
                    if all(self.test(c, cenv) for c in g.ifs):
                        level(i + 1)
                self.iterate(first if i == 0 else self.ev(g.iter, cenv), body, None)
            level(0)
        return Gen(run, 'genexp')

    def e_Yield(self, e, env):
        on = None
        x = env
        while x is not None and on is None:
            on = x.vars.get('.yield')
            x = x.parent
        if on is None:
            raise Unsupported('yield')
        on(self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        on = env.vars.get('.yield')
        if on is None:
            raise Unsupported('yield from')
        self.iterate(self.ev(e.value, env), on, None)
        return None

    def e_Starred(self, e, env):
        raise Unsupported('a starred expression')

    # -------------------------------------------------------------------- calls
    def e_Call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and \
                self.lookup('super', env) == Ext('builtins.super'):
            if e.args:
                return Super(self.ev(e.args[0], env), self.ev(e.args[1], env))
            x = env
            while x is not None and '.class' not in x.vars:
                x = x.parent
            return Super(x.vars['.class'], x.vars['.self'])
        f = self.ev(fn, env)
        fr = self.frames[-1]
        args = []
        fr.tmp.append(args)
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, VDict):
                    raise Unsupported('**kwargs')
                for p in d.pairs:
                    kw[p[0]] = p[1]
            else:
                kw[k.arg] = self.ev(k.value, env)
        r = self.call(f, args, kw, e)
        if fr.tmp and fr.tmp[-1] is args:
            fr.tmp.pop()
        fr.node = e
        return r

    def interesting(self, v, depth=0):
        """Whether a value involves the engine's own objects."""
        if isinstance(v, (Inst, Queue, Thread, Tok, Gen, Func, Bound, ExcVal)):
            return True
        if isinstance(v, (Stub,)):
            return self.mon is None
        if isinstance(v, Opaque):
            return v.kind in ('handler', 'chunk', 'out')
        if isinstance(v, BuiltinMethod):
            return self.interesting(v.obj, depth + 1)
        if depth < 5:
            if isinstance(v, (tuple, VList, VSet)):
                return any(self.interesting(x, depth + 1) for x in self.to_list(v))
            if isinstance(v, NTInst):
                return True
            if isinstance(v, VDict):
                return True
        return False

    def call(self, f, args, kw, node):
        if isinstance(f, Bound):
            if f.func.cls is not None and isinstance(f.self_, Inst) and \
                    self.pkg.is_generator(f.func.node) and self.mon is not None and \
                    not self.interesting((tuple(args), tuple(kw.values()))) and False:
                pass
            return self.invoke(f.func, [f.self_] + list(args), kw, node, f.self_)
        if isinstance(f, Func):
            if not isinstance(f.node, ast.Lambda) and (f.env.parent is None) and \
                    not self.interesting(tuple(args) + tuple(kw.values())):
                return self.pure(f, args, kw, node)
            return self.invoke(f, list(args), kw, node, None)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, NTClass):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            for k, v in kw.items():
                vals[f.fields.index(k)] = v
            return NTInst(f, vals)
        if isinstance(f, BuiltinMethod):
            return self.call_method(f.obj, f.name, args, kw, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw, node)
        if isinstance(f, Opaque):
            return self.call_opaque(f, args, kw, node)
        if isinstance(f, Static):
            return self.call(f.f, args, kw, node)
        raise Unsupported('a call of %r' % (f,))

    def pure(self, f, args, kw, node):
        """A function of the package which isn't given anything of the engine's."""
        if self.inside is not None:
            v = self.inside(f, args, kw)
            return self.invoke(f, list(args), kw, node, None) if v is _MISSING else v
        if not self.pkg.is_generator(f.node):
            self.fallible('%s()' % f.name, node)
        r = self.derive('%s.%s' % (f.cls.name if f.cls else f.mod, f.name),
                        list(args) + [kw[k] for k in sorted(kw)], unique=self.mon is not None,
                        tagname='%s(...)' % f.name)
        r.call = ('%s.%s' % (f.cls.name if f.cls else f.mod, f.name),
                  tuple(args) + tuple(kw[k] for k in sorted(kw)), f)
        return r

    def instantiate(self, c, args, kw, node):
        for b in c.ext_bases():
            n = b.name.split('.')[-1]
            if n in ('Queue', 'LifoQueue', 'PriorityQueue', 'SimpleQueue', 'Enum'):
                raise Unsupported('a subclass of %s' % n)
        o = Inst(c)
        init = c.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw, node)
        elif any(b.name.endswith('Thread') for b in c.ext_bases()):
            self.call_method(o, '__init__', args, kw, node)
        return o

    def invoke(self, f, args, kw, node, self_):
        a = f.node.args
        env = Env(f.env, f.mod)
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        vals = dict(zip(names, args))
        extra = args[len(names):]
        if extra and a.vararg is None:
            raise PyExc(ExcVal('TypeError'))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        kwx = VDict()
        for k, v in kw.items():
            if k in names and k in vals:
                raise PyExc(ExcVal('TypeError'))
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None:
                kwx.pairs.append([k, v])
            else:
                raise PyExc(ExcVal('TypeError'))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kwx
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if n in [x.arg for x in a.kwonlyargs]:
                    vals[n] = None
                else:
                    raise PyExc(ExcVal('TypeError'))
        env.vars.update(vals)
        if f.cls is not None and names:
            env.vars['.class'] = f.cls
            env.vars['.self'] = vals[names[0]]
        name = (f.cls.name + '.' if f.cls else '') + f.name
        self.functions.add('%s.%s' % (f.mod, name))
        if isinstance(f.node, ast.Lambda):
            fr = Frame(env, name)
            fr.node = f.node
            self.frames.append(fr)
            nf = len(self.frames)
            r = self.ev(f.node.body, env)
            del self.frames[nf - 1:]
            return r
        if self.pkg.is_generator(f.node):
            def run(on_item):
                env.vars['.yield'] = on_item
                self.run_body(f, env, name)
            return Gen(run, name)
        return self.run_body(f, env, name)

    def run_body(self, f, env, name):
        fr = Frame(env, name)
        if len(self.frames) > 60:
            raise Unsupported('recursion')
        self.frames.append(fr)
        nf = len(self.frames)
        try:
            self.block(f.node.body, env)
        except _Return as r:
            del self.frames[nf - 1:]
            return r.v
        del self.frames[nf - 1:]
        return None

    # ------------------------------------------------------------ external calls
    def fallible(self, what, node):
        if self.inject is not None:
            self.inject(what, node)

    def call_opaque(self, f, args, kw, node):
        owner = getattr(f, 'owner', None)
        if owner is not None:
            return self.call_method(owner[0], owner[1], args, kw, node)
        self.fallible('calling %r' % f, node)
        vals = list(args) + list(kw.values())
        if self.mon is not None:
            self.mon.passed(f, '', vals, node)
        return self.derive('call', [f] + vals, unique=self.mon is not None)

    def effect(self, o, name, args, node):
        """Something opaque is changed or called with some values."""
        if self.mon is not None:
            self.mon.passed(o, name, args, node)
        while o is not None:
            for a in args:
                for x in self.flat(a):
                    for d in self.entity(x):
                        q = getattr(d, 'queue', None)
                        if q is not None:
                            o.facts.setdefault('stored', set()).add(q.qid)
            o = getattr(o, 'base', None)

    def call_ext(self, name, args, kw, node):
        last = name.split('.')[-1]
        mod = name[:-len(last) - 1]
        m = getattr(self, 'b_' + last, None) if mod == 'builtins' else None
        if m is not None:
            return m(args, kw, node)
        if mod == 'builtins' and last in EXC:
            return ExcVal(last)
        if last in ('Queue', 'LifoQueue', 'SimpleQueue', 'PriorityQueue') and 'queue' in mod.lower():
            mx = args[0] if args else kw.get('maxsize', 0)
            q = Queue(len(self.queues), mx, self.site(node))
            q.kind = last
            self.queues.append(q)
            return q
        if last == 'Thread' and 'thread' in mod.lower():
            t = Thread(len(self.threads), kw.get('target', args[1] if len(args) > 1 else None),
                       self.to_list(kw.get('args', ())), kw.get('kwargs'), self.site(node))
            if isinstance(kw.get('daemon'), bool):
                t.attrs['daemon'] = kw['daemon']
            self.threads.append(t)
            return t
        if last == 'namedtuple':
            fields = args[1]
            if isinstance(fields, str):
                fields = fields.replace(',', ' ').split()
            else:
                fields = self.to_list(fields)
            return NTClass(args[0], fields)
        if last in ('itervalues', 'iteritems', 'iterkeys') and isinstance(args[0], VDict):
            return self.call_method(args[0], last[4:], [], {}, node)
        if last in ('Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore', 'Event',
                    'Barrier', 'local') and 'thread' in mod:
            o = Opaque(last)
            o.kind = 'lock'
            return o
        if last == 'ndindex' and all(isinstance(a, int) for a in args):
            out = [()]
            for n in args:
                out = [x + (i,) for x in out for i in range(n)]
            return VList(out)
        if last in ('OrderedDict', 'defaultdict', 'WeakValueDictionary') and not args and \
                last != 'defaultdict':
            return VDict()
        if last in ('ThreadPoolExecutor', 'Pool', 'Process', 'Timer', 'deque', 'partial',
                    'SimpleNamespace', 'chain', 'from_iterable', 'ExitStack', 'suppress',
                    'closing', 'contextmanager', 'defaultdict', 'wait', 'reraise', 'exec',
                    'eval'):
            return self.special(name, last, args, kw, node)
        vals = list(args) + [kw[k] for k in sorted(kw)]
        if any(isinstance(v, (Inst, Queue, Thread, Gen, Func, Bound)) for v in vals):
            raise Unsupported('%s with the objects of the engine' % name)
        if mod != 'builtins':
            self.fallible('%s()' % name, node)
        r = self.derive(name, vals, unique=True, tagname='%s(...)' % last)
        if self.mon is not None:
            self.mon.passed(r, name, vals, node)
        r.made = (name, vals)
        if self.mon is not None:
            self.mon.made(r, node)
        return r

    def special(self, name, last, args, kw, node):
        if last in ('chain', 'from_iterable'):
            its = args if last == 'chain' else self.to_list(args[0])
            return VList([x for i in its for x in self.to_list(i)])
        if last == 'partial':
            f, pre, pk = args[0], list(args[1:]), dict(kw)
            o = Inst(_PARTIAL)
            o.attrs['f'] = f
            return BuiltinMethod(_Partial(f, pre, pk), '__call__')
        if last == 'deque':
            return VList(self.to_list(args[0]) if args else [])
        if last == 'reraise':
            raise PyExc(self.curexc[-1] if self.curexc else ExcVal('?Exception'))
        raise Unsupported(name)

    # builtins
    def b_len(self, args, kw, node):
        v = args[0]
        if isinstance(v, Opaque):
            return self.derive('len', [v])
        if isinstance(v, (tuple, str)):
            return len(v)
        return len(self.to_list(v))

    def b_range(self, args, kw, node):
        if all(isinstance(a, int) for a in args):
            return VList(range(*args))
        return self.derive('range', args)

    def seq(self, v, cls):
        if isinstance(v, Opaque) and not isinstance(v, Tok):
            if self.mon is not None and v.kind == 'keys':
                raise Unsupported('collecting the keys')
            return self.derive(cls, [v])
        return self.to_list(v)

    def b_list(self, args, kw, node):
        r = self.seq(args[0], 'list') if args else []
        return r if isinstance(r, Opaque) else VList(r)

    def b_tuple(self, args, kw, node):
        r = self.seq(args[0], 'tuple') if args else []
        return r if isinstance(r, Opaque) else tuple(r)

    def b_set(self, args, kw, node):
        r = self.seq(args[0], 'set') if args else []
        return r if isinstance(r, Opaque) else self.mkset(r)

    b_frozenset = b_set

    def b_dict(self, args, kw, node):
        d = VDict()
        if args:
            src = args[0]
            for p in (src.pairs if isinstance(src, VDict) else
                      [self.to_list(x) for x in self.to_list(src)]):
                self.setitem(d, p[0], p[1], node)
        for k, v in kw.items():
            d.pairs.append([k, v])
        return d

    def b_reversed(self, args, kw, node):
        r = self.seq(args[0], 'reversed')
        return r if isinstance(r, Opaque) else VList(r[::-1])

    def b_sorted(self, args, kw, node):
        r = self.seq(args[0], 'sorted')
        if isinstance(r, Opaque):
            return r
        if len(r) < 2:
            return VList(r)
        ks = r if kw.get('key') is None else [self.call(kw['key'], [x], {}, node) for x in r]

        def plain(k):
            return isinstance(k, (str, int, float)) or isinstance(k, tuple) and all(
                plain(x) for x in k)
        if not all(plain(k) for k in ks) or not isinstance(kw.get('reverse'),
                                                           (bool, type(None))):
            raise Unsupported('sorted')
        try:
            idx = sorted(range(len(r)), key=ks.__getitem__, reverse=bool(kw.get('reverse')))
        except TypeError:
            raise Unsupported('sorted')
        return VList([r[i] for i in idx])

    def b_enumerate(self, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        v = args[0]
        if isinstance(v, Opaque):
            return self.pairs_of(v)
        return VList([(i + start, x) for i, x in enumerate(self.to_list(v))])

    def pairs_of(self, v):
        def run(on_item):
            self.iterate(v, lambda x: on_item((Opaque('index'), x)), None)
        return Gen(run, 'enumerate')

    def b_zip(self, args, kw, node):
        if any(isinstance(a, Opaque) and not isinstance(a, Tok) for a in args):
            return self.derive('zip', args)
        if any(isinstance(a, Gen) for a in args):
            if len(args) > 1 and not all(isinstance(a, Gen) and a.what == 'genexp' or
                                         not isinstance(a, Gen) for a in args):
                raise Unsupported('zip with a generator')
        return VList([tuple(x) for x in zip(*[self.to_list(a) for a in args])])

    def b_map(self, args, kw, node):
        f, its = args[0], args[1:]
        if any(isinstance(a, Opaque) for a in its):
            return self.derive('map', list(its))
        rows = list(zip(*[self.to_list(i) for i in its]))

        def run(on_item):
            for r in rows:
                on_item(self.call(f, list(r), {}, node))
        return Gen(run, 'genexp')

    def b_filter(self, args, kw, node):
        f, it = args
        rows = self.to_list(it)

        def run(on_item):
            for r in rows:
                if self.truth(r if f is None else self.call(f, [r], {}, node)):
                    on_item(r)
        return Gen(run, 'genexp')

    def anyall(self, args, node, want):
        hit = []
        v = args[0]
        if isinstance(v, Opaque) and not isinstance(v, Tok):
            return self.derive('any' if want else 'all', [v])

        def body(x):
            if self.truth(x) == want:
                hit.append(1)
                raise _Break()
        try:
            self.iterate(v, body, node)
        except _Break:
            pass
        return want if hit else not want

    def b_any(self, args, kw, node):
        return self.anyall(args, node, True)

    def b_all(self, args, kw, node):
        return self.anyall(args, node, False)

    def b_sum(self, args, kw, node):
        if isinstance(args[0], Opaque):
            return self.derive('sum', args)
        t = args[1] if len(args) > 1 else 0
        for x in self.to_list(args[0]):
            t = self.binop(ast.Add(), t, x, node)
        return t

    def minmax(self, args, kw, f):
        vs = self.to_list(args[0]) if len(args) == 1 else args
        if all(isinstance(v, (int, float)) for v in vs) and vs:
            return f(vs)
        return self.derive('minmax', list(vs))

    def b_min(self, args, kw, node):
        return self.minmax(args, kw, min)

    def b_max(self, args, kw, node):
        return self.minmax(args, kw, max)

    def b_id(self, args, kw, node):
        v = args[0]
        self.keep.append(v)
        return ('id', id(v)) if not isinstance(v, Stub) else ('id', v.label)

    def b_hash(self, args, kw, node):
        return self.b_id(args, kw, node)

    def b_isinstance(self, args, kw, node):
        o, t = args
        ts = self.to_list(t) if isinstance(t, (tuple, VList)) else [t]
        res = False
        for t in ts:
            if isinstance(o, Inst):
                if isinstance(t, Class):
                    res = res or t in o.cls.mro()
                elif t == Ext('builtins.object'):
                    res = True
                else:
                    res = res or t in o.cls.ext_bases()
            elif isinstance(o, (NTInst, Tok)):
                if isinstance(t, NTClass):
                    res = True
                elif isinstance(t, Ext) and t.name.split('.')[-1] == 'tuple':
                    res = True
            elif isinstance(o, Opaque):
                if isinstance(t, NTClass) and o.kind == 'out':
                    res = res or not self.nullness(o)
                    continue
                key = t.name if isinstance(t, (Ext, Class, NTClass)) else '?'
                res = res or self.memo_choose(o, ('isinstance', key))
            elif isinstance(t, Ext) and t.name.startswith('builtins.'):
                n = t.name[9:]
                py = {'list': VList, 'dict': VDict, 'set': VSet, 'tuple': tuple, 'int': int,
                      'str': str, 'bool': bool, 'float': float, 'slice': slice}.get(n)
                if n == 'type':
                    res = res or isinstance(o, Class) or (isinstance(o, Ext) and
                                                          o.name[9:] in EXC)
                elif n in EXC and isinstance(o, ExcVal):
                    if o.cls.startswith('?'):
                        res = res or n in ('Exception', 'BaseException')[o.cls == '?Base':]
                    else:
                        res = res or issubclass(getattr(builtins, o.cls, Exception),
                                                getattr(builtins, n))
                elif py is not None:
                    res = res or isinstance(o, py)
            elif isinstance(t, Class) and isinstance(o, ExcVal):
                res = res or (o.user is not None and t in o.user.mro())
        return res

    def b_issubclass(self, args, kw, node):
        a, b = args
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name[9:] in EXC and b.name[9:] in EXC:
            return issubclass(getattr(builtins, a.name[9:]), getattr(builtins, b.name[9:]))
        if isinstance(a, Class):
            return b in a.mro() or b in a.ext_bases()
        raise Unsupported('issubclass')

    def b_hasattr(self, args, kw, node):
        o, name = args
        if isinstance(o, Stub):
            if name in ('streams_handler', 'sources'):
                return o.sources is not None
            if name in ('shape', 'dtype', 'ndim', 'ndarray', 'masked_array'):
                return True
            return self.memo_choose(o, ('hasattr', name))
        if isinstance(o, Opaque):
            if self.nullness(o):
                return False
            if o.kind == 'handler' and name == 'axis':
                return o.array.agg
            k = ('hasattr', name)
            key = Opaque('hasattr', ('hasattr', self.find(o.eq), name))
            if k not in o.facts:
                o.facts[k] = self.pair(key, Opaque('yes', ('const', True)))
            return o.facts[k]
        try:
            self.getattr(o, name, node)
            return True
        except PyExc:
            return False

    def b_getattr(self, args, kw, node):
        o, name = args[:2]
        if not isinstance(name, str):
            raise Unsupported('getattr')
        if len(args) > 2:
            if not self.truth(self.b_hasattr([o, name], {}, node)):
                return args[2]
        return self.getattr(o, name, node)

    def b_setattr(self, args, kw, node):
        self.setattr(args[0], args[1], args[2], node)

    def b_callable(self, args, kw, node):
        return isinstance(args[0], (Func, Bound, BuiltinMethod, Class, Ext))

    def b_iter(self, args, kw, node):
        if len(args) == 2:
            f, sent = args

            def run(on_item):
                n = 0
                while True:
                    if node is not None:
                        self.loop_head(node)
                    n += 1
                    if n > 60:
                        raise Unsupported('a loop whose states do not repeat')
                    v = self.call(f, [], {}, node)
                    if self.identical(v, sent) or self.equal(v, sent):
                        return
                    on_item(v)
            return Gen(run, 'iter')
        v = args[0]
        if isinstance(v, (Opaque, Gen, Iter)):
            return v
        return Iter(self.to_list(v))

    def b_next(self, args, kw, node):
        v = args[0]
        if isinstance(v, Iter):
            if v.pos < len(v.items):
                v.pos += 1
                return v.items[v.pos - 1]
            if len(args) > 1:
                return args[1]
            raise PyExc(ExcVal('StopIteration'))
        if isinstance(v, Gen) and v.what == 'genexp' and not v.used:
            box = []

            def body(x):
                box.append(x)
                raise _Break()
            try:
                self.iterate(v, body, node)
            except _Break:
                return box[0]
            if len(args) > 1:
                return args[1]
            raise PyExc(ExcVal('StopIteration'))
        if isinstance(v, Opaque) and self.mon is not None:
            self.fallible('the next item of %r' % v, node)
            item = self.mon.next_item(v)
            self.progress += 1
            if item is None:
                if len(args) > 1:
                    return args[1]
                raise PyExc(ExcVal('StopIteration'))
            return item
        raise Unsupported('next()')

    def b_str(self, args, kw, node):
        return 'text'

    def b_repr(self, args, kw, node):
        return 'text'

    def b_format(self, args, kw, node):
        return 'text'

    def b_print(self, args, kw, node):
        return None

    def b_object(self, args, kw, node):
        o = Opaque('object()')
        o.kind = 'sentinel'
        return o

    def b_type(self, args, kw, node):
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, NTInst):
            return v.cls
        return self.derive('type', [v])

    def b_bool(self, args, kw, node):
        return self.truth(args[0]) if args else False

    def b_int(self, args, kw, node):
        return args[0] if args and isinstance(args[0], int) else self.derive('int', args)

    def b_slice(self, args, kw, node):
        return slice(*args)

    # ------------------------------------------------------------ method calls
    def call_method(self, o, name, args, kw, node):
        if isinstance(o, Inst):
            f = o.cls.find(name)
            if f is not None:
                return self.call(self.bind(f, o, o.cls, node), args, kw, node)
            if any(b.name.endswith('Thread') for b in o.cls.ext_bases()):
                return self.thread_method(o, name, args, kw, node)
            raise Unsupported('the method %s' % name)
        if isinstance(o, _Partial):
            return self.call(o.f, o.pre + list(args), dict(o.kw, **kw), node)
        if isinstance(o, Super):
            if name == '__init__' or name.startswith('__'):
                if isinstance(o.obj, Inst) and any(b.name.endswith('Thread')
                                                   for b in o.obj.cls.ext_bases()):
                    return self.thread_method(o.obj, name, args, kw, node)
                return None
            raise Unsupported('super().%s' % name)
        if isinstance(o, Queue):
            return self.queue_method(o, name, args, kw, node)
        if isinstance(o, Thread):
            return self.thread_op(o, name, args, kw, node)
        if isinstance(o, VList):
            return self.list_method(o, name, args, kw, node)
        if isinstance(o, VDict):
            return self.dict_method(o, name, args, kw, node)
        if isinstance(o, VSet):
            return self.set_method(o, name, args, kw, node)
        if isinstance(o, str):
            return 'text' if name != 'split' else VList(['text'])
        if isinstance(o, tuple):
            if name == 'index':
                for i, x in enumerate(o):
                    if self.equal(x, args[0]):
                        return i
                raise PyExc(ExcVal('ValueError'))
            if name == 'count':
                return sum(1 for x in o if self.equal(x, args[0]))
        if isinstance(o, NTInst):
            if name == '_replace':
                v = list(o.vals)
                for k, x in kw.items():
                    v[o.cls.fields.index(k)] = x
                return NTInst(o.cls, v)
        if isinstance(o, ExcVal):
            return o if name == 'with_traceback' else Opaque('exception detail')
        if isinstance(o, Opaque):
            return self.op_method(o, name, args, kw, node)
        if isinstance(o, Gen) and name == 'close':
            return None
        raise Unsupported('the method %s of %r' % (name, o))

    def op_method(self, o, name, args, kw, node):
        if self.nullness(o):
            raise PyExc(ExcVal('AttributeError'))
        vals = list(args) + [kw[k] for k in sorted(kw)]
        if o.kind == 'lock':
            if name in ('wait', 'wait_for') or o.tag not in ('Lock', 'RLock'):
                raise Unsupported('%s.%s' % (o.tag, name))
            return True
        if any(isinstance(v, (Queue, Thread, Inst)) for v in vals):
            raise Unsupported('%s.%s with the objects of the engine' % (o.tag, name))
        if not (o.kind == 'chunk' or name.startswith('__')):
            self.fallible('%s.%s()' % (o.tag, name), node)
        if isinstance(o, Stub) and name == 'streams_handler':
            h = Opaque('handler of %s' % o.label, ('h', o.label) +
                       tuple(self.key_of(v) for v in vals), (o.label,))
            h.kind, h.array, h.args = 'handler', o, vals
            h.src = o.src
            return h
        if o.kind == 'handler' and self.mon is not None:
            return self.mon.handler_call(o, name, vals, node)
        self.effect_call(o, name, vals, node)
        r = self.derive('.' + name, [o] + vals, unique=self.mon is not None,
                        tagname='%s.%s()' % (o.tag, name))
        r.method = (o, name, vals)
        r.src = o.src or r.src
        if self.mon is not None:
            self.mon.made(r, node)
        return r

    def effect_call(self, o, name, vals, node):
        if self.mon is not None:
            self.mon.passed(o, name, vals, node)
            if name in ('__setitem__', 'put', 'itemset', 'fill'):
                self.effect(o, name, vals, node)

    def list_method(self, o, name, args, kw, node):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort',
                    '__delitem__', 'appendleft', 'popleft'):
            self.mutated(o)
        it = o.items
        if name == 'append':
            it.append(args[0])
            if len(it) > 40:
                raise Unsupported('a growing list')
        elif name == 'appendleft':
            it.insert(0, args[0])
        elif name == 'extend':
            it.extend(self.to_list(args[0]))
        elif name == 'insert':
            it.insert(args[0], args[1])
        elif name in ('pop', 'popleft'):
            if not it:
                raise PyExc(ExcVal('IndexError'))
            return it.pop(args[0] if args else 0 if name == 'popleft' else -1)
        elif name == '__delitem__':
            del it[args[0]]
        elif name == 'remove':
            for i, x in enumerate(it):
                if self.identical(x, args[0]) or self.equal(x, args[0]):
                    del it[i]
                    return None
            raise PyExc(ExcVal('ValueError'))
        elif name == 'clear':
            del it[:]
        elif name == 'reverse':
            it.reverse()
        elif name == 'sort':
            it[:] = self.b_sorted([VList(it)], kw, node).items
        elif name == 'copy':
            return VList(it)
        elif name in ('index', 'count'):
            hits = [i for i, x in enumerate(it) if self.equal(x, args[0])]
            if name == 'count':
                return len(hits)
            if not hits:
                raise PyExc(ExcVal('ValueError'))
            return hits[0]
        elif name == '__contains__':
            return any(self.equal(x, args[0]) for x in it)
        elif name == '__len__':
            return len(it)
        else:
            raise Unsupported('list.%s' % name)
        return None

    def dict_method(self, o, name, args, kw, node):
        if name == 'get':
            for p in o.pairs:
                if self.equal(p[0], args[0]):
                    return p[1]
            return args[1] if len(args) > 1 else None
        if name in ('values', 'itervalues'):
            return VList([p[1] for p in o.pairs])
        if name in ('keys', 'iterkeys'):
            return VList([p[0] for p in o.pairs])
        if name in ('items', 'iteritems'):
            return VList([(p[0], p[1]) for p in o.pairs])
        if name == 'copy':
            d = VDict()
            d.pairs = [list(p) for p in o.pairs]
            return d
        if name == 'setdefault':
            for p in o.pairs:
                if self.equal(p[0], args[0]):
                    return p[1]
            self.setitem(o, args[0], args[1] if len(args) > 1 else None, node)
            return args[1] if len(args) > 1 else None
        if name in ('pop', '__delitem__'):
            self.mutated(o)
            for i, p in enumerate(o.pairs):
                if self.equal(p[0], args[0]):
                    del o.pairs[i]
                    return p[1]
            if len(args) > 1:
                return args[1]
            raise PyExc(ExcVal('KeyError'))
        if name == 'update':
            for p in (args[0].pairs if isinstance(args[0], VDict) else
                      [self.to_list(x) for x in self.to_list(args[0])]):
                self.setitem(o, p[0], p[1], node)
            return None
        if name == 'clear':
            self.mutated(o)
            del o.pairs[:]
            return None
        if name in ('__contains__', 'has_key'):
            return any(self.equal(p[0], args[0]) for p in o.pairs)
        raise Unsupported('dict.%s' % name)

    def set_method(self, o, name, args, kw, node):
        self.mutated(o) if name in ('add', 'discard', 'remove', 'update', 'clear') else None
        if name == 'add':
            if not any(self.equal(x, args[0]) for x in o.items):
                o.items.append(args[0])
            return None
        if name in ('discard', 'remove'):
            for i, x in enumerate(o.items):
                if self.equal(x, args[0]):
                    del o.items[i]
                    return None
            if name == 'remove':
                raise PyExc(ExcVal('KeyError'))
            return None
        if name == 'update':
            for x in self.to_list(args[0]):
                self.set_method(o, 'add', [x], {}, node)
            return None
        if name == 'clear':
            del o.items[:]
            return None
        if name == 'copy':
            return VSet(o.items)
        if name in ('difference', 'union', 'intersection'):
            return self.binop({'difference': ast.Sub(), 'union': ast.BitOr(),
                               'intersection': ast.BitAnd()}[name], o,
                              VSet(self.to_list(args[0])), node)
        if name == '__contains__':
            return any(self.equal(x, args[0]) for x in o.items)
        if name == '__len__':
            return len(o.items)
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            other = VSet(self.to_list(args[0]))
            a, b = (other, o) if name == 'issuperset' else (o, other)
            inside = [any(self.equal(x, y) for y in b.items) for x in a.items]
            return not any(inside) if name == 'isdisjoint' else all(inside)
        raise Unsupported('set.%s' % name)

    # ------------------------------------------------------------ threads, queues
    def thread_method(self, o, name, args, kw, node):
        """A method of an instance of a subclass of threading.Thread."""
        t = o.attrs.get('.thread')
        if name == '__init__':
            t = Thread(len(self.threads), kw.get('target', args[1] if len(args) > 1 else None),
                       self.to_list(kw.get('args', ())), kw.get('kwargs'), self.site(node))
            o.attrs['.thread'] = t
            self.threads.append(t)
            return None
        if name == 'run':
            return self.call(t.target, list(t.args), {}, node) if t.target is not None else None
        if t is None:
            raise Unsupported('a thread which is not initialised')
        if name == 'start':
            run = o.cls.find('run')
            if run is not None:
                t.target, t.args = Bound(run, o), []
        return self.thread_op(t, name, args, kw, node)

    def thread_op(self, t, name, args, kw, node):
        if name == 'start':
            if self.mon is not None:
                raise Unsupported('a thread starts another one')
            t.started += 1
            t.start_site = self.site(node)
            self.order.append(('start', t))
            self.freeze(t)
            return None
        if name == 'join':
            if args or kw:
                to = args[0] if args else kw.get('timeout')
                if to is not None:
                    raise Unsupported('join with a timeout')
            if not t.started:
                raise PyExc(ExcVal('RuntimeError'))
            t.joined += 1
            if self.njoin is None:
                self.njoin = len(self.trace)
            self.order.append(('join', t))
            if self.on_join is not None:
                self.on_join(t)
            return None
        if name in ('setDaemon', 'setName'):
            return None
        if name in ('is_alive', 'isAlive'):
            if self.on_join is not None:
                self.on_join(t)
                return not t.ran
            return False
        raise Unsupported('Thread.%s' % name)

    def freeze(self, t):
        """Note what a started thread may be reading."""
        stack, seen = [t.target, tuple(t.args)], set()
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Bound):
                stack.append(v.self_)
            elif isinstance(v, Inst):
                self.frozen.setdefault(id(v), t)
                stack.extend(v.attrs.values())
            elif isinstance(v, (VList, VSet)):
                self.frozen.setdefault(id(v), t)
                stack.extend(v.items)
            elif isinstance(v, VDict):
                self.frozen.setdefault(id(v), t)
                stack.extend(x for p in v.pairs for x in p)
            elif isinstance(v, tuple):
                stack.extend(v)
            elif isinstance(v, _Partial):
                stack.extend([v.f] + v.pre)
            elif isinstance(v, BuiltinMethod):
                stack.append(v.obj)

    def queue_method(self, q, name, args, kw, node):
        if name in ('put', 'put_nowait'):
            block = name == 'put' and (len(args) < 2 or args[1] is True) and \
                kw.get('block', True) is True and kw.get('timeout') is None and len(args) < 3
            v = args[0] if args else kw.get('item')
            if self.mon is None:
                raise Unsupported('a put outside of the threads')
            self.mon.put(q, v, block, node)
            return None
        if name in ('get', 'get_nowait'):
            block = name == 'get' and (not args or args[0] is True) and \
                kw.get('block', True) is True and kw.get('timeout') is None and len(args) < 2
            if self.mon is None:
                raise Unsupported('a get outside of the threads')
            self.progress += 1
            return self.mon.get(q, block, node)
        if name == 'task_done':
            if self.mon is not None:
                if q.undone <= 0:
                    raise PyExc(ExcVal('ValueError'))
                q.undone -= 1
            return None
        if name in ('qsize', 'empty', 'full'):
            return Opaque(name)
        raise Unsupported('Queue.%s' % name)

    def report(self, rule, text):
        raise NotImplementedError

    # ------------------------------------------------------------ canonical state
    def canon(self, st):
        num, out = {}, []
        opaques = []

        def go(v, depth=0):
            if depth > 40:
                raise Unsupported('a deep state')
            if isinstance(v, (int, str, float, bytes, bool, type(None), type(Ellipsis))):
                out.append(v)
                return
            if isinstance(v, Ext):
                out.append(('x', v.name))
                return
            if id(v) in num and not isinstance(v, tuple):
                out.append(('#', num[id(v)]))
                return
            if not isinstance(v, tuple):
                num[id(v)] = len(num)
                self.keep.append(v)
            out.append(type(v).__name__)
            if isinstance(v, Opaque):
                opaques.append(v)
                out.append((v.tag, v.nonnull, v.truth, v.kind,
                            tuple(sorted(map(str, v.facts.items())))))
                out.append(self.mon.mark(v) if self.mon is not None else None)
                for k in sorted(v.attrs):
                    out.append(k)
                    go(v.attrs[k], depth + 1)
            elif isinstance(v, Inst):
                out.append(v.cls.name)
                for k in sorted(v.attrs):
                    out.append(k)
                    go(v.attrs[k], depth + 1)
            elif isinstance(v, (VList, VSet)):
                for x in v.items:
                    go(x, depth + 1)
            elif isinstance(v, VDict):
                for p in v.pairs:
                    go(p[0], depth + 1)
                    go(p[1], depth + 1)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    go(x, depth + 1)
            elif isinstance(v, NTInst):
                for x in v.vals:
                    go(x, depth + 1)
            elif isinstance(v, ExcVal):
                out.append((v.cls, v.injected, tuple(sorted(map(str, v.memo.items())))))
            elif isinstance(v, Queue):
                out.append((v.qid, min(v.undone, 3)))
            elif isinstance(v, Thread):
                out.append(v.tid)
            elif isinstance(v, Bound):
                go(v.self_, depth + 1)
                out.append(v.func.name)
            elif isinstance(v, Iter):
                out.append(v.pos)
                for x in v.items:
                    go(x, depth + 1)
            elif isinstance(v, BuiltinMethod):
                go(v.obj, depth + 1)
                out.append(v.name)
            elif isinstance(v, Env):
                for k in sorted(v.vars):
                    if k[0] != '.':
                        out.append(k)
                        go(v.vars[k], depth + 1)
            elif isinstance(v, Func):
                out.append(v.name)
                if v.env.parent is not None:
                    go(v.env, depth + 1)
            elif isinstance(v, Gen):
                out.append((v.what, v.used))
            elif isinstance(v, slice):
                for x in (v.start, v.stop, v.step):
                    go(x, depth + 1)
            out.append(')')
        out.append((getattr(st, 'lineno', 0), getattr(st, 'col_offset', 0)))
        for fr in self.frames:
            out.append((fr.name, getattr(fr.node, 'lineno', 0), getattr(fr.node, 'col_offset', 0)))
            go(fr.env)
            go(fr.tmp)
        for e in self.curexc:
            go(e)
        for name in sorted(self.genv):
            for k in sorted(self.genv[name].vars):
                v = self.genv[name].vars[k]
                if isinstance(v, (VList, VDict, VSet, Inst)):
                    go(v)
        if self.mon is not None:
            self.mon.canon(out, go)
        nn = {}
        for o in opaques:
            nn.setdefault(self.find(o.eq), num[id(o)])
        classes = tuple((num[id(o)], nn[self.find(o.eq)]) for o in opaques
                        if nn[self.find(o.eq)] != num[id(o)])
        out.append(classes)
        for n in self.neqs:
            ks = tuple(sorted(nn[self.find(z)] for z in n if self.find(z) in nn))
            if len(ks) == 2:
                out.append(ks)
        return hash(tuple(map(str, out))), len(out)


class _Partial(object):
    def __init__(self, f, pre, kw):
        self.f, self.pre, self.kw = f, pre, kw


class _P(object):
    name = 'partial'
_PARTIAL = Class(type('N', (), {'name': 'partial'})(), '', [], {})


def explore(make, run, limit=4000):
    """Run every path; run(machine) does one. Yields the machines."""
    prefix, seen, n = [], {}, 0
    while True:
        n += 1
        if n > limit:
            raise Unsupported('too many paths')
        m = make(prefix, seen, n)
        run(m)
        yield m
        tr = m.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]
