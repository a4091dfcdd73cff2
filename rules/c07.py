"""C07: every opened file is closed on every exit (typestate per function).

A small forward may-analysis over each function body: a token is created
where a file is opened, follows assignments, and must be gone (closed, handed
to a context manager, or transferred to the caller by return) at every exit,
exceptional exits included.  Functions that return an open file are treated
as openers at their call sites, methods that leave one on self as openers of
that attribute, and helpers that close a parameter or attribute as closers.
"""
import ast
from sa.project import Func, Cls, AnalysisBroken
from sa.util import short

OPENERS = {
    'open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open',
    'h5py.File', 'zipfile.ZipFile', 'tarfile.open', 'os.fdopen', 'os.popen',
    'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile',
    'tempfile.SpooledTemporaryFile', 'h5py._hl.files.File', 'tables.open_file',
    'sqlite3.connect', 'netCDF4.Dataset', 'numpy.memmap',
    'urllib.request.urlopen', 'xarray.open_dataset', 'pathlib.Path.open'}
WRAP = {'contextlib.closing'}
SAFE = {'contextlib.suppress', 'contextlib.ExitStack', 'contextlib.closing',
        'contextlib.nullcontext', 'isinstance', 'id', 'super'}


class Out:
    """Outcomes of a statement list: state (env, open) per way of leaving."""

    def __init__(self):
        self.normal = None
        self.exc = None
        self.ret = None
        self.brk = None
        self.cont = None

    def add(self, kind, st):
        setattr(self, kind, merge(getattr(self, kind), st))


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a[0])
    for k, v in b[0].items():
        env[k] = env.get(k, frozenset()) | v
    return env, a[1] | b[1], a[2] & b[2]


class Func07:
    def __init__(self, an, func):
        self.an = an
        self.f = func
        self.p = an.p
        self.ret_tokens = frozenset()
        self.enter = None

    # -- what a call does ------------------------------------------------
    def name(self, fn):
        if isinstance(fn, ast.Name) and fn.id in self.nested:
            return None
        d = None
        if self.limports:
            head = fn
            while isinstance(head, ast.Attribute):
                head = head.value
            if isinstance(head, ast.Name) and head.id in self.limports:
                d = self.p.canonical(self.limports[head.id]
                                     + ast.unparse(fn)[len(head.id):])
        d = d or self.p.dotted(self.f.module, fn)
        if d is None and isinstance(fn, ast.Name):
            return fn.id
        return d

    def path(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.path(e.value)
            return None if b is None else b + '.' + e.attr
        return None

    def callee(self, call):
        """Repository function a call resolves to."""
        fn = call.func
        d = self.name(fn)
        t = self.p.lookup(d) if d else None
        if isinstance(t, (Func, Cls)):
            return t
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(
                    fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                    and self.f.cls is not None:
                for c in self.p.mro(self.f.cls)[1:]:
                    if fn.attr in c.methods:
                        return c.methods[fn.attr]
                return None
            p = self.path(fn.value)
            if p == 'self' and self.f.cls is not None:
                return self.p.method(self.f.cls, fn.attr)
            c = self.types.get(p)
            if c is not None:
                return self.p.method(c, fn.attr)
        return None

    def is_super_init(self, call):
        fn = call.func
        return isinstance(fn, ast.Attribute) and fn.attr == '__init__' and (
            (isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == 'super')
            or self.p.dotted(self.f.module, fn.value) in OPENERS)

    def opens(self, call):
        """'' / attribute suffix when the call opens something, else None."""
        d = self.name(call.func)
        if d in OPENERS:
            return ['']
        t = self.callee(call)
        if isinstance(t, Cls):
            if self.an.is_file_class(t):
                return ['']
            return None
        if isinstance(t, Func):
            s = self.an.summary(t)
            out = []
            if s.ret_tokens:
                out.append('')
            return out or None
        if isinstance(call.func, ast.Attribute):
            if call.func.attr == 'open' and not isinstance(
                    call.func.value, (ast.Name, ast.Attribute)):
                return ['']
        return None

    # -- expression scan ---------------------------------------------------
    def risky(self, node):
        """May evaluating this raise?"""
        for n in walk_now(node):
            if isinstance(n, ast.Call) and self.name(n.func) in SAFE:
                continue
            if isinstance(n, ast.Attribute) and not isinstance(
                    n.value, ast.Name):
                return True
            if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp,
                              ast.Raise, ast.Assert, ast.Await,
                              ast.Yield, ast.YieldFrom, ast.ListComp,
                              ast.DictComp, ast.SetComp)):
                return True
            if isinstance(n, ast.Compare) and not all(
                    isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                return True
        return False

    def tokens_of(self, e, st):
        """Tokens an expression denotes (opened earlier or right here)."""
        env, opn, cl = st
        if e is None:
            return frozenset()
        if isinstance(e, (ast.Name, ast.Attribute)):
            p = self.path(e)
            return env.get(p, frozenset()) if p else frozenset()
        if isinstance(e, ast.IfExp):
            return self.tokens_of(e.body, st) | self.tokens_of(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for v in e.values:
                out |= self.tokens_of(v, st)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.tokens_of(e.value, st)
        if isinstance(e, ast.Await):
            return self.tokens_of(e.value, st)
        if isinstance(e, ast.Call):
            d = self.name(e.func)
            if d in WRAP and e.args:
                return self.tokens_of(e.args[0], st)
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'enter_context',) and e.args:
                return frozenset()
            if self.opens(e):
                return frozenset([self.tok(e)])
            if self.enter_call(e):
                p = self.path(e.func.value)
                if p is not None:
                    return env.get(p, frozenset())
                if self.enters(e):
                    return frozenset([self.tok(e)])
        return frozenset()

    def enters(self, n):
        """X(...).__enter__() of a class that opens on entering."""
        v = n.func.value
        t = self.callee(v) if isinstance(v, ast.Call) else None
        return isinstance(t, Cls) and self.an.enter_opens(t)

    def tok(self, call):
        self.an.note(self.f, call)
        return (id(call), self.f.qual)

    def effects(self, node, st, wrapped=()):
        """State after evaluating the expressions of a simple statement."""
        env, opn, cl = dict(st[0]), st[1], st[2]
        for n in sorted((x for x in walk_now(node) if isinstance(
                x, ast.Call)), key=lambda c: -depth(node, c)):
            fn = n.func
            if self.is_super_init(n) and self.f.cls is not None and \
                    self.an.is_file_class(self.f.cls):
                t = self.tok(n)
                env['self'] = frozenset([t])
                opn = opn | {t}
                continue
            if isinstance(fn, ast.Attribute):
                p = self.path(fn.value)
                if fn.attr == 'close' or fn.attr == '__exit__':
                    tk = self.tokens_of(fn.value, (env, opn, cl))
                    if isinstance(fn.value, ast.Call) and isinstance(
                            fn.value.func, ast.Name) and \
                            fn.value.func.id == 'super':
                        tk, p = env.get('self', frozenset()), 'self'
                    opn = opn - tk
                    cl = cl | {p}
                if fn.attr in ('callback', 'push') and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Attribute) and a.attr == 'close':
                        a = a.value
                    opn = opn - self.tokens_of(a, (env, opn, cl))
                if fn.attr == 'enter_context' and n.args:
                    opn = opn - self.tokens_of(n.args[0], (env, opn, cl))
                if fn.attr == '__enter__':
                    c = self.types.get(p)
                    if c is not None and self.an.enter_opens(c):
                        t = self.tok(n)
                        env[p] = frozenset([t])
                        opn = opn | {t}
                    elif p is None and self.enters(n):
                        opn = opn | {self.tok(n)}
            t = self.callee(n)
            if isinstance(t, Func) and t is not self.f and not (
                    isinstance(fn, ast.Attribute)
                    and fn.attr in ('close', '__enter__')):
                s = self.an.summary(t)
                pars = [x if isinstance(x, str) else x.arg for x in t.params]
                bind = {}
                args = list(n.args)
                if t.cls is not None and not t.is_static and isinstance(
                        fn, ast.Attribute):
                    args = [fn.value] + args
                for a, b in zip(pars, args):
                    bind[a] = b
                for k in n.keywords:
                    if k.arg:
                        bind[k.arg] = k.value
                for c in s.closes:
                    head, _, rest = (c or '').partition('.')
                    b = bind.get(head)
                    bp = self.path(b) if b is not None else None
                    if b is None:
                        continue
                    q = bp + ('.' + rest if rest else '') if bp else None
                    if q:
                        opn = opn - env.get(q, frozenset())
                        cl = cl | {q}
                        for k in list(env):
                            pass
                    elif not rest:
                        opn = opn - self.tokens_of(b, (env, opn, cl))
                for attr in s.self_opens:
                    b = bind.get(pars[0]) if pars else None
                    bp = self.path(b) if b is not None else None
                    if bp:
                        tk = self.tok(n)
                        env[bp + '.' + attr] = frozenset([tk])
                        opn = opn | {tk}
            if self.opens(n) and n not in wrapped:
                tk = self.tok(n)
                opn = opn | {tk}
        for n in walk_now(node):
            if isinstance(n, ast.NamedExpr):
                tk = self.tokens_of(n.value, (env, opn, cl))
                if tk:
                    env[n.target.id] = tk
        return env, opn, cl

    # -- statements ------------------------------------------------------
    def block(self, body, st):
        out = Out()
        cur = st
        for s in body:
            if cur is None:
                break
            o = self.stmt(s, cur)
            for k in ('exc', 'ret', 'brk', 'cont'):
                out.add(k, getattr(o, k))
            cur = o.normal
        out.normal = cur
        return out

    def simple(self, s, st):
        out = Out()
        new = self.effects(s, st)
        if self.risky(s):
            # opened and not yet bound: an opener that raises opened
            # nothing; closing calls count as done
            calls = [n for n in walk_now(s) if isinstance(n, ast.Call)]
            opened = new[1] - st[1]
            gone = (st[0], st[1] & new[1], st[2])
            if opened and len(calls) > 1:
                top = None
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return,
                                  ast.Expr)):
                    top = s.value
                while isinstance(top, ast.IfExp):
                    top = top.body if has_call(top.body, self) else \
                        top.orelse
                if isinstance(top, ast.Call) and (
                        self.opens(top) or self.is_super_init(top)
                        or self.enter_call(top)):
                    inner = frozenset(
                        self.tok(c) for c in calls
                        if c is not top and self.opens(c))
                    out.add('exc', merge(gone, (new[0], st[1] & new[1]
                                                | (inner & new[1]),
                                                st[2])))
                else:
                    out.add('exc', merge(gone, new))
            else:
                out.add('exc', gone)
        out.normal = new
        return out

    def enter_call(self, n):
        return isinstance(n.func, ast.Attribute) and \
            n.func.attr == '__enter__'

    def bind(self, target, value, st):
        env, opn, cl = st
        env = dict(env)
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                    value.elts) == len(target.elts):
                for a, b in zip(target.elts, value.elts):
                    st = self.bind(a, b, st)
                return st
            return st
        p = self.path(target)
        if p is None:
            return st
        tk = self.tokens_of(value, st)
        if tk:
            env[p] = tk
        else:
            env.pop(p, None)
        c = None
        for v in ([value.body, value.orelse] if isinstance(value, ast.IfExp)
                  else [value]):
            if isinstance(v, ast.Call):
                t = self.callee(v)
                if isinstance(t, Cls):
                    c = t
                elif isinstance(t, Func):
                    c = self.an.ret_class(t)
        if c is not None:
            self.types[p] = c
        return env, opn, cl

    def stmt(self, s, st):
        out = Out()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass,
                          ast.Import, ast.ImportFrom, ast.Global,
                          ast.Nonlocal, ast.AsyncFunctionDef)):
            out.normal = st
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                out.normal = st
                return out
            out = self.simple(s, st)
            new = out.normal
            for t in (s.targets if isinstance(s, ast.Assign)
                      else [s.target]):
                new = self.bind(t, s.value, new)
            out.normal = new
            return out
        if isinstance(s, ast.Return):
            out = self.simple(s, st)
            new = out.normal
            out.normal = None
            tk = self.tokens_of(s.value, new)
            if isinstance(s.value, ast.Tuple):
                for e in s.value.elts:
                    tk |= self.tokens_of(e, new)
            self.ret_tokens |= tk & new[1]
            out.add('ret', (new[0], new[1] - tk, new[2]))
            return out
        if isinstance(s, ast.Raise):
            out = self.simple(s, st)
            out.add('exc', out.normal)
            out.normal = None
            return out
        if isinstance(s, ast.Break):
            out.brk = st
            return out
        if isinstance(s, ast.Continue):
            out.cont = st
            return out
        if isinstance(s, ast.If):
            o = self.simple(ast.Expr(s.test), st)
            out.add('exc', o.exc)
            a, b = o.normal, o.normal
            a, b = self.refine(s.test, a, True), self.refine(
                s.test, b, False)
            for body, x in ((s.body, a), (s.orelse, b)):
                o = self.block(body, x)
                for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
                    out.add(k, getattr(o, k))
            return out
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            hd = s.iter if not isinstance(s, ast.While) else s.test
            o = self.simple(ast.Expr(hd), st)
            out.add('exc', o.exc)
            cur = o.normal
            if not isinstance(s, ast.While):
                # the iterator itself may raise in every round
                out.add('exc', cur)
            brk = None
            for _ in range(3):
                o = self.block(s.body, cur)
                for k in ('exc', 'ret'):
                    out.add(k, getattr(o, k))
                brk = merge(brk, o.brk)
                nxt = merge(merge(cur, o.normal), o.cont)
                if not isinstance(s, ast.While):
                    out.add('exc', nxt)
                if nxt == cur:
                    break
                cur = nxt
            inf = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value
            end = None if inf else cur
            if s.orelse and end is not None:
                o = self.block(s.orelse, end)
                for k in ('exc', 'ret', 'brk', 'cont'):
                    out.add(k, getattr(o, k))
                end = o.normal
            out.normal = merge(end, brk)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.s_with(s, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            return self.s_try(s, st)
        if isinstance(s, ast.Delete):
            out = self.simple(s, st)
            return out
        if isinstance(s, ast.Match):
            o = self.simple(ast.Expr(s.subject), st)
            out.add('exc', o.exc)
            out.add('normal', o.normal)
            for c in s.cases:
                b = self.block(c.body, o.normal)
                for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
                    out.add(k, getattr(b, k))
            return out
        return self.simple(s, st)

    def refine(self, test, st, pol):
        """Names known to be None/closed in a branch hold nothing open."""
        if st is None:
            return st
        t, pos = test, pol
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, pos = t.operand, not pos
        p = None
        if isinstance(t, (ast.Name, ast.Attribute)):
            p = self.path(t)
            if isinstance(t, ast.Attribute) and t.attr == 'closed' and pos:
                p, pos = self.path(t.value), False
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None:
            p = self.path(t.left)
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                pos = not pos
        if p is None or pos:
            return st
        tk = st[0].get(p)
        if not tk:
            return st
        return st[0], st[1] - tk, st[2] | {p}

    def s_with(self, s, st):
        out = Out()
        cur = st
        held = []
        suppress = False
        for it in s.items:
            e = it.context_expr
            tk = self.tokens_of(e, cur)
            if isinstance(e, ast.Call) and self.name(e.func) in (
                    'contextlib.suppress', 'contextlib.ExitStack'):
                suppress = suppress or self.name(
                    e.func) == 'contextlib.suppress'
            o = self.simple(ast.Expr(e), cur)
            new = o.normal
            # anything opened while building the manager but not being it
            out.add('exc', (o.exc[0], o.exc[1] - tk, o.exc[2])
                    if o.exc else None)
            new = (new[0], new[1] - tk, new[2])
            held.append((self.path(e), tk))
            t = self.callee(e) if isinstance(e, ast.Call) else None
            if isinstance(t, Cls) and self.an.enter_opens(t):
                self.an.note(self.f, e)
            cur = new
            if it.optional_vars is not None:
                p = self.path(it.optional_vars)
                if p:
                    env = dict(cur[0])
                    env.pop(p, None)
                    cur = (env, cur[1], cur[2])
        o = self.block(s.body, cur)
        done = frozenset(p for p, tk in held if p)
        for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
            x = getattr(o, k)
            if x is not None:
                x = (x[0], x[1], x[2] | done)
            out.add(k, x)
        if suppress:
            out.add('normal', o.exc)
        return out

    def s_try(self, s, st):
        out = Out()
        o = self.block(s.body, st)
        exc = o.exc
        res = Out()
        for k in ('ret', 'brk', 'cont'):
            res.add(k, getattr(o, k))
        if o.normal is not None:
            e = self.block(s.orelse, o.normal)
            for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
                res.add(k, getattr(e, k))
        caught_all = False
        for h in s.handlers:
            types = []
            if h.type is None:
                caught_all = True
            else:
                types = [ast.unparse(x).split('.')[-1] for x in (
                    h.type.elts if isinstance(h.type, ast.Tuple)
                    else [h.type])]
                if 'BaseException' in types or 'Exception' in types:
                    caught_all = True
            if exc is not None:
                e = self.block(h.body, exc)
                for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
                    res.add(k, getattr(e, k))
        if exc is not None and not caught_all:
            res.add('exc', exc)
        if not s.finalbody:
            return res
        for k in ('normal', 'exc', 'ret', 'brk', 'cont'):
            x = getattr(res, k)
            if x is None:
                continue
            e = self.block(s.finalbody, x)
            out.add(k, e.normal)
            for kk in ('exc', 'ret', 'brk', 'cont'):
                out.add(kk, getattr(e, kk))
        return out

    def go(self, init=None):
        self.types = {}
        self.nested = {n.name for n in ast.walk(self.f.node) if isinstance(
            n, ast.FunctionDef) and n is not self.f.node}
        self.limports = {}
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.limports[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.limports[a.asname or a.name] = '%s.%s' % (
                        n.module, a.name)
        st = (dict(init or {}), frozenset(
            t for v in (init or {}).values() for t in v), frozenset())
        if self.f.cls is not None:
            for k, c in self.an.attr_types(self.f.cls).items():
                self.types['self.' + k] = c
        o = self.block(self.f.node.body, st)
        end = merge(o.normal, o.ret)
        self.end, self.exc = end, o.exc
        self.closes = frozenset(c for c in (end[2] if end else ()) if c)
        self.self_opens = {}
        if end is not None:
            for k, v in end[0].items():
                if k.startswith('self.') and v & (end[1] | self.ret_tokens):
                    self.self_opens[k[5:]] = v & (
                        end[1] | self.ret_tokens)
        return self


def has_call(e, f):
    return any(isinstance(n, ast.Call) and f.opens(n) for n in ast.walk(e))


def walk_now(node):
    """Nodes evaluated now (not inside nested functions)."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(c, ast.Lambda):
                continue
            todo.append(c)


def depth(root, node):
    """Depth of node (arguments are evaluated before the call itself)."""
    cache = getattr(root, '_depths', None)
    if cache is None:
        cache = {}

        def go(n, d):
            cache[id(n)] = d
            for c in ast.iter_child_nodes(n):
                go(c, d + 1)
        go(root, 0)
        try:
            root._depths = cache
        except AttributeError:
            pass
    return cache.get(id(node), 0)


class Analysis:
    def __init__(self, p):
        self.p = p
        self.sums = {}
        self.sites = {}
        self.active = set()
        self._at = {}

    def note(self, func, call):
        self.sites[(id(call), func.qual)] = (func, call)

    def is_file_class(self, cls):
        return any(b in OPENERS for b in self.p.external_bases(cls))

    def attr_types(self, cls):
        if cls.qual in self._at:
            return self._at[cls.qual]
        out = self._at[cls.qual] = {}
        for c in self.p.mro(cls):
            for m in c.methods.values():
                loc = {}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and isinstance(
                            n.value, ast.Call) and isinstance(
                            n.targets[0], ast.Name):
                        loc[n.targets[0].id] = n.value
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and isinstance(
                            n.value, (ast.Call, ast.Name)):
                        v = n.value
                        if isinstance(v, ast.Name):
                            v = loc.get(v.id)
                        if v is None:
                            continue
                        d = self.p.dotted(m.module, v.func)
                        t = self.p.lookup(d) if d else None
                        for x in n.targets:
                            if isinstance(t, Cls) and isinstance(
                                    x, ast.Attribute) and isinstance(
                                    x.value, ast.Name) and \
                                    x.value.id == 'self':
                                out[x.attr] = t
        return out

    def ret_class(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                d = self.p.dotted(f.module, n.value.func)
                t = self.p.lookup(d) if d else None
                if isinstance(t, Cls):
                    return t
        return None

    def enter_opens(self, cls):
        m = self.p.method(cls, '__enter__')
        if m is None:
            return False
        s = self.summary(m)
        return bool(s.self_opens or s.ret_tokens)

    def summary(self, f):
        if f.qual in self.sums:
            return self.sums[f.qual]
        s = Func07(self, f)
        s.closes, s.self_opens = frozenset(), {}
        s.end = s.exc = None
        if f.qual in self.active:
            return s
        self.active.add(f.qual)
        try:
            s.go()
        finally:
            self.active.discard(f.qual)
        self.sums[f.qual] = s
        return s


def run(ctx):
    p = ctx.p
    an = Analysis(p)
    ctx.rule('closed', 'an opened file is closed, managed by a with '
             'statement or handed to the caller at every exit')
    ctx.rule('exit', 'leaving the context closes what entering opened, on '
             'every path, and does not swallow the exception')
    for f in p.all_funcs():
        an.summary(f)
        ctx.funcs.add(f.qual)
    bad = {}
    for s in list(an.sums.values()):
        enters = s.f.name == '__enter__'
        for st, how in ((s.end, 'a normal exit'), (s.exc, 'an exception')):
            if st is None:
                continue
            left = st[1]
            if how == 'a normal exit':
                kept = frozenset()
                for v in s.self_opens.values():
                    kept |= v
                if s.f.cls is not None and s.f.name == '__init__' and \
                        an.is_file_class(s.f.cls):
                    kept |= st[0].get('self', frozenset())
                owner = s.f.cls is not None and (
                    enters or p.method(s.f.cls, '__exit__') is not None
                    or an.is_file_class(s.f.cls))
                if owner:
                    left = left - kept
            for t in left:
                bad.setdefault(t, how)
    # module level code
    for m in p.modules.values():
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            for c in walk_now(n):
                if isinstance(c, ast.Call) and (p.dotted(
                        m, c.func) in OPENERS or (isinstance(
                            c.func, ast.Name) and c.func.id in OPENERS)):
                    ok = isinstance(n, ast.With)
                    ctx.ob('closed', '%s -> %s' % (m.name, ast.unparse(
                        c.func)), ok, 'a file opened while importing the '
                        'module is not managed',
                        '%s:%d' % (m.relpath, c.lineno))
    # lambdas and default values that open files
    num = {}
    for tok, (f, call) in sorted(an.sites.items(), key=lambda x: (
            x[1][0].qual, x[1][1].lineno, x[1][1].col_offset)):
        name = '%s -> %s' % (short(f.qual), ast.unparse(call.func))
        num[name] = num.get(name, 0) + 1
        ctx.ob('closed', '%s%s' % (
            name, ' #%d' % num[name] if num[name] > 1 else ''), tok not in bad,
            'left open at %s' % bad.get(tok), f.where(call))
    n = 0
    for mod in p.modules.values():
        for cls in mod.classes.values():
            ent = cls.methods.get('__enter__')
            if ent is None:
                continue
            s = an.summary(ent)
            ext = p.method(cls, '__exit__')
            if s.self_opens or s.ret_tokens:
                n += 1
            for attr, tk in s.self_opens.items():
                ok, why = False, 'the class has no __exit__'
                if ext is not None:
                    x = Func07(an, ext).go({'self.' + attr: tk})
                    left = set()
                    for st in (x.end, x.exc):
                        if st is not None:
                            left |= st[1] & tk
                    ok, why = not left, 'a path through __exit__ does ' \
                        'not close self.%s' % attr
                ctx.ob('exit', '%s -> %s' % (short(cls.qual), attr), ok,
                       why, (ext or ent).where())
            if ext is not None:
                ok, why, node = swallow(an, ext)
                ctx.ob('exit', '%s -> exceptions' % short(ext.qual), ok, why,
                       ext.where(node) if node is not None else ext.where())
    if n == 0:
        # is the database still a context manager?
        raise AnalysisBroken('no context manager that opens a file found')
    ctx.atleast('closed', 3)


def swallow(an, ext):
    for n in walk_now(ext.node):
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Constant) and not v.value:
                continue
            if isinstance(v, ast.Call):
                f = Func07(an, ext)
                f.nested, f.types, f.limports = set(), {}, {}
                for k, c in an.attr_types(ext.cls).items():
                    f.types['self.' + k] = c
                t = f.callee(v)
                if isinstance(t, Func) and not any(
                        isinstance(x, ast.Return) and x.value is not None
                        and not (isinstance(x.value, ast.Constant)
                                 and not x.value.value)
                        for x in walk_now(t.node)):
                    continue
            if isinstance(v, ast.Compare) and ast.unparse(v) in (
                    'exc_type is None', 'exc_value is None'):
                continue
            return False, 'may return a true value: %s' % ast.unparse(
                v), n
    return True, '', None
