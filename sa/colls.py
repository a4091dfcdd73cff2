"""Provenance of values taken from collections of traces.

A small abstract interpreter over the syntax tree of one function (helpers of
the same module are followed).  It tracks which selection of a stream a value
comes from, in which order the stream is at that moment, and which elements
enter lists; branches on unknown conditions are followed separately.
"""
import ast
import copy

LIM = 400


class Coll:
    def __init__(self, root, filters=frozenset(), order=None):
        self.root, self.filters, self.order = root, filters, order
        # (position, order) of entries -> selections made by their values:
        # these entries are in the selection
        self.sat = {}

    def within(self, v):
        return self.filters | self.sat.get((v[2], v[3]), frozenset())


class Lst:
    def __init__(self):
        self.items = []          # abstract values

    def kinds(self):
        return self.items


class Hdr:
    def __init__(self, base):
        self.base = base
        self.over = {}


class Rec:
    """A call whose arguments are kept."""
    def __init__(self, name, args, kw, node):
        self.name, self.args, self.kw, self.node = name, args, kw, node


class Run:
    def __init__(self, mod, depth=3):
        self.mod = mod
        self.depth = depth
        self.returns = []
        self.calls = []
        self.steps = 0

    # values: ('coll', Coll) ('elem', Coll, pos, order) ('path', elem, names)
    # ('list', Lst) ('hdr', Hdr) ('agg', fn, value) ('op', name, [values])
    # ('const', v) ('param', name) None
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            if v is None:
                return None
            if v[0] == 'elem':
                return ('path', v, (e.attr,))
            if v[0] == 'path':
                return ('path', v[1], v[2] + (e.attr,))
            if v[0] == 'hdr':
                return v[1].over.get(e.attr) or (
                    'path', v[1].base, ('stats', e.attr))
            if v[0] == 'op' or v[0] == 'list':
                return v if e.attr == 'T' else ('op', '.' + e.attr, [v])
            return ('attr', v, e.attr)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            if v is None:
                return None
            k = self.ev(e.slice, env) if not isinstance(
                e.slice, ast.Slice) else None
            if v[0] == 'coll':
                if isinstance(e.slice, ast.Slice):
                    return ('coll', Coll(v[1].root, v[1].filters |
                                         {'slice'}, v[1].order))
                n = neg(e.slice)
                pos = 'first' if n == 0 else 'last' if n == -1 else 'some'
                return ('elem', v[1], pos, v[1].order)
            if k is not None and k[0] == 'const':
                if v[0] == 'path':
                    return ('path', v[1], v[2] + (k[1],))
                if v[0] == 'hdr':
                    return v[1].over.get(k[1]) or (
                        'path', v[1].base, ('stats', k[1]))
            n = neg(e.slice)
            if v[0] == 'sorted' and n in (0, -1):
                return ('agg', 'min' if (n == 0) != v[2] else 'max', v[1])
            return ('op', 'item', [v, k])
        if isinstance(e, ast.UnaryOp):
            return ('op', type(e.op).__name__, [self.ev(e.operand, env)])
        if isinstance(e, ast.BinOp):
            return ('op', type(e.op).__name__,
                    [self.ev(e.left, env), self.ev(e.right, env)])
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            return ('op', 'cond', [self.ev(x, env) for x in
                                   ast.iter_child_nodes(e)
                                   if isinstance(x, ast.expr)])
        if isinstance(e, ast.IfExp):
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if a == b else ('op', 'ifexp', [a, b])
        if isinstance(e, (ast.List, ast.Tuple)):
            lst = Lst()
            lst.items = [self.ev(x, env) for x in e.elts]
            return ('list', lst)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(e, env)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        return None

    def comp(self, e, env):
        env = dict(env)
        only = None
        for g in e.generators:
            v = self.bind(g.target, g.iter, env)
            for c in g.ifs:
                self.refine(c, env, True)
            only = v
        r = self.ev(e.elt, env)
        if r is not None and r[0] == 'elem' and r[2] == 'any' and \
                only is not None:
            return ('coll', Coll(r[1].root, r[1].filters, r[1].order))
        lst = Lst()
        lst.items = [r]
        return ('list', lst)

    def bind(self, target, it, env):
        v = self.ev(it, env)
        if v is not None and v[0] == 'enum':
            if isinstance(target, ast.Tuple) and len(target.elts) == 2:
                if isinstance(target.elts[0], ast.Name):
                    env[target.elts[0].id] = ('index', v[1])
                target, v = target.elts[1], v[1]
        if isinstance(target, ast.Name):
            if v is not None and v[0] == 'coll':
                c = Coll(v[1].root, v[1].filters, v[1].order)
                env[target.id] = ('elem', c, 'any', v[1].order)
            elif v is not None and v[0] == 'list' and v[1].items:
                env[target.id] = v[1].items[0]
            else:
                env[target.id] = ('op', 'elem', [v])
        elif isinstance(target, ast.Tuple):
            if v is not None and v[0] == 'zip':
                for t, x in zip(target.elts, v[1]):
                    if isinstance(t, ast.Name):
                        if x is not None and x[0] == 'coll':
                            env[t.id] = ('elem', Coll(
                                x[1].root, x[1].filters, x[1].order),
                                'any', x[1].order)
                        elif x is not None and x[0] == 'list' and \
                                x[1].items:
                            env[t.id] = x[1].items[0]
                        else:
                            env[t.id] = None
            else:
                for t in target.elts:
                    if isinstance(t, ast.Name):
                        env[t.id] = None
        return v

    def chosen(self, v, key):
        """A selection by the value of an entry includes this entry."""
        if v is not None and v[0] == 'path' and v[1][2] != 'any' and \
                v[2][-1] == key:
            e = v[1]
            e[1].sat[(e[2], e[3])] = e[1].sat.get(
                (e[2], e[3]), frozenset()) | {key}

    def refine(self, c, env, pol):
        """An element that fits a comparison is in a narrower selection."""
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return self.refine(c.operand, env, not pol)
        if isinstance(c, ast.BoolOp) and isinstance(
                c.op, ast.And if pol else ast.Or):
            for v in c.values:
                self.refine(v, env, pol)
            return
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(
                c.ops[0], ast.Eq if pol else ast.NotEq):
            two = [self.ev(x, env) for x in (c.left, c.comparators[0])]
            for v, w in (two, two[::-1]):
                if v is not None and v[0] == 'path' and v[1][2] == 'any':
                    v[1][1].filters = v[1][1].filters | {v[2][-1]}
                    self.chosen(w, v[2][-1])

    def call(self, e, env):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, env)
            if o is not None and o[0] == 'coll':
                c = o[1]
                if f.attr == 'sort':
                    ks = kw.get('keys') or (args[0] if args else None)
                    key = None
                    if ks is not None and ks[0] == 'list' and ks[1].items:
                        k0 = ks[1].items[0]
                        key = k0[1] if k0 and k0[0] == 'const' else None
                    rv = kw.get('reverse') or (
                        args[1] if len(args) > 1 else None)
                    rev = rv is not None and rv != ('const', False)
                    c.order = (key, rev)
                    return o
                if f.attr == 'select':
                    for k, v in kw.items():
                        self.chosen(v, k)
                    return ('coll', Coll(
                        c.root, c.filters | frozenset(kw), c.order))
                if f.attr == 'copy':
                    return ('coll', Coll(c.root, c.filters, c.order))
                if f.attr in ('append', 'extend', '__iadd__'):
                    c.filters = c.filters | {'grown'}
                    return None
                r = Rec('.' + f.attr, [o] + args, kw, e)
                self.calls.append(r)
                return ('op', '.' + f.attr, [o] + args)
            if o is not None and o[0] == 'list':
                if f.attr == 'append' and args:
                    o[1].items.append(args[0])
                    return None
                if f.attr in ('extend',):
                    o[1].items.append(('op', 'all', args))
                    return None
            if o is not None and o[0] in ('path', 'hdr') and \
                    f.attr == 'copy':
                return self.header(o)
            if o is not None and o[0] == 'op' and f.attr in (
                    'copy', 'tolist', 'astype'):
                return o
            self.calls.append(Rec('.' + f.attr, [o] + args, kw, e))
            if o is None or o[0] in ('attr', 'param', 'const'):
                return ('op', f.attr, args + [
                    x for x in kw.values()] + ([o] if o else []))
            return ('op', f.attr, [o] + args + list(kw.values()))
        n = f.id if isinstance(f, ast.Name) else None
        if n in ('max', 'min') and len(args) == 1:
            return ('agg', n, one(args[0]))
        if n == 'sorted' and args:
            rv = kw.get('reverse')
            if args[0] is not None and args[0][0] == 'coll':
                k = next((x.value for x in e.keywords if x.arg == 'key'),
                         None)
                key = None
                if isinstance(k, ast.Lambda):
                    b = k.body
                    key = b.attr if isinstance(b, ast.Attribute) else (
                        b.slice.value if isinstance(b, ast.Subscript)
                        and isinstance(b.slice, ast.Constant) else None)
                return ('coll', Coll(args[0][1].root, args[0][1].filters,
                                     (key, rv == ('const', True))))
            return ('sorted', one(args[0]), rv == ('const', True))
        if n == 'enumerate' and args:
            return ('enum', args[0])
        if n == 'zip':
            return ('zip', args)
        if n in ('list', 'tuple', 'iter') and len(args) == 1:
            return args[0]
        if n == 'deepcopy' and args:
            return self.header(args[0])
        if n == 'range':
            return None
        if n in self.mod.funcs and self.depth > 0 and \
                not n[:1].isupper():
            fn = self.mod.funcs[n].node
            self.calls.append(Rec(n, args, kw, e))
            sub = Run(self.mod, self.depth - 1)
            senv = {}
            names = [a.arg for a in fn.args.args]
            for k, v in list(zip(names, args)) + list(kw.items()):
                senv[k] = v
            sub.block(fn.body, [senv])
            self.calls += sub.calls
            vs = [r[0] for r in sub.returns]
            if len(vs) == 1 or vs and all(v == vs[0] for v in vs):
                return vs[0]
            return ('op', 'ret:' + n, vs)
        if n is not None and n[:1].isupper():
            r = Rec(n, args, kw, e)
            self.calls.append(r)
            return ('rec', r)
        self.calls.append(Rec(n, args, kw, e))
        return ('op', n, args + list(kw.values()))

    def header(self, o):
        if o is None:
            return None
        if o[0] == 'path' and o[2] == ('stats',):
            return ('hdr', Hdr(o[1]))
        if o[0] == 'hdr':
            h = Hdr(o[1].base)
            h.over = dict(o[1].over)
            return ('hdr', h)
        if o[0] == 'coll':
            return ('coll', Coll(o[1].root, o[1].filters, o[1].order))
        return o

    # ---- statements: every path separately
    def block(self, stmts, envs):
        """-> (envs after, envs at continue)"""
        cont = []
        for s in stmts:
            nxt = []
            for env in envs:
                self.steps += 1
                a, c = self.stmt(s, env)
                nxt += a
                cont += c
            envs = nxt[:LIM]
        return envs, cont

    def decide(self, c, env):
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            r = self.decide(c.operand, env)
            return None if r is None else not r
        if isinstance(c, ast.BoolOp):
            rs = [self.decide(v, env) for v in c.values]
            conj = isinstance(c.op, ast.And)
            if any(r is (not conj) for r in rs):
                return not conj
            return None if any(r is None for r in rs) else conj
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            a = self.ev(c.left, env)
            b = self.ev(c.comparators[0], env)
            if a and b and a[0] == 'const':
                if b[0] == 'const' and isinstance(
                        c.ops[0], (ast.Eq, ast.Is)):
                    return a[1] == b[1]
                if b[0] == 'const' and isinstance(
                        c.ops[0], (ast.NotEq, ast.IsNot)):
                    return a[1] != b[1]
                if b[0] == 'list' and all(
                        x and x[0] == 'const' for x in b[1].items):
                    i = a[1] in [x[1] for x in b[1].items]
                    return i if isinstance(c.ops[0], ast.In) else \
                        not i if isinstance(c.ops[0], ast.NotIn) else None
        v = self.ev(c, env) if isinstance(c, (ast.Name, ast.Constant)) \
            else None
        if v and v[0] == 'const':
            return bool(v[1])
        return None

    def stmt(self, s, env):
        if isinstance(s, ast.If):
            d = self.decide(s.test, env)
            out, cont = [], []
            for pol in (True, False):
                if d is not None and d != pol:
                    continue
                e2 = env if d is not None else fork(env)
                self.refine(s.test, e2, pol)
                a, c = self.block(s.body if pol else s.orelse, [e2])
                out += a
                cont += c
            return out, cont
        if isinstance(s, ast.For):
            self.bind(s.target, s.iter, env)
            a, c = self.block(s.body, [env])
            return (a + c) or [env], []
        if isinstance(s, ast.While):
            a, c = self.block(s.body, [env])
            return (a + c) or [env], []
        if isinstance(s, ast.Return):
            self.returns.append((self.ev(s.value, env) if s.value else None,
                                 s))
            return [], []
        if isinstance(s, ast.Raise):
            return [], []
        if isinstance(s, ast.Continue):
            return [], [env]
        if isinstance(s, ast.Break):
            return [], [env]
        if isinstance(s, ast.With):
            return self.block(s.body, [env])
        if isinstance(s, ast.Try):
            return self.block(s.body + s.orelse + s.finalbody, [env])
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
            return [env], []
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s.value)
            return [env], []
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id)
                v = self.ev(s.value, env)
                if old and old[0] == 'list':
                    old[1].items.append(('op', 'all', [v]))
                else:
                    env[s.target.id] = ('op', type(s.op).__name__, [old, v])
            else:
                self.ev(s.value, env)
            return [env], []
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        return [env], []

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v[1].items if v and v[0] == 'list' and len(
                v[1].items) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env, node)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            o = self.ev(t.value, env)
            if o and o[0] == 'hdr':
                k = t.attr if isinstance(t, ast.Attribute) else (
                    self.ev(t.slice, env) or (None, None))[1]
                o[1].over[k] = v or ('op', 'unknown', [])


def fork(env):
    return copy.deepcopy(env)


def neg(s):
    if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and \
            isinstance(s.operand, ast.Constant):
        return -s.operand.value
    if isinstance(s, ast.Constant) and isinstance(s.value, int):
        return s.value
    return None


def one(v):
    """What a list holds."""
    if v and v[0] == 'list' and len(v[1].items) == 1:
        return v[1].items[0]
    return v


def paths(v, seen=None):
    """All element paths a value is made of."""
    out = []
    seen = seen if seen is not None else set()
    if v is None or not isinstance(v, tuple) or id(v) in seen:
        return out
    seen.add(id(v))
    if v[0] == 'path':
        return [v]
    if v[0] == 'elem':
        return [v]
    if v[0] == 'list':
        for x in v[1].items:
            out += paths(x, seen)
        return out
    if v[0] == 'op':
        for x in v[2]:
            out += paths(x, seen)
        return out
    if v[0] == 'agg' or v[0] == 'sorted':
        return paths(v[1] if v[0] == 'sorted' else v[2], seen)
    if v[0] == 'rec':
        for x in v[1].args + list(v[1].kw.values()):
            out += paths(x, seen)
    return out


def ops(v, seen=None):
    out = []
    seen = seen if seen is not None else set()
    if v is None or not isinstance(v, tuple) or id(v) in seen:
        return out
    seen.add(id(v))
    if v[0] == 'op':
        out.append(v)
        for x in v[2]:
            out += ops(x, seen)
    elif v[0] == 'list':
        for x in v[1].items:
            out += ops(x, seen)
    elif v[0] == 'agg':
        out += ops(v[2], seen)
    return out
