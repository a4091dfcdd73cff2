"""Finite-state dataflow over one function's syntax tree.

A state is a frozenset of (name, value) facts: boolean flags of local
variables and facts established by recognised tests.  Branches are followed
separately, loops to a fixed point; nothing is executed.
"""
import ast

LIMIT = 4000


class Fsm:
    def __init__(self, atom, resolve=None, on_call=None, on_assign=None,
                 on_for=None, depth=3):
        self.atom = atom              # (expr, facts) -> [(facts, bool)]|None
        self.resolve = resolve        # Call -> FunctionDef | None
        self.on_call = on_call        # (call node, facts) -> None
        self.on_assign = on_assign    # (target name, value, facts) -> facts
        self.on_for = on_for          # (For node, facts) -> facts
        self.depth = depth

    # ---- facts
    @staticmethod
    def put(s, k, v):
        return frozenset([x for x in s if x[0] != k] + (
            [] if v is None else [(k, v)]))

    @staticmethod
    def get(s, k):
        for a, b in s:
            if a == k:
                return b
        return None

    # ---- conditions: list of (state, truth)
    def cond(self, e, s):
        if isinstance(e, ast.Constant):
            return [(s, bool(e.value))]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, not b) for a, b in self.cond(e.operand, s)]
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            out = []
            cur = [s]
            for v in e.values:
                nxt = set()
                for c in cur:
                    for a, b in self.cond(v, c):
                        if b == conj:
                            nxt.add(a)
                        else:
                            out.append((a, b))
                cur = list(nxt)
            return list(dict.fromkeys(out + [(c, conj) for c in cur]))
        if isinstance(e, ast.IfExp):
            out = []
            for a, b in self.cond(e.test, s):
                out += self.cond(e.body if b else e.orelse, a)
            return list(dict.fromkeys(out))
        if isinstance(e, ast.Name):
            v = self.get(s, ('flag', e.id))
            if v is not None:
                return [(s, v)]
        if isinstance(e, ast.NamedExpr):
            return self.cond(e.value, s)
        r = self.atom(e, s)
        if r is not None:
            return r
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.comparators[0], ast.Constant) and isinstance(
                    e.comparators[0].value, bool) and isinstance(
                        e.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            neg = isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
            want = e.comparators[0].value != neg
            return [(a, b == want) for a, b in self.cond(e.left, s)]
        if isinstance(e, ast.Call):
            n = e.func.id if isinstance(e.func, ast.Name) else None
            if n == 'bool' and len(e.args) == 1:
                return self.cond(e.args[0], s)
            if n in ('any', 'all') and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                    return self.quant(n, a, s)
                if isinstance(a, (ast.Tuple, ast.List)):
                    return self.cond(ast.BoolOp(
                        ast.And() if n == 'all' else ast.Or(), a.elts), s)
            if self.on_call:
                self.on_call(e, s)
            f = self.resolve(e) if self.resolve else None
            if f is not None and self.depth > 0:
                return self.inline(f, e, s)
        return [(s, True), (s, False)]

    def quant(self, n, g, s):
        facts = [s]
        for gen in g.generators:
            for c in gen.ifs:
                facts = [a for f in facts for a, b in self.cond(c, f) if b]
        t = []
        for f in facts:
            for a, b in self.cond(g.elt, f):
                if b == (n == 'any'):
                    # one element decides
                    t.append((a, n == 'any'))
        if n == 'any':
            return list(dict.fromkeys(t + [(s, False)]))
        # all: holds for every element (possibly none)
        yes = [(a, True) for f in facts for a, b in self.cond(g.elt, f)
               if b] or [(s, True)]
        return list(dict.fromkeys(yes + [(s, False)]))

    def inline(self, f, call, s):
        sub = Fsm(self.atom, self.resolve, self.on_call, self.on_assign,
                  self.on_for, self.depth - 1)
        body = f.body
        st = s
        scope = self.get(s, 'scope')
        saved = [x for x in s if isinstance(x[0], tuple)
                 and x[0][0] == 'flag']
        for x in saved:
            st = self.put(st, x[0], None)
        hook = getattr(self.atom, 'bind', None)
        if hook:
            st = hook(f, call, st)
        out = sub.block(body, {st})
        res = []
        out['return'] = {(self.put(r, 'scope', scope), tv)
                         for r, tv in out['return']}
        out['next'] = {self.put(r, 'scope', scope) for r in out['next']}
        for r, tv in out['return']:
            r = frozenset(x for x in r if not (
                isinstance(x[0], tuple) and x[0][0] == 'flag'))
            for x in saved:
                r = self.put(r, *x)
            res.append((r, tv) if tv is not None else (r, True))
            if tv is None:
                res.append((r, False))
        for r in out['next']:
            r = frozenset(x for x in r if not (
                isinstance(x[0], tuple) and x[0][0] == 'flag'))
            for x in saved:
                r = self.put(r, *x)
            res.append((r, False))
        return list(dict.fromkeys(res)) or [(s, True), (s, False)]

    # ---- statements
    def block(self, stmts, states):
        out = {'next': set(states), 'break': set(), 'continue': set(),
               'return': set(), 'raise': set()}
        for s in stmts:
            cur = out['next']
            out['next'] = set()
            for st in cur:
                r = self.stmt(s, st)
                for k, v in r.items():
                    out[k] |= v
            if not out['next']:
                break
            if len(out['next']) > LIMIT:
                raise OverflowError('too many states')
        return out

    def stmt(self, s, st):
        o = {'next': set(), 'break': set(), 'continue': set(),
             'return': set(), 'raise': set()}
        if isinstance(s, ast.If):
            for a, b in self.cond(s.test, st):
                r = self.block(s.body if b else s.orelse, {a})
                for k, v in r.items():
                    o[k] |= v
            return o
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st, o)
        if isinstance(s, ast.Return):
            if s.value is None:
                o['return'].add((st, False))
            else:
                self.calls(s.value, st)
                for a, b in self.cond(s.value, st):
                    o['return'].add((a, b))
            return o
        if isinstance(s, ast.Continue):
            o['continue'].add(st)
            return o
        if isinstance(s, ast.Break):
            o['break'].add(st)
            return o
        if isinstance(s, ast.Raise):
            o['raise'].add(st)
            return o
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.calls(it.context_expr, st)
            return self.block(s.body, {st})
        if isinstance(s, ast.Try):
            r = self.block(s.body, {st})
            # an exception may occur anywhere in the body
            mid = {st} | r['next'] | r['raise']
            for h in s.handlers:
                hr = self.block(h.body, mid)
                for k, v in hr.items():
                    o[k] |= v
            nx = self.block(s.orelse, r['next'])
            for k in o:
                if k != 'next' and k != 'raise':
                    o[k] |= r[k]
            for k, v in nx.items():
                o[k] |= v
            if not s.handlers:
                o['raise'] |= r['raise']
            if s.finalbody:
                f = self.block(s.finalbody, o['next'])
                o['next'] = f['next']
            return o
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = s.value
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if v is None:
                o['next'].add(st)
                return o
            names = [t.id for t in ts if isinstance(t, ast.Name)]
            if names and isinstance(s, ast.Assign) and boolish(v):
                for a, b in self.cond(v, st):
                    for n in names:
                        a = self.put(a, ('flag', n), b)
                    o['next'].add(a)
                return o
            if names and isinstance(s, ast.AugAssign) and isinstance(
                    s.op, (ast.BitAnd, ast.BitOr)):
                e = ast.BoolOp(ast.And() if isinstance(s.op, ast.BitAnd)
                               else ast.Or(), [ast.Name(
                                   names[0], ast.Load()), v])
                for a, b in self.cond(e, st):
                    o['next'].add(self.put(a, ('flag', names[0]), b))
                return o
            f = self.resolve(v) if self.resolve and isinstance(
                v, ast.Call) else None
            if names and f is not None and returns_bool(f) and \
                    self.depth > 0:
                for a, b in self.cond(v, st):
                    for n in names:
                        a = self.put(a, ('flag', n), b)
                    o['next'].add(a)
                return o
            self.calls(v, st)
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        st = self.put(st, ('flag', n.id), None)
                        if self.on_assign:
                            st = self.on_assign(n.id, v, st)
            o['next'].add(st)
            return o
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass,
                          ast.Import, ast.ImportFrom, ast.Global,
                          ast.Nonlocal)):
            o['next'].add(st)
            return o
        if isinstance(s, ast.Assert):
            for a, b in self.cond(s.test, st):
                o['next' if b else 'raise'].add(a)
            return o
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.calls(n, st)
        o['next'].add(st)
        return o

    def calls(self, e, st):
        if self.on_call:
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    self.on_call(n, st)

    def loop(self, s, st, o):
        seen = set()
        work = {st}
        exits = set()
        while work:
            nxt = set()
            for x in work:
                if x in seen:
                    continue
                seen.add(x)
                if len(seen) > LIMIT:
                    raise OverflowError('too many states')
                if isinstance(s, ast.For):
                    exits.add(x)
                    b = x
                    if self.on_for:
                        b = self.on_for(s, b)
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            b = self.put(b, ('flag', n.id), None)
                    starts = {b}
                else:
                    starts = set()
                    for a, t in self.cond(s.test, x):
                        (starts if t else exits).add(a)
                r = self.block(s.body, starts)
                nxt |= r['next'] | r['continue']
                o['next'] |= r['break']
                o['return'] |= r['return']
                o['raise'] |= r['raise']
            work = nxt - seen
        e = self.block(s.orelse, exits)
        for k, v in e.items():
            o[k] |= v
        return o


def boolish(v):
    if isinstance(v, ast.Constant):
        return isinstance(v.value, bool)
    if isinstance(v, (ast.BoolOp, ast.Compare)):
        return True
    if isinstance(v, ast.UnaryOp):
        return isinstance(v.op, ast.Not)
    if isinstance(v, ast.Call):
        return isinstance(v.func, ast.Name) and v.func.id in (
            'any', 'all', 'bool', 'isinstance')
    return False


def returns_bool(f):
    rs = [n for n in ast.walk(f) if isinstance(n, ast.Return)
          and n.value is not None]
    return bool(rs) and all(boolish(r.value) or isinstance(
        r.value, ast.Name) for r in rs)


class First(Fsm):
    """Is the flag handed out with the first element of every round of the
    outermost loop, and only with that one, true?

    Facts: 'first' (nothing handed out yet in this round) and, per inner
    loop, whether its first round runs (tests of its counter against 0).
    """
    def __init__(self, outer, flags):
        Fsm.__init__(self, self.test, on_for=self.enter)
        self.outer, self.flags = outer, flags
        self.bad, self.unsure, self.seen = {}, False, 0
        self.inner = [n for n in ast.walk(outer) if isinstance(n, ast.For)
                      and n is not outer]

    def test(self, e, s):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.left, ast.Name) and isinstance(
                e.comparators[0], ast.Constant):
            r = self.get(s, ('count', e.left.id))
            v, op = e.comparators[0].value, type(e.ops[0]).__name__
            t = {('Eq', 0): True, ('NotEq', 0): False, ('Gt', 0): False,
                 ('GtE', 1): False, ('Lt', 1): True, ('LtE', 0): True}.get(
                     (op, v))
            if r is not None and t is not None:
                return [(s, t == r)]
        if isinstance(e, ast.Name):
            r = self.get(s, ('count', e.id))
            if r is not None:
                return [(s, not r)]
        return None

    def enter(self, node, s):
        if node is self.outer:
            s = frozenset(x for x in s if not (
                isinstance(x[0], tuple) and x[0][0] in ('it', 'count')))
            return self.put(s, 'first', True)
        if node in self.inner:
            r = self.get(s, ('it', node.lineno)) is None
            s = self.put(s, ('it', node.lineno), False)
            c = counter(node)
            if c is not None:
                s = self.put(s, ('count', c), r)
        return s

    def stmt(self, s, st):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and s.targets[0].id in self.flags \
                and not self.known(s.value, st):
            o = {k: set() for k in ('next', 'break', 'continue', 'return',
                                    'raise')}
            o['next'].add(self.put(st, ('flag', s.targets[0].id), None))
            return o
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and \
                isinstance(s.value.value, ast.Tuple) and len(
                    s.value.value.elts) == 2:
            e = s.value.value.elts[1]
            self.seen += 1
            if not self.known(e, st):
                self.unsure = True
            else:
                for a, b in self.cond(e, st):
                    if b != bool(self.get(a, 'first')):
                        self.bad.setdefault(b, s)
            st = self.put(st, 'first', False)
        return Fsm.stmt(self, s, st)

    def known(self, e, s):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, bool)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.known(e.operand, s)
        if isinstance(e, ast.BoolOp):
            return all(self.known(v, s) for v in e.values)
        if isinstance(e, ast.Name) and self.get(
                s, ('flag', e.id)) is not None:
            return True
        return self.test(e, s) is not None


def counter(node):
    """The name counting the rounds of a loop from 0."""
    it, t = node.iter, node.target
    if not isinstance(it, ast.Call) or not isinstance(it.func, ast.Name):
        return None
    if it.func.id == 'range' and len(it.args) == 1 and isinstance(
            t, ast.Name):
        return t.id
    if it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(
            t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
        return t.elts[0].id
    return None
