"""Behaviour-preserving rewrites of the whole package, to look for false
alarms.  usage: refac.py SRC DST KIND[,KIND..] [PROB] [SEED]

Every site at which a rewrite is possible is taken with probability PROB.
"""
import ast
import builtins
import copy
import os
import random
import sys

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(n, ctx=None):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and (
                ctx is None or isinstance(x.ctx, ctx)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name and (
                ctx is ast.Store or ctx is None):
            out.add(x.name)
        elif isinstance(x, FN + (ast.ClassDef,)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
    return out


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class Base(ast.NodeTransformer):
    def __init__(self, rnd, prob):
        self.rnd, self.prob, self.n, self.k = rnd, prob, 0, 0
        self.fn = []

    def take(self):
        if self.rnd.random() < self.prob:
            self.n += 1
            return True
        return False

    def fresh(self, base='tmp'):
        self.k += 1
        return '_%s_%s%d' % (base, self.mod, self.k)

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n


class FlipIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(
                n.orelse[0], ast.If)) and self.take():
            return ast.If(neg(n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.take():
            return ast.IfExp(neg(n.test), n.orelse, n.body)
        return n


INV = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
        return ast.Compare(t.left, [INV[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if getattr(n, '_test', False) and self.take():
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [neg(v) for v in n.values]))
        return n

    def visit_If(self, n):
        if isinstance(n.test, ast.BoolOp):
            n.test._test = True
        self.generic_visit(n)
        return n


SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class SwapCmp(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP and isinstance(
                n.comparators[0], ast.Constant) and self.take():
            return ast.Compare(n.comparators[0], [SWAP[type(n.ops[0])]()],
                               [n.left])
        return n


class Blocks(Base):
    """Visit statement lists."""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b, n, f))
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        super().generic_visit(n)
        return n

    def visit_Module(self, n):
        super().generic_visit(n)
        return n


class Guard(Blocks):
    """if c: continue/return; rest -> if not c: rest (in loops), or
    if c: return x; rest -> if c: return x else: rest."""
    def block(self, b, owner, f):
        for k, s in enumerate(b):
            if not isinstance(s, ast.If) or s.orelse or k == len(b) - 1:
                continue
            last = s.body[-1]
            if isinstance(last, ast.Continue) and isinstance(
                    owner, (ast.For, ast.While)) and f == 'body' \
                    and self.take():
                if len(s.body) == 1:
                    return b[:k] + [ast.If(neg(s.test), b[k + 1:], [])]
                return b[:k] + [ast.If(s.test, s.body[:-1], b[k + 1:])]
            if isinstance(last, (ast.Return, ast.Raise)) and self.take():
                return b[:k] + [ast.If(s.test, s.body, b[k + 1:])]
        return b


class Unelse(Blocks):
    """if c: ... return else: B -> if c: ... return; B."""
    def block(self, b, owner, f):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue,
                                 ast.Break)) and self.take():
                out += s.orelse
                s.orelse = []
        return out


class Nest(Base):
    """if a and b: X -> if a: if b: X."""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And) and self.take():
            v = n.test.values
            r = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            return ast.If(v[0], [ast.If(r, n.body, [])], [])
        return n


class CompLoop(Blocks):
    """x = [e for t in it if c] -> loop with append."""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, (ast.Assign, ast.Return)) and \
                    isinstance(s.value, ast.ListComp) and len(
                        s.value.generators) == 1 and (
                    isinstance(s, ast.Return) or len(s.targets) == 1 and
                    isinstance(s.targets[0], ast.Name)) and \
                    not has(s.value.elt, ast.NamedExpr):
                g = s.value.generators[0]
                new = names(g.target)
                mine = names(s.value)
                used = [x.id for x in ast.walk(self.fn[-1])
                        if isinstance(x, ast.Name) and x.id in new]
                here = [x.id for x in ast.walk(s.value)
                        if isinstance(x, ast.Name) and x.id in new]
                if len(used) == len(here) and not (
                        new & names_args(self.fn)) and self.take():
                    t = self.fresh('lst')
                    del mine
                    inner = [ast.Expr(ast.Call(ast.Attribute(
                        ast.Name(t, ast.Load()), 'append', ast.Load()),
                        [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    out.append(ast.Assign([ast.Name(t, ast.Store())],
                                          ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, inner, []))
                    s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


def names_args(fns):
    out = set()
    for f in fns:
        a = f.args
        out |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
    return out


class LoopComp(Blocks):
    """x = []; for t in it: [if c:] x.append(e) -> comprehension."""
    def block(self, b, owner, f):
        out = []
        k = 0
        while k < len(b):
            s = b[k]
            n = b[k + 1] if k + 1 < len(b) else None
            if self.fn and isinstance(s, ast.Assign) and len(
                    s.targets) == 1 and isinstance(
                    s.targets[0], ast.Name) and isinstance(
                    s.value, ast.List) and not s.value.elts and isinstance(
                    n, ast.For) and not n.orelse and len(n.body) == 1:
                x = n.body[0]
                ifs = []
                while isinstance(x, ast.If) and not x.orelse and len(
                        x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                nm = s.targets[0].id
                if isinstance(x, ast.Expr) and isinstance(
                        x.value, ast.Call) and isinstance(
                        x.value.func, ast.Attribute) and \
                        x.value.func.attr == 'append' and isinstance(
                        x.value.func.value, ast.Name) and \
                        x.value.func.value.id == nm and nm not in names(
                        x.value.args[0]) and nm not in names(n.iter) and \
                        not any(nm in names(c) for c in ifs) and \
                        once(self.fn[-1], names(n.target), n) and \
                        self.take():
                    out.append(ast.Assign(s.targets, ast.ListComp(
                        x.value.args[0], [ast.comprehension(
                            n.target, n.iter, ifs, 0)])))
                    k += 2
                    continue
            out.append(s)
            k += 1
        return out


def once(fn, nms, node):
    a = [x for x in ast.walk(fn) if isinstance(x, ast.Name)
         and x.id in nms]
    b = [x for x in ast.walk(node) if isinstance(x, ast.Name)
         and x.id in nms]
    return len(a) == len(b)


class Enumerate(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, (ast.Name, ast.Tuple)) and self.take():
            t = ast.Tuple([ast.Name(self.fresh('i'), ast.Store()),
                           n.target], ast.Store())
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()),
                              [n.iter], [])
            n.target = t
        return n


class Index(Base):
    """for x in xs -> for i in range(len(l)): x = l[i], l = list(xs)."""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(
                n.iter, ast.Name) and self.take():
            i, lst = self.fresh('i'), self.fresh('l')
            n.body.insert(0, ast.Assign([n.target], ast.Subscript(
                ast.Name(lst, ast.Load()), ast.Name(i, ast.Load()),
                ast.Load())))
            a = ast.Assign([ast.Name(lst, ast.Store())], ast.Call(
                ast.Name('list', ast.Load()), [n.iter], []))
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(
                ast.Name('len', ast.Load()),
                [ast.Name(lst, ast.Load())], [])], [])
            n.target = ast.Name(i, ast.Store())
            return [a, n]
        return n


class WhileIter(Base):
    """for x in xs: -> it = iter(xs); while True: try: x = next(it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse and self.take():
            it = self.fresh('it')
            return [
                ast.Assign([ast.Name(it, ast.Store())], ast.Call(
                    ast.Name('iter', ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign(
                    [n.target], ast.Call(ast.Name('next', ast.Load()), [
                        ast.Name(it, ast.Load())], []))],
                    [ast.ExceptHandler(ast.Name(
                        'StopIteration', ast.Load()), None,
                        [ast.Break()])], [], [])] + n.body, [])]
        return n


class Temp(Blocks):
    """Arguments of the outermost call, returned values: into locals."""
    def block(self, b, owner, f):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if self.fn and isinstance(s, ast.Return) and v is not None \
                    and not isinstance(v, (ast.Name, ast.Constant)) and \
                    self.take():
                t = self.fresh('res')
                out.append(ast.Assign([ast.Name(t, ast.Store())], v))
                s.value = ast.Name(t, ast.Load())
            elif self.fn and isinstance(s, (ast.Assign, ast.Expr)) and \
                    isinstance(v, ast.Call) and simple(v.func) and self.take():
                for k, a in enumerate(v.args):
                    if isinstance(a, (ast.Name, ast.Constant, ast.Starred)):
                        continue
                    t = self.fresh('arg')
                    out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[k] = ast.Name(t, ast.Load())
                for kw in v.keywords:
                    if kw.arg and not isinstance(
                            kw.value, (ast.Name, ast.Constant)):
                        t = self.fresh('arg')
                        out.append(ast.Assign(
                            [ast.Name(t, ast.Store())], kw.value))
                        kw.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class TempTest(Blocks):
    """if test: -> ok = test; if ok:"""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, ast.If) and not isinstance(
                    s.test, ast.Name) and self.take():
                t = self.fresh('ok')
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.test))
                s.test = ast.Name(t, ast.Load())
            out.append(s)
        return out


class TempAttr(Blocks):
    """a.b.c(x) -> m = a.b; m.c(x); x[e] -> k = e; x[k]."""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, (ast.Assign, ast.Expr,
                                          ast.AugAssign, ast.Return)):
                v = s.value
                if isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Attribute) and isinstance(
                        v.func.value, ast.Attribute) and root(
                        v.func.value) == 'self' and self.take():
                    t = self.fresh('obj')
                    out.append(ast.Assign([ast.Name(t, ast.Store())],
                                          v.func.value))
                    v.func.value = ast.Name(t, ast.Load())
                elif isinstance(v, ast.BinOp) and isinstance(
                        v.left, (ast.BinOp, ast.Call)) and self.take():
                    t = self.fresh('left')
                    out.append(ast.Assign([ast.Name(t, ast.Store())],
                                          v.left))
                    v.left = ast.Name(t, ast.Load())
            out.append(s)
        return out


def root(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def simple(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


class Rename(Base):
    """All local variables of a function get other names."""
    def visit_FunctionDef(self, n):
        if has(n, ast.Global, ast.Nonlocal) or self.fn or not self.take():
            return n
        a = names_args([n])
        inner = set()
        for x in ast.walk(n):
            if isinstance(x, FN + (ast.Lambda,)) and x is not n:
                inner |= names_args([x]) if isinstance(x, FN) else {
                    y.arg for y in x.args.args}
                if isinstance(x, FN):
                    inner.add(x.name)
            if isinstance(x, ast.ClassDef):
                return n
            if isinstance(x, ast.ExceptHandler) and x.name:
                inner.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                inner |= names(x)
        loc = names(n, ast.Store) - a - inner - {n.name}
        m = {x: 'v_' + x + '_' for x in loc}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return n


class Kwargs(Base):
    """Reverse keyword arguments."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(
                isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute))
                for k in n.keywords) and self.take():
            ks = [k for k in n.keywords if k.arg]
            n.keywords = ks[::-1] + [k for k in n.keywords if not k.arg]
        return n


class SwapStmts(Blocks):
    """Swap adjacent independent simple assignments."""
    def block(self, b, owner, f):
        b = list(b)
        k = 0
        while k + 1 < len(b):
            x, y = b[k], b[k + 1]
            if self.fn and pure(x) and pure(y):
                wx, wy = names(x, ast.Store), names(y, ast.Store)
                rx, ry = names(x, ast.Load), names(y, ast.Load)
                if not (wx & (wy | ry)) and not (wy & rx) and self.take():
                    b[k], b[k + 1] = y, x
                    k += 1
            k += 1
        return b


def pure(s):
    return isinstance(s, ast.Assign) and all(
        isinstance(t, ast.Name) for t in s.targets) and not has(
        s.value, ast.Call, ast.Yield, ast.YieldFrom, ast.Subscript,
        ast.BinOp)


class Extract(Blocks):
    """A run of statements becomes a function of the module."""
    def __init__(self, *a):
        super().__init__(*a)
        self.new = []
        self.glob = set()

    def visit_Module(self, n):
        self.glob = set()
        for s in n.body:
            self.glob |= names(s, ast.Store) if not isinstance(
                s, FN + (ast.ClassDef,)) else {s.name}
        super().visit_Module(n)
        n.body += self.new
        self.new = []
        return n

    def block(self, b, owner, f):
        if len(self.fn) != 1 or has(self.fn[0], ast.Global, ast.Nonlocal,
                                    ast.Lambda) or any(
                isinstance(x, FN) and x is not self.fn[0]
                for x in ast.walk(self.fn[0])):
            return b
        fn = self.fn[0]
        n = len(b)
        if n < 2:
            return b
        size = self.rnd.randint(1, min(4, n - 1)) if n > 2 else 1
        k = self.rnd.randint(0, n - size)
        seg = b[k:k + size]
        if isinstance(seg[0], ast.Expr) and isinstance(
                seg[0].value, ast.Constant):
            return b
        for s in seg:
            if has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Await,
                   ast.Delete, ast.Import, ast.ImportFrom, ast.NamedExpr,
                   ast.Nonlocal, ast.Global):
                return b
            if loose(s):
                return b
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id in (
                        'super', 'locals', 'vars', 'globals'):
                    return b
                if isinstance(x, ast.Raise) and x.exc is None:
                    return b
                if isinstance(x, ast.Attribute) and x.attr.startswith(
                        '__') and not x.attr.endswith('__'):
                    return b
        if isinstance(owner, ast.ExceptHandler) or isinstance(
                owner, ast.Try):
            pass
        segm = ast.Module(seg, [])
        st = names(segm, ast.Store)
        args = names_args([fn])
        local = (names(fn, ast.Store) | args) - {fn.name}
        comp = set()
        for x in ast.walk(segm):
            if isinstance(x, ast.comprehension):
                comp |= names(x.target)
        read = names(segm, ast.Load)
        aug = set()
        for x in ast.walk(segm):
            if isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Name):
                aug.add(x.target.id)
        # names that certainly have a value before the block
        sure = set(args)
        before = assigned_before(fn, b, k)
        sure |= before
        need = sorted(((read | aug) & local & sure) - (comp - before - args))
        miss = ((read | aug) & local) - sure - st - comp
        if miss:
            return b
        # read before it is surely stored in the block, maybe unassigned
        out = []
        certain = set()
        for s in seg:
            certain |= must_store(s)
        rest_used = used_outside(fn, seg)
        for x in sorted(st - comp):
            if x in rest_used:
                if x not in certain and x not in sure:
                    return b
                if x not in certain and x not in need:
                    need.append(x)
                out.append(x)
        need = sorted(set(need))
        if not self.take():
            return b
        h = self.fresh('helper')
        body = copy.deepcopy(seg)
        if out:
            body.append(ast.Return(
                ast.Name(out[0], ast.Load()) if len(out) == 1 else
                ast.Tuple([ast.Name(x, ast.Load()) for x in out],
                          ast.Load())))
        call = ast.Call(ast.Name(h, ast.Load()), [
            ast.Name(x, ast.Load()) for x in need], [])
        ann = {a.arg: a.annotation for a in fn.args.args + fn.args.kwonlyargs}
        self.new.append(ast.FunctionDef(h, ast.arguments(
            [], [ast.arg(x, copy.deepcopy(
                ann.get(x)) if x not in st else None) for x in need],
            None, [], [], None, []), body, [], None))
        if out:
            tgt = ast.Name(out[0], ast.Store()) if len(out) == 1 else \
                ast.Tuple([ast.Name(x, ast.Store()) for x in out],
                          ast.Store())
            new = [ast.Assign([tgt], call)]
        else:
            new = [ast.Expr(call)]
        return b[:k] + new + b[k + size:]


def loose(s):
    """break/continue that leaves the statement."""
    def walk(n, inloop):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.Break, ast.Continue)) and not inloop:
                return True
            if walk(c, inloop or isinstance(c, (ast.For, ast.While))):
                return True
        return False
    if isinstance(s, (ast.Break, ast.Continue)):
        return True
    return walk(s, isinstance(s, (ast.For, ast.While)))


def must_store(s):
    if isinstance(s, ast.Assign):
        return {y for t in s.targets for y in names(t, ast.Store)}
    if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        return names(s.target, ast.Store)
    if isinstance(s, ast.If):
        a, b = set(), set()
        for x in s.body:
            a |= must_store(x)
        for x in s.orelse:
            b |= must_store(x)
        return a & b
    if isinstance(s, ast.With):
        a = names(ast.Module([], []))
        for x in s.body:
            a |= must_store(x)
        return a
    return set()


def assigned_before(fn, b, k):
    """Names surely assigned before statement k of the block."""
    out = set()

    def go(body):
        acc = set()
        for s in body:
            if body is b and s is b[k]:
                out.update(acc)
                return True
            for f in ('body', 'orelse', 'finalbody'):
                c = getattr(s, f, None)
                if isinstance(c, list) and c and isinstance(
                        c[0], ast.stmt):
                    if contains(c, b):
                        out.update(acc)
                        if isinstance(s, ast.For) and f == 'body':
                            out.update(names(s.target))
                        if isinstance(s, ast.With):
                            for it in s.items:
                                if it.optional_vars is not None:
                                    out.update(names(it.optional_vars))
                        go(c)
                        return True
            for h in getattr(s, 'handlers', ()):
                if contains(h.body, b):
                    out.update(acc)
                    if h.name:
                        out.add(h.name)
                    go(h.body)
                    return True
            acc |= must_store(s)
        return False
    go(fn.body)
    return out


def contains(c, b):
    if c is b:
        return True
    for s in c:
        for f in ('body', 'orelse', 'finalbody'):
            d = getattr(s, f, None)
            if isinstance(d, list) and d and isinstance(d[0], ast.stmt) \
                    and contains(d, b):
                return True
        for h in getattr(s, 'handlers', ()):
            if contains(h.body, b):
                return True
    return False


def used_outside(fn, seg):
    inside = {id(x) for s in seg for x in ast.walk(s)}
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)
            and isinstance(x.ctx, (ast.Load, ast.Del))
            and id(x) not in inside} | {
                x.id for x in ast.walk(fn) if isinstance(x, ast.Name)
                and any(isinstance(y, (ast.For, ast.While))
                        for y in ast.walk(fn)) and id(x) not in inside}| {
                            x for x in loop_carried(fn, seg)}


def loop_carried(fn, seg):
    """Stored and read in the block, if the block is in a loop."""
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)) and any(
                y is seg[0] for y in ast.walk(x)) and x is not seg[0]:
            m = ast.Module(seg, [])
            return names(m, ast.Store) & (names(m, ast.Load) | {
                y.target.id for s in seg for y in ast.walk(s)
                if isinstance(y, ast.AugAssign)
                and isinstance(y.target, ast.Name)})
    return set()


class ExtTail(Extract):
    """The end of a function becomes a function: return helper(..)."""
    def block(self, b, owner, f):
        if len(self.fn) != 1 or owner is not self.fn[0] or len(b) < 4 or \
                has(owner, ast.Global, ast.Nonlocal, ast.Lambda, ast.Yield,
                    ast.YieldFrom) or any(
                isinstance(x, FN) and x is not owner
                for x in ast.walk(owner)):
            return b
        fn = owner
        k = self.rnd.randint(2, len(b) - 1)
        seg = b[k:]
        segm = ast.Module(seg, [])
        if has(segm, ast.Import, ast.ImportFrom, ast.NamedExpr) or any(
                isinstance(x, ast.Name) and x.id == 'super'
                for x in ast.walk(segm)) or fn.decorator_list:
            return b
        args = names_args([fn])
        local = (names(fn, ast.Store) | args) - {fn.name}
        sure = set(args) | assigned_before(fn, b, k)
        need = names(segm) & local
        comp = set()
        for x in ast.walk(segm):
            if isinstance(x, ast.comprehension):
                comp |= names(x.target)
        read = names(segm, ast.Load) | {
            x.target.id for x in ast.walk(segm)
            if isinstance(x, ast.AugAssign)
            and isinstance(x.target, ast.Name)}
        if (read & local) - sure - names(segm, ast.Store) - comp:
            return b
        need = sorted(read & local & sure)
        if not self.take():
            return b
        h = self.fresh('tail')
        self.new.append(ast.FunctionDef(h, ast.arguments(
            [], [ast.arg(x) for x in need], None, [], [], None, []),
            copy.deepcopy(seg), [], None))
        return b[:k] + [ast.Return(ast.Call(ast.Name(h, ast.Load()), [
            ast.Name(x, ast.Load()) for x in need], []))]


class ExtCond(Extract):
    """A condition becomes a function."""
    def block(self, b, owner, f):
        if len(self.fn) != 1:
            return b
        fn = self.fn[0]
        for s in b:
            if isinstance(s, ast.If) and not isinstance(
                    s.test, (ast.Name, ast.Constant)) and not has(
                        s.test, ast.NamedExpr, ast.Lambda) and not any(
                        isinstance(x, FN) and x is not fn
                        for x in ast.walk(fn)):
                comp = set()
                for x in ast.walk(s.test):
                    if isinstance(x, ast.comprehension):
                        comp |= names(x.target)
                local = names(fn, ast.Store) | names_args([fn])
                need = sorted((names(s.test, ast.Load) & local) - comp)
                if isinstance(s.test, ast.BoolOp) and set(need) - (
                        assigned_before(fn, b, b.index(s))
                        | names_args([fn])):
                    continue
                if not self.take():
                    continue
                h = self.fresh('cond')
                self.new.append(ast.FunctionDef(h, ast.arguments(
                    [], [ast.arg(x) for x in need], None, [], [], None,
                    []), [ast.Return(s.test)], [], None))
                s.test = ast.Call(ast.Name(h, ast.Load()), [
                    ast.Name(x, ast.Load()) for x in need], [])
        return b


class ExtMeth(Extract):
    """A run of statements of a method becomes a method."""
    def visit_ClassDef(self, n):
        old, self.new = self.new, []
        super().visit_ClassDef(n)
        n.body += self.new
        self.new = old
        return n

    def block(self, b, owner, f):
        if not self.fn or names_args(self.fn[:1]) and not (
                self.fn[0].args.args and self.fn[0].args.args[0].arg
                == 'self') or self.fn[0].decorator_list:
            return b
        k = len(self.new)
        r = super().block(b, owner, f)
        if len(self.new) == k:
            return r
        h = self.new[-1]
        ps = [a.arg for a in h.args.args]
        h.args.args = [ast.arg('self')] + [
            a for a in h.args.args if a.arg != 'self']
        for s in r:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id == h.name:
                    x.func = ast.Attribute(ast.Name(
                        'self', ast.Load()), h.name, ast.Load())
                    x.args = [ast.Name(p, ast.Load()) for p in ps
                              if p != 'self']
        return r


class IfExpIf(Blocks):
    """x = a if c else b -> if c: x = a else: x = b"""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, (ast.Assign, ast.Return)) and \
                    isinstance(s.value, ast.IfExp) and self.take():
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [x], [y]))
                continue
            out.append(s)
        return out


class IfIfExp(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, ast.If) and len(
                    s.body) == 1 and len(s.orelse) == 1 and isinstance(
                    s.body[0], ast.Assign) and isinstance(
                    s.orelse[0], ast.Assign) and [ast.dump(
                        t) for t in s.body[0].targets] == [
                        ast.dump(t) for t in s.orelse[0].targets] and \
                    isinstance(s.body[0].targets[0], ast.Name) and \
                    self.take():
                n = s.body[0]
                n.value = ast.IfExp(s.test, n.value, s.orelse[0].value)
                out.append(n)
                continue
            out.append(s)
        return out


class Fstr(Base):
    """f'..{x}..' -> '..{}..'.format(x)"""
    def visit_JoinedStr(self, n):
        if not self.take():
            return n
        t, a = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if len(v.format_spec.values) != 1 or not isinstance(
                            v.format_spec.values[0], ast.Constant):
                        return n
                    spec = ':' + v.format_spec.values[0].value
                t += '{%s%s}' % ('' if v.conversion == -1 else '!' + chr(
                    v.conversion), spec)
                a.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(t), 'format',
                                      ast.Load()), a, [])


class WhileIdx(Base):
    """for x in l -> counted while loop"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.iter, ast.Name) or has(
                ast.Module(n.body, []), ast.Continue) or not self.take():
            return n
        i, lst = self.fresh('i'), self.fresh('l')
        nm = ast.Name
        return [
            ast.Assign([nm(lst, ast.Store())], ast.Call(
                nm('list', ast.Load()), [n.iter], [])),
            ast.Assign([nm(i, ast.Store())], ast.Constant(0)),
            ast.While(ast.Compare(nm(i, ast.Load()), [ast.Lt()], [ast.Call(
                nm('len', ast.Load()), [nm(lst, ast.Load())], [])]), [
                ast.Assign([n.target], ast.Subscript(
                    nm(lst, ast.Load()), nm(i, ast.Load()), ast.Load()))
                ] + n.body + [ast.AugAssign(nm(i, ast.Store()), ast.Add(),
                                            ast.Constant(1))], [])]


class SplitOr(Base):
    """if a or b: raise -> if a: raise; if b: raise"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.Or) and isinstance(
                n.body[-1], (ast.Raise, ast.Return, ast.Continue)) and \
                self.take():
            return [ast.If(v, copy.deepcopy(n.body), [])
                    for v in n.test.values]
        return n


class AnyLoop(Blocks):
    """if any(c for x in xs): A -> flag and loop"""
    def block(self, b, owner, f):
        out = []
        for s in b:
            if self.fn and isinstance(s, ast.If):
                c = s.test
                if isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Name) and c.func.id in (
                        'any', 'all') and len(c.args) == 1 and isinstance(
                        c.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                        len(c.args[0].generators) == 1 and once(
                        self.fn[-1], names(c.args[0].generators[0].target),
                        c) and self.take():
                    g = c.args[0].generators[0]
                    t = self.fresh('found')
                    e = c.args[0].elt
                    isany = c.func.id == 'any'
                    body = [ast.If(e if isany else neg(e), [ast.Assign(
                        [ast.Name(t, ast.Store())], ast.Constant(isany)),
                        ast.Break()], [])]
                    for k in reversed(g.ifs):
                        body = [ast.If(k, body, [])]
                    out.append(ast.Assign([ast.Name(t, ast.Store())],
                                          ast.Constant(not isany)))
                    out.append(ast.For(g.target, g.iter, body, []))
                    s.test = ast.Name(t, ast.Load())
            out.append(s)
        return out


class DictCall(Base):
    """{'a': x} <-> dict(a=x)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(
                k.value, str) and k.value.isidentifier()
                for k in n.keys) and self.fn and self.take():
            return ast.Call(ast.Name('dict', ast.Load()), [], [
                ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class RetVar(Blocks):
    """if c: return a; return b -> one return at the end"""
    def block(self, b, owner, f):
        if len(b) >= 2 and self.fn and owner is self.fn[-1] and isinstance(
                b[-1], ast.Return) and b[-1].value is not None and \
                isinstance(b[-2], ast.If) and not b[-2].orelse and \
                isinstance(b[-2].body[-1], ast.Return) and \
                b[-2].body[-1].value is not None and self.take():
            t = self.fresh('out')
            i = b[-2]
            x, y = i.body[-1], b[-1]
            i.body[-1] = ast.Assign([ast.Name(t, ast.Store())], x.value)
            i.orelse = [ast.Assign([ast.Name(t, ast.Store())], y.value)]
            return b[:-1] + [ast.Return(ast.Name(t, ast.Load()))]
        return b


KINDS = dict(exttail=ExtTail, extcond=ExtCond, extmeth=ExtMeth,
             ifexpif=IfExpIf, ififexp=IfIfExp, fstr=Fstr, widx=WhileIdx,
             splitor=SplitOr, anyloop=AnyLoop, dictcall=DictCall,
             retvar=RetVar, flip=FlipIf, demorgan=DeMorgan, swapcmp=SwapCmp, guard=Guard,
             unelse=Unelse, nest=Nest, comploop=CompLoop, loopcomp=LoopComp,
             enum=Enumerate, index=Index, witer=WhileIter, temp=Temp,
             temptest=TempTest, tempattr=TempAttr, rename=Rename,
             kwargs=Kwargs, swap=SwapStmts, extract=Extract)


def main():
    src, dst, kinds = sys.argv[1:4]
    prob = float(sys.argv[4]) if len(sys.argv) > 4 else 1
    rnd = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    only = sys.argv[6].split(',') if len(sys.argv) > 6 else None
    tot = 0
    for d, _, fs in os.walk(os.path.join(src, 'src', 'seismic')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            with open(p) as fh:
                tree = ast.parse(fh.read())
            q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if only is None or any(q.endswith(o) for o in only):
                for k in kinds.split(','):
                    t = KINDS[k](rnd, prob)
                    t.mod = f[:-3].strip('_')
                    t.k = 1000 * (len(kinds.split(',')) > 1) * list(
                        KINDS).index(k)
                    tree = t.visit(tree)
                    ast.fix_missing_locations(tree)
                    tree = ast.parse(ast.unparse(tree))
                    tot += t.n
            with open(q, 'w') as fh:
                fh.write(ast.unparse(tree) + '\n')
    print('%s: %d sites' % (kinds, tot))


if __name__ == '__main__':
    assert hasattr(builtins, 'print')
    main()
