"""Brings the syntax trees into a common form before they are analysed.

Only rewrites that keep what the code does: helpers the rules do not know are
put back into their callers, single-use temporaries into their use, loops
that count or call next() by hand become for loops over the elements, and
nested conditions are joined.  The locations of the original nodes are kept.
"""
import ast
import copy
import os
import re
import string

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = FN + (ast.Lambda, ast.ClassDef)
KNOWN = None


def known():
    global KNOWN
    if KNOWN is None:
        p = os.path.join(os.path.dirname(__file__), 'known.txt')
        KNOWN = set()
        if os.path.exists(p):
            with open(p) as fh:
                KNOWN = {x.strip() for x in fh if x.strip()}
    return KNOWN


def loc(new, old):
    for x in ast.walk(new):
        if 'lineno' in getattr(x, '_attributes', ()) and \
                not hasattr(x, 'lineno'):
            ast.copy_location(x, old)
    return new


def blocks(n):
    """The statement lists of one node."""
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b
    for h in getattr(n, 'handlers', ()):
        yield 'body', h.body


def setblock(n, f, b, new):
    if getattr(n, f, None) is b:
        setattr(n, f, new)
        return
    for h in getattr(n, 'handlers', ()):
        if h.body is b:
            h.body = new


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def stored(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def loads(n, name):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name)
            and x.id == name and isinstance(x.ctx, ast.Load)]


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


class Rename(ast.NodeTransformer):
    def __init__(self, m, sub):
        self.m, self.sub = m, sub

    def visit_Name(self, n):
        if n.id in self.sub and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.sub[n.id]), n)
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.m:
            n.name = self.m[n.name]
        self.generic_visit(n)
        return n


# ------------------------------------------------------------------- helpers
class Helper:
    def __init__(self, node, cls, modname):
        self.node, self.cls = node, cls
        self.name = node.name
        self.qual = '.'.join([modname] + ([cls.name] if cls else [])
                             + [node.name])
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static = decs == ['staticmethod']
        a = node.args
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        self.body = body
        m = ast.Module(body, [])
        self.gen = has(m, ast.Yield, ast.YieldFrom)
        self.ok = (not decs or self.static) and not a.vararg and \
            not a.kwarg and not a.posonlyargs and bool(body) and not has(
                m, ast.Global, ast.Nonlocal, ast.Await,
                ast.Import, ast.ImportFrom, *FN, ast.ClassDef,
                ast.NamedExpr) and not isinstance(
                    node, ast.AsyncFunctionDef) and not any(
                isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id in (
                        'super', 'locals', 'vars') for x in ast.walk(m)) \
            and not self.calls_itself(m) and not lambda_params(m) & (
                stored(m) | set(params(node)))

    def calls_itself(self, m):
        for x in ast.walk(m):
            if isinstance(x, ast.Name) and x.id == self.name or \
                    isinstance(x, ast.Attribute) and x.attr == self.name:
                return True
        return False

    def match(self, call, caller, ccls):
        """Parameter -> argument of a call of this helper, else None."""
        f = call.func
        recv = None
        if self.cls is None:
            if not (isinstance(f, ast.Name) and f.id == self.name):
                return None
        else:
            if not (isinstance(f, ast.Attribute) and f.attr == self.name
                    and isinstance(f.value, ast.Name)):
                return None
            first = params(caller)[:1] if ccls is self.cls else []
            if f.value.id == self.cls.name and self.static:
                pass
            elif [f.value.id] == first:
                recv = f.value
            else:
                return None
        a = self.node.args
        ps = [x.arg for x in a.args]
        pos = list(call.args)
        if self.cls is not None and not self.static:
            if recv is None:
                return None
            pos = [recv] + pos
        if any(isinstance(x, ast.Starred) for x in pos) or any(
                k.arg is None for k in call.keywords) or len(pos) > len(ps):
            return None
        out = dict(zip(ps, pos))
        kwo = [x.arg for x in a.kwonlyargs]
        for k in call.keywords:
            if k.arg in out or k.arg not in ps + kwo:
                return None
            out[k.arg] = k.value
        dflt = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        dflt.update({k: d for k, d in zip(kwo, a.kw_defaults)
                     if d is not None})
        for p in ps + kwo:
            if p not in out:
                if not isinstance(dflt.get(p), ast.Constant):
                    return None
                out[p] = dflt[p]
        return out


def lambda_params(m):
    return {a for x in ast.walk(m) if isinstance(x, ast.Lambda)
            for a in params(x)}


def inloop(body, make):
    """The body of a loop with every return replaced by make and break; None
    if there is a return in a nested loop, with or try."""
    out = []
    for s in body:
        if isinstance(s, ast.Return):
            return out + make(s) + [loc(ast.Break(), s)]
        if has(s, ast.Return):
            if not isinstance(s, ast.If):
                return None
            a, b = inloop(s.body, make), inloop(s.orelse, make)
            if a is None or b is None:
                return None
            s.body, s.orelse = a, b
        out.append(s)
    return out


def own_break(lp):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Break):
                return True
            if isinstance(c, (ast.For, ast.While) + SCOPE):
                continue
            if go(c):
                return True
        return False
    return any(isinstance(x, ast.Break) or not isinstance(
        x, (ast.For, ast.While)) and go(x) for x in lp.body)


def tail(body, make):
    """The statements with every return replaced by make(value); None if a
    return is not in tail position.  -> (statements, always returns)"""
    out = []
    for k, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + make(s), True
        if not has(s, ast.Return):
            out.append(s)
            if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
                return out, True
            continue
        if isinstance(s, ast.If):
            a = tail(s.body, make)
            b = tail(s.orelse, make)
            if a is None or b is None:
                return None
            rest = body[k + 1:]
            sa, da = a
            sb, db = b
            if not da and not db:
                return None            # returns in part of the branch only
            if da and db:
                s.body, s.orelse = sa, sb
                return out + [s], True
            r = tail(rest, make)
            if r is None:
                return None
            if da:
                s.body, s.orelse = sa, sb + r[0]
            else:
                s.body, s.orelse = sa + r[0], sb
            if not s.body:
                s.body = [loc(ast.Pass(), s)]
            return out + [s], r[1]
        if isinstance(s, (ast.For, ast.While)) and not s.orelse and \
                not own_break(s):
            # for-else: what follows is done unless something was returned
            a = inloop(s.body, make)
            r = tail(body[k + 1:], make)
            if a is None or r is None:
                return None
            s.body, s.orelse = a, r[0]
            return out + [s], r[1]
        if isinstance(s, ast.With) and not body[k + 1:]:
            a = tail(s.body, make)
            if a is None:
                return None
            s.body = a[0]
            return out + [s], a[1]
        return None
    return out, False


def relocate(body, at, step):
    """The statements get (fractional) line numbers after that of the call,
    so that positions still tell the order."""
    n = [0]

    def go(x):
        if isinstance(x, (ast.stmt, ast.excepthandler)):
            n[0] += 1
        here = at.lineno + n[0] * step
        if hasattr(x, 'lineno'):
            x.lineno = here
        for c in ast.iter_child_nodes(x):
            go(c)
        if hasattr(x, 'end_lineno'):
            x.end_lineno = at.lineno + n[0] * step
    for s in body:
        go(s)
    for x in [at]:
        if getattr(x, 'end_lineno', None) is not None:
            x.end_lineno = max(x.end_lineno, at.lineno + n[0] * step)


class Inliner:
    def __init__(self, tree, modname, others):
        self.tree, self.mod, self.others = tree, modname, others
        self.k = 0
        self.done = set()

    def helpers(self):
        out = []
        for s in self.tree.body:
            if isinstance(s, FN):
                out.append(Helper(s, None, self.mod))
            elif isinstance(s, ast.ClassDef):
                out += [Helper(x, s, self.mod) for x in s.body
                        if isinstance(x, FN)]
        return [h for h in out if h.ok and h.qual not in known()
                and not h.name.startswith('__')]

    def run(self):
        for depth in range(5):
            self.step = 1e-4 * 1e-2 ** depth
            hs = self.helpers()
            if not hs:
                return
            self.by = {}
            for h in hs:
                self.by.setdefault(h.name, []).append(h)
            self.n = 0
            for s in self.tree.body:
                if isinstance(s, FN):
                    self.func(s, None)
                elif isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, FN):
                            self.func(x, s)
            self.drop(hs)
            if not self.n:
                return

    def drop(self, hs):
        """Remove helpers that nobody refers to any more."""
        for h in hs:
            own = {id(x) for x in ast.walk(h.node)}
            used = False
            for x in ast.walk(self.tree):
                if id(x) in own:
                    continue
                if isinstance(x, ast.Name) and x.id == h.name or \
                        isinstance(x, ast.Attribute) and \
                        x.attr == h.name or isinstance(
                            x, ast.Constant) and x.value == h.name:
                    used = True
                    break
            if used or h.qual not in self.done or any(
                    re.search(r'\b%s\b' % re.escape(h.name), o)
                    for o in self.others):
                continue
            home = h.cls.body if h.cls is not None else self.tree.body
            home.remove(h.node)
            if not home:
                home.append(ast.Pass())

    def func(self, fn, cls):
        self.fn, self.cls = fn, cls
        self.walk(fn)

    def walk(self, n):
        for f, b in list(blocks(n)):
            new = []
            for s in b:
                new += self.stmt(s)
            setblock(n, f, b, new)
            for s in new:
                if not isinstance(s, SCOPE):
                    self.walk(s)

    def find(self, call):
        for h in self.by.get(
                call.func.id if isinstance(call.func, ast.Name) else
                call.func.attr if isinstance(call.func, ast.Attribute)
                else None, ()):
            if h.node is self.fn:
                continue
            m = h.match(call, self.fn, self.cls)
            if m is not None:
                return h, m
        return None

    def stmt(self, s):
        """Statements in place of s."""
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and \
                isinstance(v, ast.Call):
            got = self.find(v)
            if got:
                r = self.splice(s, *got)
                if r is not None:
                    self.n += 1
                    self.done.add(got[0].qual)
                    return r
        if isinstance(s, ast.Expr) and isinstance(v, ast.YieldFrom) and \
                isinstance(v.value, ast.Call):
            got = self.find(v.value)
            if got and got[0].gen:
                r = self.splice(s, *got)
                if r is not None:
                    self.n += 1
                    self.done.add(got[0].qual)
                    return r
        # a call inside of an expression
        pre = []
        for x, setter, free in spots(s, True):
            if not isinstance(x, ast.Call):
                continue
            got = self.find(x)
            if not got or got[0].gen:
                continue
            h, m = got
            e = self.expr(h, m, x)
            if e is not None:
                setter(loc(e, x))
                self.n += 1
                self.done.add(h.qual)
            elif free:
                self.k += 1
                t = '_h%d_' % self.k
                a = loc(ast.Assign([ast.Name(t, ast.Store())], x), x)
                r = self.splice(a, h, m)
                if r is not None:
                    setter(ast.copy_location(ast.Name(t, ast.Load()), x))
                    pre += r
                    self.n += 1
                    self.done.add(h.qual)
                    break
        return pre + [s]

    def expr(self, h, m, call):
        """A helper that only returns an expression."""
        if len(h.body) != 1 or not isinstance(h.body[0], ast.Return) or \
                h.body[0].value is None:
            return None
        e = copy.deepcopy(h.body[0].value)
        relocate([ast.Expr(e)], call, 0)
        st = stored(e)
        for p, a in m.items():
            if p in st:
                return None
            if not atomic(a) and len(loads(e, p)) > 1:
                return None
            if {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} & st:
                return None
        return Rename({}, m).visit(e)

    def splice(self, s, h, m):
        body = copy.deepcopy(h.body)
        relocate(body, s, self.step)
        mod = ast.Module(body, [])
        st = stored(mod)
        ps = set(params(h.node))
        self.k += 1
        ren = {x: '%s__h%d' % (x, self.k) for x in st}
        sub, pre = {}, []
        outs = None
        tgt = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            tgt = [t.id] if isinstance(t, ast.Name) else [
                x.id for x in t.elts] if isinstance(
                    t, ast.Tuple) and all(isinstance(
                        x, ast.Name) for x in t.elts) else None
        last = body[-1]
        if tgt and isinstance(last, ast.Return) and last.value is not None \
                and not any(has(x, ast.Return) for x in body[:-1]):
            v = last.value
            r = [v.id] if isinstance(v, ast.Name) else [
                x.id for x in v.elts] if isinstance(
                    v, ast.Tuple) and all(isinstance(
                        x, ast.Name) for x in v.elts) else None
            if r and len(r) == len(tgt) and len(set(r)) == len(r) and len(
                    set(tgt)) == len(tgt):
                outs = dict(zip(r, tgt))
                for a, x in outs.items():
                    if a in ps:
                        if not (isinstance(m[a], ast.Name)
                                and m[a].id == x):
                            outs = None
                            break
                    elif a not in st:
                        outs = None
                        break
                    # the target must not be read through another parameter
                    elif any(isinstance(y, ast.Name) and y.id == x
                             for p, b in m.items() for y in ast.walk(b)):
                        outs = None
                        break
        if outs:
            for a, x in outs.items():
                ren[a] = x
            for p, b in m.items():
                if p not in outs and any(
                        isinstance(y, ast.Name) and y.id in outs.values()
                        for y in ast.walk(b)):
                    # the same object under two names
                    outs = None
                    break
            if outs is None:
                ren = {x: '%s__h%d' % (x, self.k) for x in st}
        for p, a in m.items():
            if outs and p in outs:
                continue
            if p not in st and (isinstance(a, (
                    ast.Name, ast.Constant)) or atomic(a) and not rebinds(
                        mod, a)):
                sub[p] = a
            else:
                nm = '%s__h%d' % (p, self.k)
                ren[p] = nm
                pre.append(loc(ast.Assign([ast.Name(nm, ast.Store())],
                                          copy.deepcopy(a)), s))
        mod = Rename(ren, sub).visit(mod)
        body = mod.body
        if isinstance(s, ast.Return):
            if h.gen:
                return None
            if falls(body):
                body = body + [loc(ast.Return(ast.Constant(None)), s)]
            return pre + body
        if h.gen and not (isinstance(s, ast.Expr) and isinstance(
                s.value, ast.YieldFrom)):
            return None
        if outs:
            return pre + body[:-1]

        def make(r):
            v = r.value if r.value is not None else ast.Constant(None)
            if isinstance(s, ast.Expr):
                if isinstance(v, (ast.Constant, ast.Name)):
                    return []
                return [loc(ast.Expr(v), r)]
            n = copy.copy(s)
            n.value = v
            n.targets = copy.deepcopy(s.targets)
            return [loc(n, r)]
        if isinstance(s, ast.Assign) and falls(body):
            body = body + [loc(ast.Return(ast.Constant(None)), s)]
        r = tail(body, make)
        if r is None:
            return None
        out, _ = r
        return pre + (out or [loc(ast.Pass(), s)])


def falls(body):
    if not body:
        return True
    x = body[-1]
    if isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return False
    if isinstance(x, ast.If):
        return falls(x.body) or falls(x.orelse)
    if isinstance(x, ast.With):
        return falls(x.body)
    return True


def rebinds(m, a):
    """The code gives another value to an attribute on the way to a."""
    names = set()
    while isinstance(a, ast.Attribute):
        names.add(a.attr)
        a = a.value
    return any(isinstance(x, ast.Attribute) and x.attr in names and
               not isinstance(x.ctx, ast.Load) for x in ast.walk(m))


def atomic(a):
    while isinstance(a, ast.Attribute):
        a = a.value
    return isinstance(a, (ast.Name, ast.Constant))


def quiet(n):
    """Evaluating the expression calls nothing."""
    return not has(n, ast.Call, ast.Await, ast.Yield, ast.YieldFrom)


def spots(s, repeated=False):
    """(expression, setter, evaluated once and before any other call) of the
    expressions a statement evaluates itself, in order of evaluation."""
    out = []

    def go(n, f, k, free):
        x = getattr(n, f) if k is None else getattr(n, f)[k]

        def setter(v, n=n, f=f, k=k):
            if k is None:
                setattr(n, f, v)
            else:
                getattr(n, f)[k] = v
        if not isinstance(x, ast.AST):
            return free
        pos = len(out)
        out.append(None)
        inner = free
        if isinstance(x, (ast.Lambda,) + FN):
            pass
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                            ast.DictComp)):
            inner = go(x.generators[0], 'iter', None, free)
            for m, g in enumerate(x.generators):
                if m:
                    go(g, 'iter', None, False)
                for j in range(len(g.ifs)):
                    go(g, 'ifs', j, False)
            if isinstance(x, ast.DictComp):
                go(x, 'key', None, False)
                go(x, 'value', None, False)
            else:
                go(x, 'elt', None, False)
            if not quiet(x):
                inner = False
        elif isinstance(x, ast.BoolOp):
            for j in range(len(x.values)):
                r = go(x, 'values', j, inner and not j)
                if not j:
                    inner = r
                elif not quiet(x.values[j]):
                    inner = False
        elif isinstance(x, ast.IfExp):
            inner = go(x, 'test', None, inner)
            go(x, 'body', None, False)
            go(x, 'orelse', None, False)
            if not quiet(x.body) or not quiet(x.orelse):
                inner = False
        elif isinstance(x, ast.keyword):
            inner = go(x, 'value', None, inner)
        else:
            for fld, val in ast.iter_fields(x):
                if isinstance(val, list):
                    for j, y in enumerate(val):
                        if isinstance(y, ast.AST):
                            inner = go(x, fld, j, inner)
                elif isinstance(val, ast.AST) and not isinstance(
                        val, (ast.expr_context, ast.operator, ast.cmpop,
                              ast.unaryop, ast.boolop)):
                    inner = go(x, fld, None, inner)
        out[pos] = (x, setter, inner)
        if isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom)):
            return False
        return inner
    if isinstance(s, (ast.Return, ast.Expr, ast.AnnAssign)):
        if s.value is not None:
            go(s, 'value', None, True)
    elif isinstance(s, ast.Assign):
        f = go(s, 'value', None, True)
        for j in range(len(s.targets)):
            f = go(s, 'targets', j, f)
    elif isinstance(s, ast.AugAssign):
        f = True
        if not isinstance(s.target, ast.Name):
            f = go(s, 'target', None, True)
        go(s, 'value', None, f)
    elif isinstance(s, (ast.If, ast.Assert)):
        go(s, 'test', None, True)
    elif isinstance(s, ast.For):
        go(s, 'iter', None, True)
    elif isinstance(s, ast.While) and repeated:
        go(s, 'test', None, False)
    elif isinstance(s, ast.Raise):
        if s.exc is not None:
            go(s, 'exc', None, True)
    elif isinstance(s, ast.With):
        f = True
        for j, it in enumerate(s.items):
            f = go(it, 'context_expr', None, f)
            break
    return [x for x in out if x is not None]


# --------------------------------------------------------------------- temps
def temps(fn):
    """Temporaries used once, in the next statement, are put there."""
    count = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            c = count.setdefault(x.id, [0, 0])
            c[0 if isinstance(x.ctx, ast.Load) else 1] += 1
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for y in x.names:
                count[y] = [9, 9]
        elif isinstance(x, ast.ExceptHandler) and x.name:
            count[x.name] = [9, 9]
        elif isinstance(x, ast.AugAssign) and isinstance(
                x.target, ast.Name):
            count.setdefault(x.target.id, [0, 0])[1] += 9
    for p in params(fn):
        count[p] = [9, 9]

    def cand(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Name) and count.get(
                s.targets[0].id) == [1, 1] and not has(
                    s.value, ast.Yield, ast.YieldFrom, ast.Await,
                    ast.NamedExpr) and not isinstance(s.value, ast.IfExp)

    def block(b):
        k = len(b) - 2
        b = list(b)
        while k >= 0:
            if k < len(b) - 1 and cand(b[k]):
                nm = b[k].targets[0].id
                v = b[k].value
                for x, setter, free in spots(b[k + 1]):
                    if isinstance(x, ast.Name) and x.id == nm and \
                            isinstance(x.ctx, ast.Load):
                        if free or quiet(v) and once(b[k + 1], x) and \
                                steady(v):
                            setter(v)
                            del b[k]
                        break
            k -= 1
        return b

    def walk(n):
        for f, b in list(blocks(n)):
            for s in b:
                if not isinstance(s, SCOPE):
                    walk(s)
            setblock(n, f, b, block(b))
    walk(fn)


def steady(v):
    """Only names, constants and operators: calls do not change it."""
    return not has(v, ast.Attribute, ast.Subscript, ast.ListComp,
                   ast.GeneratorExp, ast.SetComp, ast.DictComp)


def once(s, x):
    """x is not inside of a comprehension or a lambda of s."""
    for c in ast.walk(s):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp, ast.Lambda)) and any(
                              y is x for y in ast.walk(c)):
            return False
    return True


# --------------------------------------------------------------------- loops
def loops(fn):
    def uses(name, inside=None):
        skip = {id(x) for x in ast.walk(inside)} if inside is not None \
            else ()
        return [x for x in ast.walk(fn) if isinstance(x, ast.Name)
                and x.id == name and id(x) not in skip]

    def block(b):
        out = []
        for s in b:
            s = counted(s, out) or s
            s = nexted(s, out) or s
            if isinstance(s, ast.For):
                elements(s, out)
            out.append(s)
        return out

    def counted(s, out):
        """i = 0; while i < len(x): ..; i += 1"""
        if not (isinstance(s, ast.While) and not s.orelse and isinstance(
                s.test, ast.Compare) and len(s.test.ops) == 1):
            return None
        a, op, c = s.test.left, s.test.ops[0], s.test.comparators[0]
        if isinstance(op, ast.Gt):
            a, c, op = c, a, ast.Lt()
        if not (isinstance(op, ast.Lt) and isinstance(a, ast.Name)):
            return None
        i = a.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(
                last.target, ast.Name) and last.target.id == i and
                isinstance(last.op, ast.Add) and isinstance(
                    last.value, ast.Constant) and last.value.value == 1):
            return None
        if i in stored(ast.Module(s.body[:-1], [])) or own_continue(s):
            return None
        init = None
        for k in range(len(out) - 1, -1, -1):
            x = out[k]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and \
                    x.targets[0].id == i:
                if isinstance(x.value, ast.Constant) and \
                        x.value.value == 0:
                    init = k
                break
            if any(isinstance(y, ast.Name) and y.id == i
                   for y in ast.walk(x)):
                break
        if init is None:
            return None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id == 'len' and len(c.args) == 1:
            if grows(s, c.args[0]):
                return None
        elif isinstance(c, (ast.Name, ast.Constant)):
            if isinstance(c, ast.Name) and c.id in stored(s):
                return None
        else:
            return None
        if len(uses(i, s)) > 1:
            return None
        if not s.body[:-1]:
            return None
        del out[init]
        return loc(ast.For(ast.Name(i, ast.Store()), ast.Call(
            ast.Name('range', ast.Load()), [c], []), s.body[:-1], []), s)

    def nexted(s, out):
        """it = iter(x); while True: try: a = next(it) except .. break"""
        if not (isinstance(s, ast.While) and not s.orelse and isinstance(
                s.test, ast.Constant) and s.test.value and isinstance(
                    s.body[0], ast.Try) and out):
            return None
        t = s.body[0]
        if t.orelse or t.finalbody or len(t.handlers) != 1 or \
                len(t.body) != 1 or not isinstance(t.body[0], ast.Assign):
            return None
        h = t.handlers[0]
        v = t.body[0].value
        if h.type is None or ast.unparse(h.type) != 'StopIteration' or \
                len(h.body) != 1 or not isinstance(h.body[0], ast.Break):
            return None
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                and v.func.id == 'next' and len(v.args) == 1
                and isinstance(v.args[0], ast.Name)):
            return None
        it = v.args[0].id
        x = out[-1]
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and
                isinstance(x.targets[0], ast.Name)
                and x.targets[0].id == it and isinstance(
                    x.value, ast.Call) and isinstance(
                        x.value.func, ast.Name) and x.value.func.id ==
                'iter' and len(x.value.args) == 1) or len(
                    uses(it)) != 2 or len(s.body) < 2 or len(
                        t.body[0].targets) != 1:
            return None
        out.pop()
        return loc(ast.For(t.body[0].targets[0], x.value.args[0],
                           s.body[1:], []), s)

    def elements(s, out):
        v = s.iter
        # an index that nobody looks at
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'enumerate' and len(v.args) == 1 and \
                not v.keywords and isinstance(s.target, ast.Tuple) and len(
                    s.target.elts) == 2 and isinstance(
                        s.target.elts[0], ast.Name):
            nm = s.target.elts[0].id
            if not [x for x in uses(nm) if isinstance(x.ctx, ast.Load)]:
                s.iter, s.target = v.args[0], s.target.elts[1]
            return
        # for i in range(len(x)): a = x[i]
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                and v.func.id == 'range' and len(v.args) == 1
                and isinstance(s.target, ast.Name)):
            return
        ln = v.args[0]
        if not (isinstance(ln, ast.Call) and isinstance(ln.func, ast.Name)
                and ln.func.id == 'len' and len(ln.args) == 1):
            return
        x = ln.args[0]
        i = s.target.id
        f = s.body[0]
        if not atomic(x) or len(s.body) < 2 or not (
                isinstance(f, ast.Assign) and len(f.targets) == 1
                and isinstance(f.targets[0], (ast.Name, ast.Tuple)) and
                isinstance(f.value, ast.Subscript) and isinstance(
                    f.value.slice, ast.Name) and f.value.slice.id == i
                and ast.dump(f.value.value) == ast.dump(x)):
            return
        rest = ast.Module(s.body[1:], [])
        if i in stored(ast.Module(s.body, [])) or grows(s, x):
            return
        ld = loads(rest, i)
        src = x
        if isinstance(x, ast.Name) and out and isinstance(
                out[-1], ast.Assign) and len(
                    out[-1].targets) == 1 and isinstance(
                        out[-1].targets[0], ast.Name) and \
                out[-1].targets[0].id == x.id and isinstance(
                    out[-1].value, ast.Call) and isinstance(
                        out[-1].value.func, ast.Name) and \
                out[-1].value.func.id in ('list', 'tuple') and len(
                    out[-1].value.args) == 1 and len(uses(x.id)) == 3:
            src = out.pop().value.args[0]
        if not ld and not [y for y in uses(i, s)
                           if isinstance(y.ctx, ast.Load)]:
            s.target, s.iter = f.targets[0], src
        else:
            s.target = loc(ast.Tuple([s.target, f.targets[0]],
                                     ast.Store()), s)
            s.iter = loc(ast.Call(ast.Name('enumerate', ast.Load()),
                                  [src], []), v)
        s.body = s.body[1:]

    def walk(n):
        for f, b in list(blocks(n)):
            for s in b:
                if not isinstance(s, SCOPE):
                    walk(s)
            setblock(n, f, b, block(b))
    walk(fn)


def own_continue(lp):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Continue):
                return True
            if isinstance(c, (ast.For, ast.While) + SCOPE):
                continue
            if go(c):
                return True
        return False
    return go(lp)


def grows(lp, x):
    """The loop may change which elements x has."""
    d = ast.dump(x)
    rootn = x
    while isinstance(rootn, ast.Attribute):
        rootn = rootn.value
    if isinstance(rootn, ast.Name) and rootn.id in stored(
            ast.Module(lp.body, [])):
        return True
    for n in ast.walk(ast.Module(lp.body, [])):
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                'append', 'extend', 'insert', 'pop', 'remove', 'clear',
                'sort', 'reverse', 'update', 'add', 'discard') and ast.dump(
                    n.func.value) == d:
            return True
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            y = n.value if isinstance(n, ast.Subscript) else n
            if ast.dump(y).replace('Store()', 'Load()') == d:
                return True
    return False


# ---------------------------------------------------------------- conditions
def plain(n):
    """Names, attributes and constant items: may be evaluated twice."""
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        if isinstance(n, ast.Subscript):
            k = n.slice
            if isinstance(k, ast.UnaryOp):
                k = k.operand
            if not isinstance(k, (ast.Constant, ast.Name)):
                return False
        n = n.value
    return isinstance(n, (ast.Name, ast.Constant))


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.value)
        return n


def table(n):
    return isinstance(n, (ast.Tuple, ast.List)) and all(
        isinstance(x, ast.Constant) for x in n.elts) and \
        0 < len(n.elts) < 13


def tables(n):
    """Names that are only ever a tuple of constants."""
    out, num = {}, {}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            num[x.id] = num.get(x.id, 0) + 1
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name) and isinstance(
                x.value, ast.Tuple) and table(x.value):
            out[x.targets[0].id] = x.value
    return {k: v for k, v in out.items() if num[k] == 1}


class Conds(ast.NodeTransformer):
    def __init__(self):
        self.tables = [{}]

    def visit_FunctionDef(self, n):
        self.tables.append(dict(self.tables[-1], **tables(n)))
        self.generic_visit(n)
        self.tables.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Module(self, n):
        used = {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}
        top = {t.id for x in n.body if isinstance(x, ast.Assign)
               for t in x.targets if isinstance(t, ast.Name)}
        self.tables = [{k: v for k, v in tables(n).items()
                        if k in top and k not in used}]
        self.generic_visit(n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        # a < b < c is a < b and b < c
        mid = n.comparators[:-1]
        if not mid or not all(plain(m) for m in mid):
            return n
        ls = [n.left] + mid
        return loc(ast.BoolOp(ast.And(), [
            loc(ast.Compare(copy.deepcopy(a), [o], [b]), n)
            for a, o, b in zip(ls, n.ops, n.comparators)]), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        # {k: f(k) for k in ('a', 'b')} is {'a': f('a'), 'b': f('b')}
        g = n.generators[0]
        it = g.iter
        if isinstance(it, ast.Name):
            it = self.tables[-1].get(it.id, it)
        if len(n.generators) > 1 or g.ifs or not isinstance(
                g.target, ast.Name) or not table(it):
            return n
        ks, vs = [], []
        for x in it.elts:
            put = Put(g.target.id, x)
            ks.append(put.visit(copy.deepcopy(n.key)))
            vs.append(put.visit(copy.deepcopy(n.value)))
        return loc(ast.Dict(ks, vs), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        # {f(x) for x in y} is set([f(x) for x in y])
        c = loc(ast.ListComp(elt=n.elt, generators=n.generators), n)
        return loc(ast.Call(func=loc(ast.Name('set', ast.Load()), n),
                            args=[c], keywords=[]), n)

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Pass) and n.orelse:
            n.test = loc(ast.UnaryOp(ast.Not(), n.test), n.test)
            n.body, n.orelse = n.orelse, []
        while not n.orelse and len(n.body) == 1 and isinstance(
                n.body[0], ast.If) and not n.body[0].orelse:
            m = n.body[0]
            vals = []
            for t in (n.test, m.test):
                vals += t.values if isinstance(
                    t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
            n.test = loc(ast.BoolOp(ast.And(), vals), n)
            n.body = m.body
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and \
                not n.args and n.keywords and all(
                    k.arg for k in n.keywords):
            return ast.copy_location(ast.Dict(
                [ast.copy_location(ast.Constant(k.arg), n)
                 for k in n.keywords], [k.value for k in n.keywords]), n)
        if isinstance(n.func, ast.Name) and n.func.id in (
                'map', 'filter') and len(n.args) == 2 and not n.keywords \
                and isinstance(n.args[0], ast.Lambda) and not isinstance(
                    n.args[1], ast.Starred):
            # map(lambda x: f(x), y) is (f(x) for x in y)
            a = n.args[0].args
            if len(a.args) == 1 and not (
                    a.posonlyargs or a.vararg or a.kwonlyargs or a.kwarg
                    or a.defaults):
                v = a.args[0].arg
                body = n.args[0].body
                m = n.func.id == 'map'
                return loc(ast.GeneratorExp(
                    body if m else loc(ast.Name(v, ast.Load()), n),
                    [ast.comprehension(
                        loc(ast.Name(v, ast.Store()), n), n.args[1],
                        [] if m else [body], 0)]), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'map' and len(
                n.args) == 2 and not n.keywords and isinstance(
                    n.args[0], (ast.Name, ast.Attribute)) and not isinstance(
                        n.args[1], ast.Starred):
            # map(f, y) is (f(x) for x in y)
            x = '_map_%d' % n.lineno
            return loc(ast.GeneratorExp(
                loc(ast.Call(n.args[0], [loc(ast.Name(x, ast.Load()), n)],
                             []), n),
                [ast.comprehension(loc(ast.Name(x, ast.Store()), n),
                                   n.args[1], [], 0)]), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' \
                and isinstance(n.func.value, ast.Constant) and isinstance(
                    n.func.value.value, str):
            return fstring(n) or n
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(
                n.operand, ast.Compare) and len(
                    n.operand.ops) == 1 and isinstance(
                n.operand.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            c = n.operand
            inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is,
                   ast.In: ast.NotIn, ast.NotIn: ast.In}
            return ast.copy_location(ast.Compare(
                c.left, [inv[type(c.ops[0])]()], c.comparators), n)
        return n


def fstring(n):
    """'..{}..'.format(x) -> f'..{x}..'"""
    if any(isinstance(a, ast.Starred) for a in n.args) or any(
            k.arg is None for k in n.keywords):
        return None
    kw = {k.arg: k.value for k in n.keywords}
    out, k = [], 0
    seen = set()
    try:
        parts = list(string.Formatter().parse(n.func.value.value))
    except ValueError:
        return None
    for lit, name, spec, conv in parts:
        if lit:
            out.append(ast.Constant(lit))
        if name is None:
            continue
        if spec and ('{' in spec):
            return None
        if name == '':
            key, k = k, k + 1
        elif name.isdigit():
            key = int(name)
        else:
            key = name
        if key in seen:
            return None
        seen.add(key)
        if isinstance(key, int):
            if key >= len(n.args):
                return None
            v = n.args[key]
        elif key in kw:
            v = kw[key]
        else:
            return None
        out.append(ast.FormattedValue(
            v, ord(conv) if conv else -1, ast.JoinedStr(
                [ast.Constant(spec)]) if spec else None))
    return loc(ast.JoinedStr(out), n)


def choices(fn):
    """x = a if c else b -> if c: x = a else: x = b"""
    def walk(n):
        for f, b in list(blocks(n)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(
                        s.value, ast.IfExp) and all(
                            isinstance(t, ast.Name) for t in s.targets):
                    v = s.value
                    y = copy.deepcopy(s)
                    s.value, y.value = v.body, v.orelse
                    s = loc(ast.If(v.test, [s], [y]), s)
                elif isinstance(s, ast.Return) and isinstance(
                        s.value, ast.IfExp):
                    v = s.value
                    y = copy.copy(s)
                    y.value, s.value = v.orelse, v.body
                    out.append(loc(ast.If(v.test, [s], []), s))
                    s = y
                out.append(s)
            setblock(n, f, b, out)
            for s in out:
                if not isinstance(s, SCOPE):
                    walk(s)
    walk(fn)


def picked(fn):
    """if c: x = A else: x = B; x[k] = v -> if c: A[k] = v else: B[k] = v
    (A, B names, x not used elsewhere)"""
    def walk(n):
        for f, b in list(blocks(n)):
            out = []
            for s in b:
                p = out[-1] if out else None
                if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(
                        p, ast.If) and len(p.body) == len(p.orelse) == 1:
                    y, z = p.body[0], p.orelse[0]
                    if all(isinstance(a, ast.Assign) and isinstance(
                            a.value, ast.Name) and len(a.targets) == 1
                            and isinstance(a.targets[0], ast.Name)
                            for a in (y, z)):
                        x = y.targets[0].id
                        base = s.targets[0] if isinstance(
                            s, ast.Assign) and len(s.targets) == 1 \
                            else s.value.func if isinstance(
                                s.value, ast.Call) else None
                        if z.targets[0].id == x and isinstance(
                                base, (ast.Subscript, ast.Attribute)) and \
                                isinstance(base.value, ast.Name) and \
                                base.value.id == x and \
                                len(loads(fn, x)) == 1:
                            t = copy.deepcopy(s)
                            for r, w in ((p.body, s), (p.orelse, t)):
                                b2 = w.targets[0] if isinstance(
                                    w, ast.Assign) else w.value.func
                                b2.value = loc(ast.Name(
                                    r[0].value.id, ast.Load()), b2.value)
                                r[0] = w
                            continue
                out.append(s)
            setblock(n, f, b, out)
            for s in out:
                if not isinstance(s, SCOPE):
                    walk(s)
    walk(fn)


def unelse(n):
    """if c: .. raise else: B -> if c: .. raise; B"""
    for f, b in list(blocks(n)):
        for s in b:
            if not isinstance(s, SCOPE):
                unelse(s)
        out = []
        for s in b:
            out.append(s)
            while isinstance(s, ast.If) and s.orelse and isinstance(
                    s.body[-1], (ast.Raise, ast.Return)):
                rest, s.orelse = s.orelse, []
                out += rest
                s = rest[-1]
        setblock(n, f, b, out)


def functions(tree):
    for s in tree.body:
        if isinstance(s, FN):
            yield s
        elif isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, FN):
                    yield x


def normalise(tree, modname, others=()):
    if os.environ.get('SA_RAW'):
        return tree
    if not os.environ.get('SA_NOINLINE'):
        Inliner(tree, modname, others).run()
    Conds().visit(tree)
    for fn in functions(tree):
        unelse(fn)
        choices(fn)
        picked(fn)
    for _ in range(2):
        for fn in functions(tree):
            loops(fn)
            temps(fn)
    Conds().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
