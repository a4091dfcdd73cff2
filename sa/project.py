"""Loads the analysed source tree and resolves names.

Everything here works on the syntax trees of /repo/src/seismic as they are on
disk at the moment of the run; nothing of the analysed package is imported.
"""
import ast
import hashlib
import os
from .normal import normalise

REPO = os.environ.get('SA_REPO', '/repo')
ROOT = os.path.join(REPO, 'src')
PKG = 'seismic'


class AnalysisBroken(Exception):
    """An anchor the rules need is gone (neither pass nor violation)."""


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.outer = outer
        base = module.name + '.'
        if outer is not None:
            base = outer.qual + '.<locals>.'
        elif cls is not None:
            base = module.name + '.' + cls.name + '.'
        self.qual = base + node.name
        self.decorators = []
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(ast.unparse(t))
        self.is_static = 'staticmethod' in self.decorators
        self.is_class = 'classmethod' in self.decorators
        self.is_property = 'property' in self.decorators
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.is_gen = _is_gen(node)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.relpath, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.qual


def _is_gen(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.props = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if f.is_setter:
                    continue
                if f.is_property:
                    self.props[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None \
                    and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
        self.bases = []

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Module:
    def __init__(self, path, name, others=()):
        self.path = path
        self.name = name
        self.relpath = os.path.relpath(path, REPO)
        with open(path, 'rb') as fh:
            raw = fh.read()
        self.digest = hashlib.sha256(raw).hexdigest()[:12]
        self.source = raw.decode('utf8')
        self.tree = normalise(ast.parse(self.source, path), name, others)
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        top = a.name.split('.')[0]
                        self.imports[top] = top
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = self.name.split('.')[:-st.level]
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = mod + '.' + a.name
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Cls(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.Try, ast.If)):
                self._scan(st.body)
                self._scan(getattr(st, 'orelse', []))
                for h in getattr(st, 'handlers', []):
                    self._scan(h.body)


class Project:
    def __init__(self, root=ROOT, pkg=PKG):
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken('no package at %s' % base)
        paths, texts = [], {}
        for d, dirs, files in os.walk(base):
            dirs.sort()
            paths += [os.path.join(d, f) for f in sorted(files)
                      if f.endswith('.py')]
        for p in paths:
            with open(p, encoding='utf8', errors='replace') as fh:
                texts[p] = fh.read()
        for p in paths:
            rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            try:
                self.modules[rel] = Module(p, rel, [
                    t for q, t in texts.items() if q != p])
            except SyntaxError as e:
                raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    d = self.dotted(m, b)
                    c.bases.append(d or ast.unparse(b))
        self.digest = hashlib.sha256(''.join(
            k + m.digest for k, m in sorted(self.modules.items())).encode()
        ).hexdigest()[:16]
        self.by_qual = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self.by_qual[f.qual] = f
            for c in m.classes.values():
                self.by_qual[c.qual] = c
                for f in list(c.methods.values()) + list(c.props.values()):
                    self.by_qual[f.qual] = f

    # -- name resolution ---------------------------------------------------
    def dotted(self, module, expr):
        """Dotted name an expression denotes, following imports."""
        if isinstance(expr, ast.Name):
            n = expr.id
            if n in module.imports:
                return self.canonical(module.imports[n])
            if n in module.funcs or n in module.classes:
                return module.name + '.' + n
            return None
        if isinstance(expr, ast.Attribute):
            b = self.dotted(module, expr.value)
            return None if b is None else self.canonical(b + '.' + expr.attr)
        return None

    def canonical(self, dotted):
        """Follow re-exports inside the package."""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            mod, _, last = dotted.rpartition('.')
            m = self.modules.get(mod)
            if m is not None and last in m.imports \
                    and last not in m.funcs and last not in m.classes:
                dotted = m.imports[last]
                continue
            break
        return dotted

    def lookup(self, dotted):
        """Func, Cls or Module for a dotted name (or None)."""
        dotted = self.canonical(dotted)
        if dotted in self.by_qual:
            return self.by_qual[dotted]
        if dotted in self.modules:
            return self.modules[dotted]
        mod, _, last = dotted.rpartition('.')
        c = self.by_qual.get(mod)
        if isinstance(c, Cls):
            return self.method(c, last)
        return None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                k = self.by_qual.get(self.canonical(b))
                if isinstance(k, Cls):
                    todo.append(k)
        return out

    def external_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.bases:
                if not isinstance(self.by_qual.get(self.canonical(b)), Cls):
                    out.append(b)
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs and isinstance(c.attrs[name], ast.Name) \
                    and c.attrs[name].id in c.methods:
                return c.methods[c.attrs[name].id]
        return None

    def prop(self, cls, name):
        for c in self.mro(cls):
            if name in c.props:
                return c.props[name]
        return None

    # -- anchors -----------------------------------------------------------
    def func(self, *names, required=True):
        """First function found among dotted names; a bare name is searched
        in the whole package (a function that moved module is still found)."""
        for n in names:
            f = self.lookup('seismic.' + n if not n.startswith('seismic')
                            else n)
            if isinstance(f, Func):
                return f
        for n in names:
            last = n.split('.')
            hits = []
            for m in self.modules.values():
                if len(last) > 1 and last[-2] in m.classes:
                    k = m.classes[last[-2]]
                    if last[-1] in k.methods:
                        hits.append(k.methods[last[-1]])
                elif last[-1] in m.funcs:
                    hits.append(m.funcs[last[-1]])
            if len(hits) == 1:
                return hits[0]
        if required:
            raise AnalysisBroken('anchor function gone: %s' % ' / '.join(names))
        return None

    def cls(self, name, required=True):
        c = self.by_qual.get('seismic.' + name)
        if isinstance(c, Cls):
            return c
        last = name.split('.')[-1]
        hits = [m.classes[last] for m in self.modules.values()
                if last in m.classes]
        if len(hits) == 1:
            return hits[0]
        if required:
            raise AnalysisBroken('anchor class gone: %s' % name)
        return None

    def all_funcs(self, prefixes=None):
        for m in self.modules.values():
            if prefixes and not any(m.name.startswith('seismic.' + p)
                                    for p in prefixes):
                continue
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.props.values()):
                    yield f
