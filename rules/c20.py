"""C20: text from files or options is never executed (sink analysis).

Every reference to a code-executing or unpickling facility in the package is
found through imports, aliases, builtins and getattr with a constant name; a
call is accepted only when its text is a literal of the source itself.
"""
import ast
from sa.project import AnalysisBroken

SINKS = {
    'eval', 'exec', 'compile', 'execfile', 'os.system', 'os.popen',
    'pickle.load', 'pickle.loads', 'pickle.Unpickler', 'dill.load',
    'dill.loads', 'cloudpickle.load', 'cloudpickle.loads', 'joblib.load',
    'marshal.load', 'marshal.loads', 'shelve.open', 'pandas.read_pickle',
    'pandas.eval', 'numexpr.evaluate', 'sympy.sympify', 'runpy.run_path',
    'runpy.run_module', 'code.interact', 'code.InteractiveInterpreter',
    'yaml.unsafe_load', 'yaml.unsafe_load_all', 'jsonpickle.decode',
    'subprocess.getoutput', 'subprocess.getstatusoutput', 'timeit.timeit',
    'types.FunctionType', 'types.CodeType', 'cPickle.load', 'cPickle.loads',
    '_pickle.load', '_pickle.loads', 'typing.get_type_hints', 'ctypes.CDLL',
    'importlib.util.spec_from_file_location', 'numpy.core.records.loads'}
BUILTIN = {'eval', 'exec', 'compile', 'execfile'}
PROC = {'subprocess.run', 'subprocess.call', 'subprocess.Popen',
        'subprocess.check_output', 'subprocess.check_call'}
YAML = {'yaml.load', 'yaml.load_all'}
SAFE_YAML = {'SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader',
             'FullLoader', 'CFullLoader'}


def run(ctx):
    p = ctx.p
    ctx.rule('sink', 'no code-executing or unpickling facility is applied '
             'to anything but a literal of the source')
    ctx.rule('yaml', 'yaml is loaded with a loader that builds no objects')
    ctx.rule('numpy', 'numpy files are loaded without pickle support')
    ctx.rule('import', 'a module named by text is imported and only its '
             'attribute is taken')
    calls = 0
    for m in p.modules.values():
        imports = dict(m.imports)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imports[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    imports[a.asname or a.name] = '%s.%s' % (
                        n.module, a.name)
        own = set(m.funcs) | set(m.classes)

        def dotted(e):
            if isinstance(e, ast.Name):
                if e.id in imports:
                    d = imports[e.id]
                    return d[9:] if d.startswith('builtins.') else d
                if e.id in own:
                    return None
                return e.id
            if isinstance(e, ast.Attribute):
                b = dotted(e.value)
                if b in ('builtins', '__builtins__'):
                    return e.attr
                return b and b + '.' + e.attr
            if isinstance(e, ast.Call) and e.args and isinstance(
                    e.args[0], ast.Constant) and dotted(e.func) in (
                        '__import__', 'importlib.import_module'):
                return str(e.args[0].value)
            if isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Name) and e.func.id == 'getattr' and len(
                        e.args) > 1 and isinstance(
                            e.args[1], ast.Constant):
                b = dotted(e.args[0])
                if b in ('builtins', '__builtins__'):
                    return str(e.args[1].value)
                return b and '%s.%s' % (b, e.args[1].value)
            return None

        def scope(node):
            for q in reversed(stack):
                return q
            return m.name.replace('seismic.', '')

        stack = []

        def visit(n, parent):
            nonlocal calls
            new = isinstance(n, (ast.FunctionDef, ast.ClassDef))
            if new:
                stack.append((stack[-1] if stack else m.name.replace(
                    'seismic.', '')) + '.' + n.name)
            where = '%s:%d' % (m.relpath, getattr(n, 'lineno', 0))
            if isinstance(n, ast.Call):
                calls += 1
                d = dotted(n.func)
                lit = bool(n.args) and all(isinstance(
                    a, ast.Constant) for a in n.args)
                con = '%s -> %s' % (scope(n), d)
                if d in SINKS:
                    ctx.ob('sink', con, lit and d in BUILTIN,
                           'text is executed as code or unpickled', where)
                elif d in PROC:
                    sh = [k for k in n.keywords if k.arg == 'shell'
                          and not (isinstance(k.value, ast.Constant)
                                   and not k.value.value)]
                    ctx.ob('sink', con, not sh or lit,
                           'text is given to a shell', where)
                elif d in YAML:
                    ld = [k.value for k in n.keywords if k.arg == 'Loader']
                    ld += n.args[1:2]
                    nm = (dotted(ld[0]) or '').split('.')[-1] if ld else ''
                    ctx.ob('yaml', con, nm in SAFE_YAML,
                           'loader %s may build arbitrary objects' % nm,
                           where)
                elif d in ('numpy.load', 'numpy.lib.npyio.NpzFile',
                           'numpy.lib.format.read_array'):
                    ap = [k.value for k in n.keywords
                          if k.arg == 'allow_pickle']
                    if d == 'numpy.load':
                        ap += n.args[2:3]
                    star = any(k.arg is None for k in n.keywords)
                    ctx.ob('numpy', con, not star and all(isinstance(
                        a, ast.Constant) and not a.value for a in ap),
                        'objects in the file are unpickled', where)
                elif d in ('__import__', 'importlib.import_module'):
                    # the module object may only be used by getattr
                    ctx.ob('import', con, import_use(m, n, p),
                           'the imported module is used other than by '
                           'taking an attribute', where)
                for a in list(n.args) + [k.value for k in n.keywords]:
                    da = dotted(a) if isinstance(
                        a, (ast.Name, ast.Attribute)) else None
                    if da in SINKS:
                        ctx.ob('sink', '%s -> %s passed on' % (
                            scope(n), da), False, 'a code-executing '
                            'function is passed on', where)
                if isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'set_string_function', 'read_pickle',
                        'run_line_magic'):
                    ctx.ob('sink', con + n.func.attr, False,
                           'text is executed', where)
                for k in n.keywords:
                    if k.arg == 'format' and isinstance(
                            k.value, ast.Constant) and str(
                                k.value.value).upper() == 'PICKLE':
                        ctx.ob('sink', '%s -> PICKLE' % scope(n), False,
                               'a pickle file is read', where)
            elif isinstance(n, ast.Assign) and isinstance(
                    n.value, (ast.Name, ast.Attribute)):
                d = dotted(n.value)
                if d in SINKS:
                    ctx.ob('sink', '%s -> %s kept' % (scope(n), d), False,
                           'a code-executing function is stored', where)
            elif isinstance(n, ast.Dict):
                for v in n.values:
                    d = dotted(v) if isinstance(
                        v, (ast.Name, ast.Attribute)) else None
                    if d in SINKS:
                        ctx.ob('sink', '%s -> %s kept' % (scope(n), d),
                               False, 'a code-executing function is stored',
                               where)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Attribute) and n.value.attr == \
                    '__dict__' and dotted(n.value.value) in (
                        'builtins', '__builtins__'):
                ctx.ob('sink', '%s -> builtins' % scope(n), False,
                       'a builtin is looked up by text', where)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Name) and n.value.id == '__builtins__':
                ctx.ob('sink', '%s -> builtins' % scope(n), False,
                       'a builtin is looked up by text', where)
            for c in ast.iter_child_nodes(n):
                visit(c, n)
            if new:
                stack.pop()

        visit(m.tree, None)
        ctx.ob('sink', 'module %s' % m.name, True)
    for f in p.all_funcs():
        ctx.funcs.add(f.qual)
    ctx.notes.append('%d call sites examined' % calls)
    if calls < 500:
        raise AnalysisBroken('package not found')


def import_use(m, call, p):
    """The result of __import__ is only handed to getattr or returned."""
    fn = None
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef) and any(
                n is call for n in ast.walk(f)):
            fn = f
    if fn is None:
        return False
    names = set()
    par = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            par[c] = n

    def ok(n):
        q = par.get(n)
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and \
                q.func.id in ('getattr', 'hasattr', 'vars') and \
                q.args and q.args[0] is n:
            return True
        if isinstance(q, ast.Return):
            return True
        if isinstance(q, ast.Assign) and len(q.targets) == 1 and \
                isinstance(q.targets[0], ast.Name):
            names.add(q.targets[0].id)
            return True
        if isinstance(q, ast.Attribute) and q.attr == '__dict__':
            return True
        if isinstance(q, (ast.Expr, ast.Compare, ast.BoolOp, ast.JoinedStr,
                          ast.FormattedValue)):
            return True
        return False
    if not ok(call):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names and isinstance(
                n.ctx, ast.Load) and not ok(n):
            return False
    return True
