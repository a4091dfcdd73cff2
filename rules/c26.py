"""C26: reading never modifies a correlation database (effect analysis).

Query operations of the file handler are interpreted with a symbolic file;
any write, creation or deletion on the file is reported.  Every opening of a
database whose handle is only used for queries must be read-only.  Deletion
is followed to the deleted key.
"""
import ast
from sa.interp import Interp, State, Val
from sa.terms import const, show, walk
from sa.util import short, make_self
from sa.project import AnalysisBroken

WRITERS = {'add_correlation', 'add_corr_options', 'remove_data'}
H5W = {'.create_dataset', '.create_group', '.require_dataset',
       '.require_group', '.create_virtual_dataset', '.move', '.copy',
       '.resize', '.write_direct', '.modify', '.create', '.pop', '.clear',
       '.update', '.setdefault', '.create_dataset_like', '.make_scale',
       '.astype_write', '.__delitem__', '.__setitem__', '.popitem',
       '.attach_scale', '.create_external'}


def root(t):
    while True:
        if t.op in ('attr', 'item', 'elem', 'key') and t.args and hasattr(
                t.args[0], 'op'):
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr':
            t = t.args[0].args[0]
        else:
            return t


def on_file(e, rootname='self'):
    """Does the event change the file reached from the named parameter?"""
    if e.kind not in ('setitem', 'delitem', 'call') or e.recv is None:
        return False
    if e.kind == 'call' and e.name not in H5W:
        return False
    r = root(e.recv.t)
    if not (r.op == 'param' and r.args[0] == rootname):
        return False
    t = e.recv.t
    # array values read from the file are copies
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
            'keys', 'values', 'items', 'split', 'copy'):
        return t.args[0].args[1] == 'values'
    return True


def run(ctx):
    p = ctx.p
    ctx.rule('query', 'operations that query or load perform no write, '
             'creation or deletion on the file')
    ctx.rule('open', 'a database that is only queried is opened read-only')
    ctx.rule('mode', 'the requested read-only mode reaches the file')
    ctx.rule('delete', 'a deleted key is the requested path or matches the '
             'requested pattern unweakened')
    c = p.cls('DBHandler')
    for n, f in sorted(c.methods.items()):
        if n in WRITERS or n.startswith('_') or f.is_static:
            continue
        i = Interp(p)
        st = State()
        sv = i.param(st, 'self', c.qual, None)
        i.run(f, None, sv, st)
        ctx.saw(i)
        bad = [e for e in i.events if on_file(e)]
        ctx.ob('query', short(f.qual), not bad, '; '.join(sorted({
            '%s in %s' % (e.name or e.kind, short(e.func.qual))
            for e in bad})), bad[0].where() if bad else f.where())
    # module-level functions that get a file object
    m = c.module
    for n, f in sorted(m.funcs.items()):
        w = False
        for q in f.params:
            i = Interp(p)
            st = State()
            i.run(f, None, None, st)
            bad = [e for e in i.events if on_file(e, q)
                   and not local_type(f, q)]
            w = w or bool(bad)
            if n in ('convert_header_to_hdf5',):
                continue
            ctx.ob('query', '%s -> %s' % (short(f.qual), q), not bad,
                   'the file object is changed',
                   bad[0].where() if bad else f.where())
    modes(ctx, p)
    opens(ctx, p)
    delete(ctx, p, c)
    ctx.atleast('query', 3)
    ctx.atleast('open', 4)
    ctx.atleast('mode', 2)
    ctx.atleast('delete', 1)


def local_type(f, q):
    """Parameters that hold results, not file objects."""
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == q and x.annotation is not None:
            s = ast.unparse(x.annotation)
            return 'h5py' not in s and 'DBHandler' not in s
    return False


def modes(ctx, p):
    db = p.cls('CorrelationDataBase')
    init = p.method(db, '__init__')
    enter = p.method(db, '__enter__')
    no = Val(const(False))
    cases = {
        'mode r': {'mode': Val(const('r'))},
        'no options': {'corr_options': Val(const(None)), '_force': no},
    }
    runs = [(nm, args) for nm, args in cases.items() if 'mode' in args]
    runs += [(nm, dict(args, mode=Val(const(m)))) for nm, args in
             cases.items() if 'mode' not in args
             for m in ('a', 'w', 'r+', 'r')]
    for nm, args in runs:
        i = Interp(p)
        st = State()
        sv = i.param(st, 'self', db.qual, None)
        st, _ = i.run(init, args, sv, st)
        st.pc = ()
        k = len(i.events)
        i.run(enter, None, sv, st)
        ctx.saw(i)
        op = [e for e in i.events[k:] if e.kind in ('call', 'new') and (
            e.name or '').split('.')[-1] in ('__init__', 'File')
            and ('super' in (e.name or '') or 'h5py' in (e.name or ''))]
        if not op:
            raise AnalysisBroken('opening of the file not found')
        for e in op:
            mo = e.kwargs.get('mode')
            if mo is None and len(e.args) > 1:
                mo = e.args[1]
            ctx.ob('mode', '%s -> %s' % (short(db.qual), nm),
                   mo is not None and mo.t == const('r'),
                   'the file is opened with mode %s' % (
                       mo.t if mo is not None else 'default'), e.where())


def opens(ctx, p):
    db = p.cls('CorrelationDataBase')
    hd = p.cls('DBHandler')
    names = {db.name: 2, hd.name: 1, 'h5py.File': 1}
    for f in p.all_funcs():
        if f.cls in (db, hd):
            continue
        if not any(isinstance(x, ast.Call) and opener(f, x, names)
                   for x in ast.walk(f.node)):
            continue
        # constant modes as seen by the interpreter
        i = Interp(p, budget=120000, no_inline=[
            g.qual for k in (db, hd) for g in k.methods.values()])
        st = State()
        sv = None
        if f.cls is not None and not f.is_static:
            sv = i.param(st, 'self', f.cls.qual, None)
        i.run(f, None, sv, st)
        ctx.saw(i)
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and opener(f, x, names)):
                continue
            evs = [e for e in i.events if e.node is x]
            mode = mode_of(x, names[opener(f, x, names)], evs)
            h = handle(f, x)
            wr = h is None or writes(p, f, h[0], h[1], 3)
            ctx.ob('open', '%s -> %s' % (
                short(f.qual), opener(f, x, names)), wr or mode == 'r',
                'the file is only queried but opened with mode %s' % mode,
                '%s:%d' % (f.module.relpath, x.lineno))


def opener(f, call, names):
    n = call.func
    nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(
        n, ast.Attribute) else None
    if nm == 'File' and 'h5py' in ast.unparse(n):
        return 'h5py.File'
    return nm if nm in names else None


def mode_of(call, pos, evs):
    kws = {k.arg: k.value for k in call.keywords}
    if pos == 2 and None not in kws and '_force' not in kws and len(
            call.args) < 2 and (
                'corr_options' not in kws or isinstance(
                    kws['corr_options'], ast.Constant)):
        # the class itself falls back to read-only (rule mode)
        return 'r'
    for e in evs:
        if e.name is None or e.name.split('.')[-1].startswith('__'):
            continue
        mo = e.kwargs.get('mode')
        if mo is None and len(e.args) > pos:
            mo = e.args[pos]
        if mo is not None and mo.t.op == 'const':
            return mo.t.args[0]
    for k in call.keywords:
        if k.arg == 'mode':
            return k.value.value if isinstance(
                k.value, ast.Constant) else 'unknown'
    if len(call.args) > pos and isinstance(call.args[pos], ast.Constant):
        return call.args[pos].value
    return 'default'


def handle(f, call):
    """(handle name, statements in which it lives) of an opened file."""
    for x in ast.walk(f.node):
        if isinstance(x, ast.With):
            for it in x.items:
                if it.context_expr is call and isinstance(
                        it.optional_vars, ast.Name):
                    return it.optional_vars.id, x.body
    # bound to a name first
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and x.value is call and isinstance(
                x.targets[0], ast.Name):
            n = x.targets[0].id
            for y in ast.walk(f.node):
                if isinstance(y, ast.With):
                    for it in y.items:
                        if isinstance(it.context_expr, ast.Name) and \
                                it.context_expr.id == n and isinstance(
                                    it.optional_vars, ast.Name):
                            return it.optional_vars.id, y.body
            return n, f.node.body
    return None


def writes(p, f, name, body, depth):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and x.attr in WRITERS | {
                    m[1:] for m in H5W} and base(x.value) == name:
                return True
            if isinstance(x, (ast.Subscript,)) and isinstance(
                    x.ctx, (ast.Store, ast.Del)) and base(x.value) == name:
                return True
            if isinstance(x, ast.Call):
                for k, a in enumerate(x.args):
                    if isinstance(a, ast.Name) and a.id == name:
                        nm = x.func.attr if isinstance(
                            x.func, ast.Attribute) else getattr(
                                x.func, 'id', None)
                        for g in p.all_funcs():
                            if g.name != nm or not depth:
                                continue
                            ps = g.params[1:] if g.cls is not None and \
                                not g.is_static else g.params
                            if k < len(ps) and writes(
                                    p, g, ps[k], g.node.body, depth - 1):
                                return True
            if isinstance(x, (ast.Return, ast.Yield)) and isinstance(
                    x.value, ast.Name) and x.value.id == name:
                return True
    return False


def base(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def weak(t):
    """Does the term replace anything by a wildcard?"""
    for x in walk(t):
        if x.op == 'call' and x.args[0].op == 'attr' and \
                x.args[0].args[1] in ('replace', 'sub', 'translate'):
            a = [y for y in x.args[1:] if y.op == 'const']
            if len(a) > 1 and '*' in str(a[1].args[0]) and \
                    '*' not in str(a[0].args[0]):
                return True
        if x.op == 'call' and x.args[0].op == 'ref' and str(
                x.args[0].args[0]) in ('re.sub',):
            return True
    return False


def delete(ctx, p, c):
    f = p.method(c, 'remove_data')
    i = Interp(p)
    st = State()
    sv = i.param(st, 'self', c.qual, None)
    i.run(f, None, sv, st)
    ctx.saw(i)
    k = 0
    for e in i.events:
        if not on_file(e):
            continue
        k += 1
        if e.kind != 'delitem':
            ctx.ob('delete', '%s -> %s' % (short(f.qual), e.name or e.kind),
                   False, 'something else than a deletion', e.where())
            continue
        key = e.args[0].t
        lit = {'*': False, '?': False}
        match = None
        for q in e.pc:
            t = q.t
            if t.op == 'cmp' and t.args[0] == 'In' and not q.pol and \
                    t.args[2] == key and t.args[1].op == 'const':
                lit[t.args[1].args[0]] = True
            if t.op == 'call' and t.args[0].op == 'ref' and q.pol and str(
                    t.args[0].args[0]).split('.')[-1] in (
                        'fnmatch', 'fnmatchcase') and t.args[1] == key:
                match = t.args[2]
            # a key taken from a filtered list
        if match is None:
            for x in key.args[:1] if key.op == 'elem' else ():
                if x.op == 'call' and x.args[0].op == 'ref' and str(
                        x.args[0].args[0]) == 'fnmatch.filter':
                    match = x.args[2]
        ok = all(lit.values()) or (match is not None and not weak(match))
        ctx.ob('delete', '%s -> %s' % (
            short(f.qual), 'exact' if match is None else 'pattern'), ok,
            'the deleted key %s is neither free of wildcards nor matched '
            'against the request' % show(key)[:80], e.where())
    # all parts of the request take part in the path
    forms = [e for e in i.events if e.kind == 'call' and e.name == '.format'
             and e.recv is not None and e.recv.t.op == 'const'
             and '{corr_st}' in str(e.recv.t.args[0])
             and e.func.cls is c and e.func.name == 'remove_data'
             or e.kind == 'call' and e.name == '.format' and e.func is f]
    for e in forms[:1]:
        for kw, pn in (('tag', 'tag'), ('network', 'network'), (
                'station', 'station'), ('channel', 'channel'), (
                    'corr_st', 'corr_start')):
            v = e.kwargs.get(kw)
            used = v is not None and any(
                x.op == 'param' and x.args[0] == pn for x in walk(v.t))
            ctx.ob('delete', '%s path %s' % (short(f.qual), kw), used,
                   'the requested %s does not take part' % pn, e.where())
