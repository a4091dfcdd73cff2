"""C15: configuration objects are never written (alias and effect analysis).

Steps and drivers are interpreted with parameters that carry their origin;
every store, deletion, in-place operation or mutating call that reaches an
option, an argument dictionary or a shared parameter object is an event.  The
bookkeeping keys a driver recomputes before each use are the only exception.
"""
import ast
from sa.interp import Interp, State
from sa.util import short, make_self
from sa.project import AnalysisBroken

STEP_MODULES = ('correlate.preprocessing_td', 'correlate.preprocessing_fd',
                'correlate.preprocessing_stream')
# classes whose methods can be named as processing steps
STEP_CLASSES = ('CorrBulk', 'CorrStream', 'DV')
# functions that receive options of a driver: data parameters are exempt
DRIVER_FUNCS = {
    'correlate.correlate': None, 'monitor.monitor': None,
    'monitor.post_corr_process': None, 'monitor.spatial': None,
}
DATA = ('st', 'stream', 'tr', 'trace', 'A', 'B', 'data', 'cst', 'dvs', 'dv',
        'store_client', 'corr', 'bulk', 'cb', 'win', 'corr_mat', 'mat', 'self',
        'ref_trc', 'wfcs', 'stats', 'dv0', 'cst_in', 'trs')
# recomputed before every use
BOOK = {'Correlator': ('combinations', 'starttime', 'sampling_rate')}
DRIVERS = ('correlate.correlate.Correlator', 'monitor.monitor.Monitor')
CONF_TYPES = ('dict', 'list', 'tuple', 'Dict', 'List', 'Sequence', 'Iterable')


def confpars(f, skip_first):
    """Parameters of f that may hold configuration."""
    a = f.node.args
    allp = a.posonlyargs + a.args + a.kwonlyargs
    out = []
    for i, x in enumerate(allp):
        if i == 0 and skip_first:
            continue
        if x.arg in DATA:
            continue
        out.append(x.arg)
    return out


def run(ctx):
    p = ctx.p
    ctx.rule('step', 'a processing step changes nothing but the data it '
             'processes')
    ctx.rule('driver', 'a driver writes nothing into its options except '
             'recomputed bookkeeping')
    ctx.rule('func', 'a function that receives options leaves them unchanged')
    ctx.rule('default', 'a mutable default argument is not changed')
    ctx.rule('global', 'module-level tables are not changed by functions')

    def events(f, cls=None):
        i = Interp(p, budget=120000)
        st = State()
        sv = None
        if cls is not None:
            sv = i.param(st, 'self', cls.qual, None)
        i.run(f, None, sv, st)
        ctx.saw(i)
        return [e for e in i.events if e.kind == 'mutate']

    def name(f, cls):
        return '%s.%s' % (short(cls.qual), f.name) if cls is not None and \
            f.cls is not cls else short(f.qual)

    def check(rule, f, pars, cls=None):
        kw = f.node.args.kwarg
        evs = events(f, cls)
        for q in pars + ([kw.arg] if kw else []):
            bad = []
            for e in evs:
                o = e.extra['origin']
                if o[0] != q:
                    continue
                if kw and q == kw.arg and len(o) < 2:
                    continue        # the keyword dictionary itself is fresh
                bad.append(e)
            ctx.ob(rule, '%s -> %s' % (name(f, cls), q), not bad,
                   'changed by "%s" in %s' % (
                       bad[0].name, short(bad[0].func.qual)) if bad else '',
                   bad[0].where() if bad else f.where())

    for mn in STEP_MODULES:
        m = p.modules.get('seismic.' + mn)
        if m is None:
            continue
        for f in m.funcs.values():
            check('step', f, confpars(f, True))
    for cn in STEP_CLASSES:
        c = p.cls(cn, required=False)
        if c is None:
            continue
        for n, f in c.methods.items():
            if n.startswith('_') or f.is_static:
                continue
            check('step', f, confpars(f, True), c)
    for mn in DRIVER_FUNCS:
        m = p.modules.get('seismic.' + mn)
        if m is None:
            continue
        for f in m.funcs.values():
            check('func', f, confpars(f, False))

    for q in DRIVERS:
        c = p.cls(q)
        init = p.method(c, '__init__')
        conf = [x for x in init.params if x == 'options'] or \
            confpars(init, True)
        evs = events(init, c)
        for x in conf:
            bad = [e for e in evs if e.extra['origin'][0] == x]
            ctx.ob('driver', '%s -> %s' % (short(init.qual), x), not bad,
                   'changed by "%s" in %s' % (
                       bad[0].name, short(bad[0].func.qual)) if bad else '',
                   bad[0].where() if bad else init.where())
        # attributes of the object that alias the options
        i = Interp(p)
        st = State()
        st, sv = make_self(i, c, st)
        alias = set()
        for loc in sv.locs:
            for k, v in st.heap[loc].fields.items():
                for lc in v.locs:
                    o = st.heap.get(lc)
                    if o is not None and o.origin and o.origin[0] in conf:
                        alias.add(k)
        alias.add('options')
        ok = BOOK.get(c.name, ())
        for n, f in sorted(c.methods.items()):
            if n == '__init__' or f.is_static:
                continue
            bad = []
            for e in events(f, c):
                o = e.extra['origin']
                if o[0] == 'self' and len(o) > 1 and o[1] in alias:
                    k = e.extra['key']
                    if len(o) == 2 and e.name in (
                            '.update', '.__setitem__', 'setitem', '[]=') \
                            and booked(e, ok):
                        continue
                    if len(o) == 2 and isinstance(k, str) and k in ok:
                        continue
                    if len(o) > 2 and o[2] in ok:
                        continue
                    bad.append(e)
            ctx.ob('driver', short(f.qual), not bad, '; '.join(sorted({
                '%s of %s[%s] in %s' % (
                    e.name, '.'.join(map(str, e.extra['origin'])),
                    e.extra['key'], short(e.func.qual)) for e in bad})),
                bad[0].where() if bad else f.where())
            for q2 in confpars(f, True):
                b2 = [e for e in events(f, c) if e.extra['origin'][0] == q2]
                ctx.ob('func', '%s -> %s' % (short(f.qual), q2), not b2,
                       'changed by "%s"' % b2[0].name if b2 else '',
                       b2[0].where() if b2 else f.where())

    for f in p.all_funcs():
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if not isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call,
                                  ast.ListComp, ast.DictComp)):
                continue
            evs = events(f, f.cls)
            bad = [e for e in evs if e.extra['origin'][0] == x.arg]
            ctx.ob('default', '%s -> %s' % (short(f.qual), x.arg), not bad,
                   'a shared default value is changed', f.where())
    glob(ctx, p)
    ctx.atleast('step', 15)
    ctx.atleast('driver', 10)


def booked(e, ok):
    """Are all keys written by an update call bookkeeping keys?"""
    k = e.extra['key']
    if isinstance(k, str):
        return k in ok
    n = e.node
    if isinstance(n, ast.Call) and n.args and isinstance(
            n.args[0], ast.Dict):
        ks = [x.value if isinstance(x, ast.Constant) else None
              for x in n.args[0].keys]
        return all(x in ok for x in ks) and not n.keywords
    if isinstance(n, ast.Call) and not n.args and n.keywords:
        return all(x.arg in ok for x in n.keywords)
    return False


MUT = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
       'setdefault', 'popitem', 'sort', 'reverse', 'add', 'discard')


def glob(ctx, p):
    for m in p.modules.values():
        tabs = set()
        for s in m.tree.body:
            tg = s.targets if isinstance(s, ast.Assign) else [
                s.target] if isinstance(s, ast.AnnAssign) else []
            for t in tg:
                if isinstance(t, ast.Name):
                    tabs.add(t.id)
        for f in p.all_funcs():
            if f.module is not m:
                continue
            loc = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)
                   and isinstance(x.ctx, ast.Store)} | set(f.params)
            gl = {n for x in ast.walk(f.node) if isinstance(x, ast.Global)
                  for n in x.names}

            def table(e):
                while isinstance(e, ast.Subscript):
                    e = e.value
                if isinstance(e, ast.Name):
                    if e.id in tabs and (e.id not in loc or e.id in gl):
                        return e.id
                    d = m.imports.get(e.id)
                    if d and d.startswith('seismic.') and e.id not in loc:
                        mm, _, nm = d.rpartition('.')
                        o = p.modules.get(mm)
                        if o is not None and nm not in o.funcs and \
                                nm not in o.classes:
                            return d
                elif isinstance(e, ast.Attribute) and isinstance(
                        e.value, ast.Name) and e.value.id not in loc:
                    o = p.modules.get(m.imports.get(e.value.id, ''))
                    if o is not None and e.attr not in o.funcs and \
                            e.attr not in o.classes:
                        return m.imports[e.value.id] + '.' + e.attr
                return None
            hits = []
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in MUT:
                    hits.append((table(x.func.value), x))
                elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (x.targets if not isinstance(
                            x, ast.AugAssign) else [x.target]):
                        if isinstance(t, ast.Subscript):
                            hits.append((table(t), x))
                        elif isinstance(t, ast.Attribute):
                            hits.append((table(t), x))
                        elif isinstance(t, ast.Name) and t.id in gl:
                            hits.append((t.id, x))
            hits = [(t, x) for t, x in hits if t]
            if f.outer is None:
                ctx.ob('global', short(f.qual), not hits,
                       'changes the module table %s' % (
                           hits[0][0] if hits else ''),
                       '%s:%d' % (m.relpath, hits[0][1].lineno)
                       if hits else f.where())
