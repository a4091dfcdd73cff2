"""C03: the parameter guard of correlation files (partial evaluation).

The opening of a file handler is interpreted with the outcome of the
comparison and of the force flag fixed, so that it is decided on every path
whether it is refused; the normal form is interpreted on a dictionary with
every option, so that it is decided which options drop out.
"""
import ast
from sa.interp import Interp, State, Val, Obj, E
from sa.terms import const, mk, walk, show, alts
from sa.util import short, make_self
from sa.project import AnalysisBroken
from rules import c26

IGNORED = {
    (): {'subdir', 'read_start', 'read_end', 'read_len', 'read_inc',
         'combination_method', 'combinations', 'starttime', 'xcombinations',
         'preprocess_subdiv', 'allow_different_params'},
    ('corr_args',): {'combinations'},
    ('subdivision',): {'recombine_subdivision', 'delete_subdivision'},
}
# options that change the samples (documentation of the parameter file and
# everything the correlator reads), plus keys nobody knows
KEPT = {
    (): ['sampling_rate', 'remove_response', 'preProcessing', 'corr_args',
         'subdivision', 'rotate', 'taper', 'some_new_option'],
    ('corr_args',): ['TDpreProcessing', 'FDpreProcessing', 'lengthToSave',
                     'center_correlation', 'normalize_correlation',
                     'some_new_option'],
    ('subdivision',): ['corr_inc', 'corr_len', 'some_new_option'],
}
WRITES = c26.H5W | {'.create_dataset'}


def lit(st, path, v):
    if isinstance(v, dict):
        loc = ('lit', path)
        st.heap[loc] = Obj('dict', None, {
            k: lit(st, path + '.' + str(k), x) for k, x in v.items()},
            None, E, (path,))
        return Val(mk('obj', 'dict', path), E, frozenset([loc]), 'dict')
    if isinstance(v, list):
        loc = ('lit', path)
        st.heap[loc] = Obj('list', None, {
            ('i', n): lit(st, '%s.%d' % (path, n), x)
            for n, x in enumerate(v)}, None, E, (path,))
        return Val(mk('obj', 'list', path), E, frozenset([loc]), 'list')
    if v == '?':
        return Val(mk('param', path))
    return Val(const(v))


def full():
    d = {k: '?' for k in KEPT[()]}
    d.update({k: '?' for k in IGNORED[()]})
    for sec in ('corr_args', 'subdivision'):
        d[sec] = {k: '?' for k in KEPT[(sec,)]}
        d[sec].update({k: '?' for k in IGNORED[(sec,)]})
    d['preProcessing'] = [
        {'function': 'a.b.stream_mask_at_utc', 'args': {'starts': '?'}},
        {'function': 'a.b.stream_mask_at_utc', 'args': {'starts': '?'}},
        {'function': 'a.b.stream_filter', 'args': {'ftype': '?'}},
        {'function': 'a.b.stream_mask_at_utc', 'args': {'starts': '?'}},
        {'function': 'a.b.detrend', 'args': {}}]
    return d


def snapshot(st, v, depth=4):
    """Plain structure of the value: dict / list / term ids."""
    if len(v.locs) == 1 and depth:
        o = st.heap.get(next(iter(v.locs)))
        if o is not None and o.kind == 'dict':
            return {(k[1] if isinstance(k, tuple) else k): snapshot(
                st, x, depth - 1) for k, x in o.fields.items()}
        if o is not None and o.kind == 'list':
            return [snapshot(st, o.fields[('i', n)], depth - 1)
                    for n in range(len([k for k in o.fields if isinstance(
                        k, tuple) and k[0] == 'i']))]
    return v.t.id


def normal_form(ctx, p):
    f = p.func('db.corr_hdf5.co_to_hdf5')
    i = Interp(p)
    st = State()
    co = lit(st, 'co', full())
    before = snapshot(st, co)
    st, v = i.run(f, {f.params[0]: co}, None, st)
    ctx.saw(i)
    name = short(f.qual)
    if st is None:
        ctx.ob('form', name, False, 'always fails', f.where())
        return
    ctx.ob('pure', name, snapshot(st, co) == before,
           'the given parameters are changed', f.where())
    if snapshot(st, co) != before:
        return
    if len(v.locs) != 1:
        raise AnalysisBroken('normal form is not one dictionary')

    def keys(val):
        out = []
        for loc in val.locs:
            o = st.heap[loc]
            if o.kind != 'dict' or o.elem is not None:
                raise AnalysisBroken('normal form not understood')
            out.append({(k[1] if isinstance(k, tuple) else k)
                        for k in o.fields})
        return out

    def field(val, k):
        o = st.heap[next(iter(val.locs))]
        for kk, x in o.fields.items():
            if (kk[1] if isinstance(kk, tuple) else kk) == k:
                return x
    for sec in IGNORED:
        sv = v if not sec else field(v, sec[0])
        nm = '.'.join(sec) or 'top'
        if sv is None or not sv.locs:
            ctx.ob('form', '%s: %s' % (name, nm), False,
                   'the section takes no part in the comparison', f.where())
            continue
        got = set.intersection(*keys(sv))
        for k in KEPT[sec]:
            ctx.ob('form', '%s: %s %s' % (name, nm, k), k in got,
                   'the option does not take part in the comparison',
                   f.where())
            if k in got and k not in ('preProcessing', 'corr_args',
                                      'subdivision'):
                orig = mk('param', '.'.join(('co',) + sec + (k,)))
                ctx.ob('form', '%s: %s %s value' % (name, nm, k),
                       orig in walk(field(sv, k).t),
                       'the value of the option is lost', f.where())
        got = set.union(*keys(sv))
        for k in IGNORED[sec]:
            ctx.ob('form', '%s: %s %s' % (name, nm, k), k not in got,
                   'a bookkeeping option takes part in the comparison',
                   f.where())
    pp = field(v, 'preProcessing')
    if pp is not None:
        lists = []
        for loc in pp.locs:
            o = st.heap[loc]
            if o.kind != 'list' or o.elem is not None or o.open:
                lists.append(None)
                continue
            fn = []
            n = 0
            while ('i', n) in o.fields:
                x = o.fields[('i', n)]
                d = st.heap[next(iter(x.locs))] if x.locs else None
                ft = d.fields.get('function') if d is not None else None
                fn.append(ft.t.args[0] if ft is not None and
                          ft.t.op == 'const' else '?')
                n += 1
            lists.append(fn)
        want = ['a.b.stream_filter', 'a.b.detrend']
        ctx.ob('form', '%s: preProcessing steps' % name, want in lists,
               'the steps that take part are %s' % [
                   x for x in lists if x is None or len(x) < 5], f.where())


def guard(ctx, p):
    hd = p.cls('DBHandler')
    init = p.method(hd, '__init__')
    nf = p.func('db.corr_hdf5.co_to_hdf5')
    cop = [x for x in init.params if x in ('co', 'corr_options')]
    fop = [x for x in init.params if 'force' in x]
    if not cop or not fop:
        raise AnalysisBroken('parameters of the handler not found')
    sides = []

    def of_new(t):
        return any(x.op == 'param' and x.args[0] == cop[0]
                   for x in walk(t))

    def of_old(t):
        return any(x.op == 'attr' and x.args[1] == 'attrs' for x in walk(t))

    def cmpval(want):
        def hook(i, st, out):
            t = out.t
            if t.op == 'cmp' and t.args[0] in ('Is', 'IsNot', 'Eq', 'NotEq') \
                    and set(t.args[1:]) == {mk('param', cop[0]),
                                            const(None)}:
                return Val(const(t.args[0] in ('IsNot', 'NotEq')), out.tags,
                           E, 'bool')
            if t.op == 'cmp' and t.args[0] in ('Eq', 'NotEq'):
                a, b = t.args[1], t.args[2]
                if of_new(a) and of_old(b):
                    a, b = b, a
                elif not (of_old(a) and of_new(b)):
                    return None
                sides.append((a, b, i.frames[-1].func))
                eq = want == (t.args[0] == 'Eq')
                return Val(const(eq), out.tags, E, 'bool')
            return None
        return hook

    def label(i, st, ev):
        if ev.kind == 'call' and ev.name == '.create_dataset':
            return ['stored']
        if ev.kind == 'setitem' and ev.recv is not None and \
                'attrs' in show(ev.recv.t):
            return ['attr']
        return ()

    def go(eq, force, co=None):
        def cond(i, st, ct, s):
            return True if ct == mk('param', cop[0]) else None
        i = Interp(p, on_cmp=cmpval(eq), label=label, no_inline=[nf.qual],
                   on_cond=cond)
        st = State()
        sv = i.param(st, 'self', hd.qual, None)
        cov = co or i.param(st, cop[0], 'dict', None)
        st, _ = i.run(init, {cop[0]: cov, fop[0]: Val(const(force))}, sv, st)
        ctx.saw(i)
        return i, st

    name = short(init.qual)
    i, st = go(False, False)
    if not sides:
        raise AnalysisBroken('comparison of stored and given parameters '
                             'not found')
    # opened normally only when nothing was stored before
    ctx.ob('guard', name + ' different', st is None or 'stored' in st.must,
           'a file with different parameters can be opened', init.where())
    for e in i.events:
        if e.kind in ('setitem', 'delitem') and c26.on_file(e) or \
                e.kind == 'call' and c26.on_file(e):
            ctx.ob('guard', '%s writes %s' % (name, e.name or e.kind),
                   any(q.t.op == 'exc' and q.pol for q in e.pc),
                   'the file is written before it may be refused',
                   e.where())
    ex = [e for e in i.events if e.kind == 'raise' and not e.tries]
    ctx.notes.append('%d refusals' % len(ex))
    i, st = go(True, False)
    ctx.ob('guard', name + ' equal', st is not None and
           'stored' not in st.must, 'equal parameters are refused',
           init.where())
    i, st = go(False, True)
    ctx.ob('guard', name + ' forced', st is not None and
           'stored' not in st.must, 'a forced opening is refused',
           init.where())
    i, st = go(False, False, Val(const(None)))
    ctx.ob('guard', name + ' without parameters', st is not None and
           'stored' not in st.may, 'a query without parameters is refused '
           'or stores parameters', init.where())
    for a, b, f in sides:
        if a.op != 'call' or b.op != 'call':
            # a comparison of single options in a message
            if any(x.op in ('elem', 'item') for x in (a, b)):
                continue
        for t, what in ((a, 'stored'), (b, 'given')):
            while t.op == 'call' and t.args[0].op == 'ref' and str(
                    t.args[0].args[0]) in (
                        'dict', 'json.dumps', 'copy.deepcopy'):
                t = t.args[1]
            ok = all(x.op == 'call' and x.args[0].op == 'ref' and str(
                x.args[0].args[0]).endswith(nf.name) for x in alts(t))
            ctx.ob('guard', '%s %s side' % (short(f.qual), what), ok,
                   'compared is %s' % show(t)[:120], f.where())
    # what is stored is the normal form of what was given
    add = p.method(hd, 'add_corr_options')
    i = Interp(p, no_inline=[nf.qual])
    st = State()
    sv = i.param(st, 'self', hd.qual, None)
    i.run(add, None, sv, st)
    vals = [e for e in i.events if e.kind == 'setitem'
            and e.recv is not None and 'attrs' in show(e.recv.t)]
    vals = [(e, e.args[-1].t if e.args else None) for e in vals]
    vals += [(e, e.args[1].t) for e in i.events if e.kind == 'call'
             and e.name in ('.create', '.modify') and len(e.args) > 1]
    if not vals:
        raise AnalysisBroken('storing of the parameters not found')
    for e, t in vals:
        cands = [x for a in e.args for x in walk(a.t)]
        ctx.ob('store', short(add.qual), any(
            x.op == 'call' and x.args[0].op == 'ref' and str(
                x.args[0].args[0]).endswith(nf.name) and len(x.args) > 1
            and x.args[1] == mk('param', add.params[1]) for x in cands),
            'stored is not the normal form of the given parameters',
            e.where())


def through(ctx, p):
    db = p.cls('CorrelationDataBase')
    hd = p.cls('DBHandler')
    init = p.method(db, '__init__')
    enter = p.method(db, '__enter__')
    hi = p.method(hd, '__init__')
    i = Interp(p, no_inline=[hi.qual])
    st = State()
    st, sv = make_self(i, db, st)
    i.run(enter, None, sv, st)
    ctx.saw(i)
    co = [x for x in init.params if 'options' in x][0]
    fo = [x for x in init.params if 'force' in x][0]
    ev = [e for e in i.events if e.kind in ('call', 'new') and (
        (e.name or '').endswith('DBHandler.__init__') or (
            e.name or '').endswith('DBHandler'))]
    if not ev:
        raise AnalysisBroken('construction of the handler not found')
    hp = hi.params
    done = False
    for e in ev:
        args = list(e.args)
        if (e.name or '').endswith('__init__') and len(args) < len(hp) and \
                (not args or args[0].t != sv.t):
            pass
        names = hp if (e.name or '').endswith('__init__') and e.args and \
            len(e.args) + len(e.kwargs) == len(hp) else hp[1:]
        got = dict(zip(names, args))
        got.update(e.kwargs)
        c = [v for k, v in got.items() if k in ('co', 'corr_options')]
        fv = [v for k, v in got.items() if 'force' in k]
        if not c or not fv:
            continue
        done = True
        ctx.ob('through', '%s options' % short(enter.qual), mk(
            'param', co) in alts(c[0].t) and set(alts(c[0].t)) <= {
                mk('param', co), const(None)}, 'the handler gets %s' % show(c[0].t)[:80],
            e.where())
        ctx.ob('through', '%s force' % short(enter.qual), mk(
            'param', fo) == fv[0].t,
            'the handler gets %s' % show(fv[0].t)[:80], e.where())
    if not done:
        raise AnalysisBroken('arguments of the handler not found')
    d = {a.arg: x for a, x in zip(
        reversed(init.node.args.args), reversed(init.node.args.defaults))}
    ctx.ob('through', '%s default' % short(init.qual), fo in d and
           isinstance(d[fo], ast.Constant) and not d[fo].value,
           'openings are forced by default', init.where())


def writers(ctx, p):
    db = p.cls('CorrelationDataBase')
    hd = p.cls('DBHandler')
    names = {db.name: 2, hd.name: 1, 'h5py.File': 1}
    n = 0
    for f in p.all_funcs():
        if f.cls in (db, hd):
            continue
        calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)
                 and c26.opener(f, x, names)]
        if not calls:
            continue
        i = Interp(p, budget=120000, no_inline=[
            g.qual for k in (db, hd) for g in k.methods.values()])
        st = State()
        sv = None
        if f.cls is not None and not f.is_static:
            st, sv = make_self(i, f.cls, st)
        i.run(f, None, sv, st)
        ctx.saw(i)
        for x in calls:
            h = c26.handle(f, x)
            wr = h is None or c26.writes(p, f, h[0], h[1], 3)
            evs = [e for e in i.events if e.node is x]
            kw = {}
            for e in evs:
                if e.kind == 'new':
                    kw.update(dict(zip(init_params(p, db), e.args)))
                    kw.update(e.kwargs)
            cov = kw.get('corr_options')
            con = '%s -> %s' % (short(f.qual), c26.opener(f, x, names))
            where = '%s:%d' % (f.module.relpath, x.lineno)
            if wr:
                n += 1
                if c26.opener(f, x, names) != db.name:
                    mode = c26.mode_of(x, 1, evs)
                    ctx.ob('writer', con, mode == 'r',
                           'a file is written past the guard', where)
                    continue
                ok = cov is not None and cov.t != const(None)
                if ok and f.cls is not None:
                    whole = own_options(i, st, sv)
                    ok = any(t in whole for t in peel(cov.t)) or bool(
                        whole_locs(i, st, sv) & cov.locs)
                ctx.ob('writer', con, ok, 'opened with the parameters %s' % (
                    show(cov.t)[:80] if cov is not None else 'missing'),
                    where)
            fo = kw.get('_force')
            if fo is not None:
                bad = [t for t in alts(fo.t) if not asked(t)]
                ctx.ob('writer', con + ' force', not bad,
                       'forced by %s instead of the user option' % (
                           show(bad[0])[:60] if bad else ''), where)
    return n


def asked(t):
    """Is the flag the user option (or off)?"""
    if t == const(False):
        return True
    if t.op == 'phi' or t.op == 'bool':
        return all(asked(x) for x in t.args if hasattr(x, 'op'))
    if t.op == 'item':
        return t.args[1] == const('allow_different_params')
    if t.op == 'call':
        if t.args[0].op == 'attr' and t.args[0].args[1] == 'get':
            return t.args[1] == const('allow_different_params') and all(
                asked(x) or x == const(None) for x in t.args[2:])
        if t.args[0] == mk('ref', 'bool'):
            return asked(t.args[1])
    return False


def peel(t):
    out = []
    for a in alts(t):
        while a.op == 'call' and a.args[0].op == 'ref' and str(
                a.args[0].args[0]) in ('dict', 'copy.deepcopy', 'copy.copy'):
            a = a.args[1]
        out.append(a)
    return out


def own_options(i, st, sv):
    out = {mk('attr', sv.t, 'options')}
    for loc in sv.locs:
        o = st.heap.get(loc)
        if o is not None and 'options' in o.fields:
            out |= set(alts(o.fields['options'].t))
    return out


def whole_locs(i, st, sv):
    out = frozenset()
    for loc in sv.locs:
        o = st.heap.get(loc)
        if o is not None and 'options' in o.fields:
            out |= o.fields['options'].locs
    return out


def init_params(p, db):
    return p.method(db, '__init__').params[1:]


def run(ctx):
    p = ctx.p
    ctx.rule('guard', 'different parameters are refused before anything is '
             'written unless forced; equal ones are accepted; both sides '
             'are compared in the same normal form')
    ctx.rule('form', 'exactly the bookkeeping options drop out of the '
             'comparison')
    ctx.rule('pure', 'normalising leaves the given parameters unchanged')
    ctx.rule('store', 'the normal form of the given parameters is stored')
    ctx.rule('through', 'parameters and force flag reach the guard')
    ctx.rule('writer', 'a process that adds correlations opens the file '
             'with its own parameters and forces only on request')
    normal_form(ctx, p)
    guard(ctx, p)
    through(ctx, p)
    writers(ctx, p)
    ctx.atleast('form', 20)
    ctx.atleast('guard', 4)
    ctx.atleast('writer', 1)
