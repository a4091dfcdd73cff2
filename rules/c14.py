"""C14: unknown option values are refused, documented ones are all handled.

Every option that selects a method by name is bound to one constant at a time
(each documented name, and one that is not documented); the function is
interpreted with that constant, so that the dispatch is decided.
"""
import ast
from sa.interp import Interp, State, Val, Obj
from sa.terms import T, const, mk, walk, show, alts, NONE
from sa.util import short

E = frozenset()
COMB = ['betweenStations', 'betweenComponents', 'autoComponents',
        'allSimpleCombinations', 'allCombinations']
SIDES = ['both', 'left', 'right', 'single']
# function, option (parameter, or ('args', key)), documented values, groups
# of values that mean the same, other options to fix
TABLE = [
    ('monitor.post_corr_process.corr_mat_normalize', 'normtype',
     ['energy', 'abssum', 'max', 'absmax'], [], {}),
    ('monitor.post_corr_process.corr_mat_extract_trace', 'method',
     ['mean', 'median', 'norm_mean', 'similarity_percentile'], [], {}),
    ('monitor.post_corr_process.measure_shift', 'sides',
     ['both', 'single'], [], {}),
    ('monitor.post_corr_process.corr_mat_shift', 'sides',
     ['both', 'right', 'single'], [('right', 'single')], {}),
    ('monitor.post_corr_process._smooth', 'window',
     ['flat', 'hanning', 'hamming', 'bartlett', 'blackman'], [], {}),
    ('monitor.stretch_mod.velocity_change_estimate', 'sides', SIDES, [],
     {}),
    ('monitor.stretch_mod.compute_wfc', 'sides', SIDES, [], {}),
    ('monitor.monitor.correct_dv_shift', 'method', ['mean', 'median'], [],
     {}),
    ('monitor.monitor.correct_time_shift_several', 'method',
     ['mean', 'median'], [], {}),
    ('monitor.monitor.Monitor.compute_components_average', 'method',
     ['autocomponents', 'crosscomponents', 'stationwide', 'crossstations',
      'betweenstations', 'betweencomponents'],
     [('crosscomponents', 'betweencomponents'),
      ('crossstations', 'betweenstations')], {}),
    ('correlate.correlate.compute_network_station_combinations', 'method',
     COMB, [('betweenComponents', 'autoComponents')], {}),
    ('correlate.correlate.calc_cross_combis', 'method', COMB, [], {}),
    ('correlate.preprocessing_td.detrend', ('args', 'method'),
     ['qr', 'scipy'], [], {}),
    ('correlate.preprocessing_td.detrend', ('args', 'type'),
     ['linear', 'constant'], [], {('args', 'method'): 'qr'}),
    ('correlate.preprocessing_td.zeroPadding', ('args', 'type'),
     ['nextFastLen', 'avoidWrapAround', 'avoidWrapFastLen'], [], {}),
    ('correlate.preprocessing_td.taper', ('args', 'type'),
     ['cosine_taper', 'hann', 'tukey'], [], {}),
    ('correlate.stream.stack_st', 'weight',
     ['mean', 'average', 'by_length'], [('mean', 'average')], {}),
    ('plot.plot_dv.plot_dv', 'style', ['technical', 'publication'], [], {}),
    ('plot.plot_correlation.plot_cst', 'sort_by',
     ['corr_start', 'dist', 'distance'], [('dist', 'distance')],
     {'type': 'section'}),
    ('plot.plot_correlation.plot_cst', 'type', ['section', 'heatmap'], [],
     {'sort_by': 'corr_start'}),
    ('plot.plot_correlation.plot_cst', 'type', ['section', 'heatmap'], [],
     {'sort_by': 'dist'}),
    ('plot.plot_spectrum.plot_spct_series', 'norm', ['f', 't'], [], {}),
    ('plot.plot_spectrum.plot_spct_series', 'norm_method',
     ['linalg', 'mean', 'median'], [], {'norm': 'f'}),
    ('plot.plot_spectrum.plot_spct_series', 'norm_method',
     ['linalg', 'mean', 'median'], [], {'norm': 't'}),
    ('trace_data.waveform.get_day_in_folder', 'type', ['start', 'end'], [],
     {}),
]
# not told apart by the code in every part, and not documented as one
LOOSE = [('right', 'single'), ('betweenComponents', 'autoComponents')]
LOOPS = ('iter', 'loop', 'for', 'while')
UNKNOWN = 'no_such_option'


def cval(v):
    return Val(const(v), E, E, 'str')


def bind(p, f, binds):
    i = Interp(p, budget=120000)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    args, dicts = {}, {}
    for k, v in binds.items():
        if isinstance(k, tuple):
            dicts.setdefault(k[0], {})[k[1]] = cval(v)
        else:
            args[k] = cval(v)
    for q, items in dicts.items():
        loc = ('param', q)
        st.heap[loc] = Obj('dict', 'dict', items, None, E, (q,), None, None,
                           True)
        args[q] = Val(mk('param', q), E, frozenset([loc]), 'dict')
    st, v = i.run(f, args, sv, st)
    return i, st, v


def root(t):
    while t.op in ('attr', 'item') and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def opposite_raises(i, ev, f):
    """Some raise whose conditions only say that a loop is entered."""
    for e in i.events:
        if e.kind != 'raise' or e.tries:
            continue
        if all(c.kind in LOOPS + ('raise',) for c in e.pc):
            return e
    return None


def lookup(t, v):
    """getattr(module, v): an attribute error for an unknown name."""
    for x in walk(t):
        if x.op == 'call' and x.args[0].op == 'ref' and \
                str(x.args[0].args[0]).endswith('getattr') and \
                const(v) in x.args[1:] and len(x.args) == 3:
            return True
        if x.op == 'attr' and x.args[1] == v or x.op == 'ref' and \
                str(x.args[0]).endswith('.' + v):
            return True
        if x.op == 'item' and x.args[1] == const(v):
            return True
        if x.op == 'unk' and x.args and x.args[0] == 'noreturn':
            return True
    return False


def print_of(i, v):
    """What the function does, as far as it can be observed."""
    out = []
    for e in i.events:
        if e.kind in ('call', 'setattr', 'setitem', 'mutate', 'return',
                      'raise'):
            out.append((e.kind, e.name, e.where(),
                        tuple(show(a)[:300] for a in e.argts),
                        tuple(sorted(k for k in e.kwts)),
                        tuple(sorted((show(c.t)[:200], c.pol)
                                     for c in e.pc))))
    return tuple(out)


def refused(p, f, fixed, opt, value):
    """Interpret with an undocumented value: what is accepted, and where."""
    i, st, v = bind(p, f, dict(fixed, **{}) | {opt: value})
    bad = ''
    where = f.where()
    if st is not None:
        found = opposite_raises(i, None, f)
        rets = [e for e in i.events if e.kind == 'return'
                and e.func is f]
        for e in rets:
            t = e.argts[0] if e.argts else NONE
            if t.op == 'param' or lookup(t, value):
                continue
            if found is not None:
                continue
            bad = 'returns %s' % show(t)[:100]
            where = e.where()
        if not rets and found is None:
            bad = 'returns nothing'
        elif rets and v is not None and not bad and any(
                a == NONE for a in alts(i.deep(st, v))) and \
                found is None:
            bad = 'falls off the end'
    return i, st, bad, where


def called(f):
    return {n.attr for n in ast.walk(f.node)
            if isinstance(n, ast.Attribute)}


def run(ctx):
    p = ctx.p
    ctx.rule('refuse', 'with a name that is not documented the function '
             'raises on every path that does not return its input '
             'unchanged')
    ctx.rule('near', 'a part of a documented name, or a documented name with '
             'a letter more, is refused like any other')
    ctx.rule('clean', 'nothing that the caller passed in is changed before '
             'an undocumented name is refused')
    ctx.rule('handled', 'with each documented name the function can return '
             'a result other than None')
    ctx.rule('forward', 'an option of an argument dictionary that selected '
             'the method is not passed on as a keyword to the library '
             'function')
    ctx.rule('distinct', 'two documented names that are not synonyms do not '
             'compute the same thing')
    ctx.rule('synonym', 'two documented names for one method compute the '
             'same thing')
    for q, opt, vals, same, fixed in TABLE:
        f = p.func(q, required=False)
        oname = opt if isinstance(opt, str) else "%s['%s']" % opt
        name = '%s %s' % (short(q), oname)
        if fixed:
            name += ' (%s)' % ', '.join('%s' % v for v in fixed.values())
        if f is None or (opt if isinstance(opt, str) else opt[0]) not in \
                f.params:
            continue
        # undocumented names
        i, st, bad, where = refused(p, f, fixed, opt, UNKNOWN)
        ctx.saw(i)
        ctx.ob('refuse', name, not bad, 'an undocumented name is accepted: '
               + bad, where)
        # names that are nearly documented: a part, or one letter more
        near = dict.fromkeys(x for v in vals for x in (
            v[1:], v[:-1], v[len(v) // 2:], v + 'x', 'x' + v)
            if x and x not in vals and not (
                'lower' in called(f) and x.lower() in vals))
        got = [(x, w) for x in near
               for _, _, m, w in [refused(p, f, fixed, opt, x)] if m]
        ctx.ob('near', name, not got, 'the undocumented name %r is accepted'
               % (got[0][0] if got else ''), got[0][1] if got else f.where())
        raises = [e.seq for e in i.events if e.kind == 'raise']
        first = min(raises) if raises else None
        hit = None
        for e in i.events:
            if e.kind not in ('mutate', 'setattr', 'setitem', 'delitem'):
                continue
            if first is not None and e.seq > max(raises):
                continue
            r = e.recv.t if e.recv is not None else None
            if r is not None and root(r).op == 'param' and e.recv.locs and \
                    '.sort' not in str(e.name):
                hit = e
                break
        ctx.ob('clean', name, hit is None, 'changes %s before the name is '
               'refused' % (show(hit.recv.t)[:60] if hit else ''),
               hit.where() if hit else f.where())
        # documented names
        prints = {}
        for val in vals:
            i, st, v = bind(p, f, dict(fixed) | {opt: val})
            ctx.saw(i)
            good = st is not None
            t = i.deep(st, v) if good else None
            msg = 'raises'
            if good:
                rets = [e for e in i.events if e.kind == 'return'
                        and e.func is f]
                wants = any_value(p, f)
                if wants and (not rets or any(a == NONE for a in alts(t))):
                    good, msg = False, 'returns nothing'
                r = opposite_raises(i, None, f)
                works = any(e.argts and e.argts[0].op != 'param'
                            for e in rets) or any(
                    e.kind in ('mutate', 'setitem') for e in i.events)
                if r is not None or wants and not works:
                    good, msg = False, 'raises'
            ctx.ob('handled', '%s %s' % (name, val), good,
                   'the documented name %s' % msg, f.where())
            prints[val] = print_of(i, v)
            if not isinstance(opt, tuple) or st is None:
                continue
            for e in i.events:
                if e.kind != 'call' or e.name.startswith('seismic.') or \
                        not isinstance(e.extra, dict):
                    continue
                for s in e.extra.get('spread') or []:
                    held = any(loc in st.heap and opt[1] in
                               st.heap[loc].fields for loc in s.locs)
                    ctx.ob('forward', '%s %s -> %s' % (name, val, e.name),
                           not held, "the option '%s' is handed on to %s, "
                           'which does not know it' % (opt[1], e.name),
                           e.where())
        for n, a in enumerate(vals):
            for b in vals[n + 1:]:
                if any(a in s and b in s for s in same):
                    if (a, b) in LOOSE:
                        continue
                    ctx.ob('synonym', '%s %s/%s' % (name, a, b),
                           same_print(prints[a], prints[b], a, b),
                           'two names for one method do different things',
                           f.where())
                    continue
                ctx.ob('distinct', '%s %s/%s' % (name, a, b),
                       strip(prints[a], a) != strip(prints[b], b),
                       'both names do the same', f.where())
    ctx.atleast('refuse', 15)
    ctx.atleast('handled', 40)


def same_print(x, y, a, b):
    """The same apart from the names and the questions asked of them."""
    x, y = ([e for e in pr if e[:2] not in (('call', 'all'), (
        'call', 'any'))] for pr in (x, y))
    return strip(strip(x, a), b) == strip(strip(y, b), a)


def strip(pr, v):
    return tuple(str(x).replace("'%s'" % v, "''").replace(
        '"%s"' % v, "''") for x in pr)


def any_value(p, f, memo={}):
    """Does the function return a value for an unbound option?"""
    key = (id(p), f.qual)
    if key not in memo:
        import ast
        memo[key] = any(
            isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None)
            for n in own_nodes(f.node))
    return memo[key]


def own_nodes(node):
    """Nodes outside of nested functions."""
    import ast
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))
