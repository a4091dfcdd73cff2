"""C22: averages combine compatible results of the requested selection.

The conditions under which a result enters a sum, a list, a count or the
reference values are extracted from the source and judged in the abstract
cases 'already an average', 'other method', 'other shape', 'other grid'.
The file filters are judged by a finite-state dataflow, the choice of the
component files in every abstract case of equal and different codes.
"""
import ast
import itertools
from sa.interp import Interp, State, Val
from sa.terms import const, walk, show, mk
from sa.util import short
from sa import model as MD
from sa.fsm import Fsm

M = 'monitor.monitor.'
DATA = ('sim_mat', 'value', 'corr', 'avail', 'corrs', 'stretches', 'stats',
        'second_axis', 'method', 'dv_processing', 'value_type',
        'wfc_processing')
CODES = ('channel', 'network', 'station')


def attrs(t):
    return {x.args[-1] for x in walk(t) if x.op == 'attr'} | {
        x.args[1].args[0] for x in walk(t)
        if x.op == 'item' and x.args[1].op == 'const'
        and isinstance(x.args[1].args[0], str)}


def consts(t):
    return {x.args[0] for x in walk(t) if x.op == 'const'}


def has_elem(t, src):
    return any(x.op == 'elem' and any(
        y.op == 'param' and y.args[0] == src for y in walk(x))
        for x in walk(t))


def leaf_of(m):
    """Atoms of a result: average / method / shape / grid."""
    def leaf(t):
        if t.op == 'cmp':
            op, a, b = t.args
            cs = consts(a) | consts(b)
            at = attrs(t)
            if any(isinstance(c, str) and 'av' in c for c in cs) and \
                    at & set(CODES):
                v = any(m['av_' + k] for k in CODES if k in at)
                if op in ('In', 'Eq'):
                    return v
                if op in ('NotIn', 'NotEq'):
                    return not v
                return None
            if op not in ('Eq', 'NotEq', 'Is', 'IsNot', 'In', 'NotIn'):
                return None
            pos = op in ('Eq', 'Is', 'In')
            if 'second_axis' in at and not at & {'shape', 'size'}:
                return m['grid'] == pos
            if 'shape' in at and at & {'sim_mat', 'corr', 'value'} or \
                    'shape' in at and any(
                        x.op == 'old' or '@' in show(x) for x in walk(t)):
                return m['shape'] == pos
            if 'method' in at:
                return m['method'] == pos
        if t.op == 'call':
            n = MD.cname(t)
            pos = [a for a in t.args[1:] if a.op != 'kw']
            at = attrs(t)
            if n in ('array_equal', 'allclose', 'array_equiv') and \
                    'second_axis' in at:
                return m['grid']
            if n in ('startswith', 'endswith', 'count', 'find', '__contains__'
                     ) and any(isinstance(c, str) and 'av' in c
                               for c in consts(t)) and at & set(CODES):
                v = any(m['av_' + k] for k in CODES if k in at)
                return (0 if v else -1) if n == 'find' else v
            if n in ('any', 'all') and pos and pos[0].op == 'cmp' and \
                    'second_axis' in attrs(pos[0]):
                return MD.ev(pos[0], leaf)
        if t.op == 'elem' and t.args[0].op in ('list', 'tuple'):
            return None
        return None
    return leaf


GOOD = dict(av_channel=False, av_network=False, av_station=False,
            method=True, shape=True, grid=True)


def bad_models(full):
    for k in CODES:
        yield 'an average (%s)' % k, dict(GOOD, **{'av_' + k: True})
    if full:
        yield 'a result of another method', dict(GOOD, method=False)
        yield 'a result of another shape', dict(GOOD, shape=False)
        yield 'a result on another grid', dict(GOOD, grid=False)


def possible(conds, leaf):
    """Can the conditions hold in this case?  (undecided: yes)"""
    for t, pol in conds:
        try:
            if bool(MD.ev(t, leaf)) != pol:
                return False
        except MD.Undecided:
            continue
        except Exception:
            continue
    return True


def later(leaf, first, src):
    """Valuation for results after the first one."""
    def lf(t):
        if t in first:
            return first[t]
        # something was collected before
        if t.op == 'listof' and has_elem(t, src):
            return True
        if t.op == 'call' and MD.cname(t) == 'len' and len(t.args) == 2 \
                and t.args[1].op == 'listof' and has_elem(t, src):
            return 1
        return leaf(t)
    return lf


def undecided(conds, leaf):
    out = set()
    for t, pol in conds:
        try:
            MD.ev(t, leaf)
        except Exception:
            out.add((t, pol))
    return out


def pcs(e):
    return [(c.t, c.pol) for c in e.pc
            if c.kind not in ('for', 'iter', 'while', 'loop')
            and c.t.op != 'iter']


def raw_src(t, src):
    """The collection as given by the caller (not a filtered copy)."""
    while t.op in ('call', 'star') and len(t.args) >= 2 and MD.cname(t) in (
            'enumerate', 'list', 'tuple', 'iter', 'sorted', 'reversed'):
        t = t.args[1]
    return t.op == 'param' and t.args[0] == src


def in_raw_loop(e, src):
    its = [c.t for c in e.pc if c.t.op == 'iter']
    return any(raw_src(t.args[0], src) for t in its)


def run_f(p, q, binds=None, **kw):
    f = p.func(q, required=False)
    if f is None:
        return None, None, None, None
    i = Interp(p, budget=150000, **kw)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    st, v = i.run(f, binds or {}, sv, st)
    return f, i, st, v


def reads_after(func, loop, name):
    """Is the name read outside of the loop's body?"""
    end = loop.end_lineno
    for n in ast.walk(func.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, ast.Load) and (
                    n.lineno > end or n.lineno < loop.lineno):
            return True
    return False


def enclosing_loop(func, node):
    best = None
    for n in ast.walk(func.node):
        if isinstance(n, ast.For) and n.lineno <= node.lineno and \
                node.end_lineno <= n.end_lineno:
            if best is None or n.lineno > best.lineno:
                best = n
    return best


def average(ctx, q, full):
    """full: all guards apply (velocity change); else only averages."""
    p = ctx.p
    f, i, st, v = run_f(p, M + q, either=True)
    if f is None:
        return
    ctx.saw(i)
    src = f.params[0]
    name = short(f.qual)
    sums, counts, appends = [], [], []
    # the first result of the caller's list may be one that is skipped
    re = [n.lineno for n in ast.walk(f.node) if isinstance(n, ast.Name)
          and n.id == src and isinstance(n.ctx, ast.Store)]
    for n in ast.walk(f.node):
        first = None
        if isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Name) and n.value.id == src and isinstance(
                    n.slice, (ast.Constant, ast.UnaryOp)):
            first = n
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Name) and n.func.id == 'next' and n.args and \
                any(isinstance(x, ast.Name) and x.id == src
                    for x in ast.walk(n.args[0])) and not isinstance(
                        n.args[0], ast.GeneratorExp):
            first = n
        if first is not None and not (re and min(re) < n.lineno):
            ctx.ob('reference', name, False,
                   '%s is the reference, which may be a result that is '
                   'skipped' % ast.unparse(n),
                   '%s:%d' % (f.qual, n.lineno))
    # conditions of the first result, which is compatible with itself
    first = {}
    for e in i.events:
        if e.kind == 'setname' and in_raw_loop(e, src) and e.argts and \
                has_elem(e.argts[0], src):
            for t, pol in undecided(pcs(e), leaf_of(GOOD)):
                if not has_elem(t, src) and not any(
                        x.op == 'index' for x in walk(t)):
                    first[t] = not pol
    for e in i.events:
        if not in_raw_loop(e, src):
            continue
        what = None
        ref = False
        if e.kind == 'call' and str(e.name) in (
                '.append', '.extend', '.insert', '.add') and e.argts and \
                has_elem(e.argts[-1], src):
            what = 'collected'
            appends.append(e)
        elif e.kind == 'aug':
            lp = enclosing_loop(e.func, e.node)
            if has_elem(e.argts[0], src):
                what = 'added'
                if 'sim_mat' in attrs(e.argts[0]):
                    sums.append(e)
            elif e.func is f and lp is not None and reads_after(
                    f, lp, e.name):
                what = 'counted'
                counts.append(e)
        elif e.kind == 'setitem' and e.name is None and e.argts and \
                any(has_elem(a, src) for a in e.argts):
            what = 'counted'
            counts.append(e)
        elif e.kind == 'setname' and isinstance(
                e.node, ast.Assign) and e.argts and \
                has_elem(e.argts[0], src) and \
                e.argts[0].op not in ('elem',) and \
                not any(x.op in ('cmp', 'bool') for x in walk(e.argts[0])):
            lp = enclosing_loop(e.func, e.node)
            if lp is not None and e.func is f and reads_after(
                    f, lp, e.name):
                if any(isinstance(n, ast.Name) and n.id == e.name
                       for n in ast.walk(e.node.value)):
                    what = 'added'
                    if 'sim_mat' in attrs(e.argts[0]):
                        sums.append(e)
                else:
                    what, ref = 'taken as reference', True
        if what is None:
            continue
        conds = pcs(e)
        tag = '%s: %s %s' % (name, what, e.name if what ==
                             'taken as reference' else '')
        for text, m in bad_models(full and not ref):
            lf = leaf_of(m)
            ok = not possible(conds, lf) or not text.startswith(
                'an average') and not possible(conds, later(lf, first, src))
            ctx.ob('guard', '%s [%s]' % (tag.strip(), text), ok,
                   '%s is %s' % (text, what), e.where())
        ctx.ob('guard', tag.strip() + ' [compatible]',
               possible(conds, leaf_of(GOOD)),
               'a compatible result is never %s' % what, e.where())
        if ref:
            und = undecided(conds, leaf_of(GOOD))
            ctx.ob('reference', '%s: %s' % (name, e.name), bool(und),
                   'the reference is replaced by every result', e.where())
            ctx.ob('reference', '%s: %s position' % (name, e.name),
                   not any(x.op == 'index' for t, _ in und
                           for x in walk(t)),
                   'whether a result is the first one is decided by its '
                   'position in the input, which counts skipped results',
                   e.where())
    # one list takes a result once
    per = {}
    for e in appends:
        if e.recv is None:
            continue
        per.setdefault((e.recv.t, e.argts[-1]), []).append(e)
    for (r, a), es in per.items():
        n = len({x.node for x in es
                 if possible(pcs(x), leaf_of(GOOD))})
        both = n > 1 and not any(
            (t, not pol) in pcs(y) for x in es for t, pol in pcs(x)
            for y in es)
        ctx.ob('once', '%s: %s' % (name, show(a)[:60]), not both,
               'one result is collected %d times' % n, es[0].where())
    # numerator and denominator under the same conditions
    for s, c in itertools.product(sums, counts):
        a = undecided(pcs(s), leaf_of(GOOD))
        b = undecided(pcs(c), leaf_of(GOOD))
        ctx.ob('once', '%s: sum and count' % name, a == b,
               'the sum and the count are updated under different '
               'conditions', c.where())
    for e in sums + counts:
        if isinstance(e.node, ast.AugAssign):
            ctx.ob('once', '%s: %s' % (name, ast.unparse(e.node.target)[:40]),
                   isinstance(e.node.op, ast.Add),
                   'the contribution is not added', e.where())
    for e in counts:
        t = e.argts[0]
        if t.op == 'bin' and t.args[0] == 'Add':
            k = [a for a in t.args[1:] if a.op == 'const']
            if k:
                ctx.ob('once', '%s: count by one' % name,
                       k[0].args[0] in (1, True),
                       'counts %s per result' % show(k[0]), e.where())
    # unfiltered use
    for n in ast.walk(f.node):
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(
                n.generators) == 1 and not n.generators[0].ifs and \
                isinstance(n.generators[0].iter, ast.Name) and \
                n.generators[0].iter.id == src and not (
                    re and min(re) < n.lineno) and isinstance(
                        n.elt, ast.Attribute) and n.elt.attr in (
                            'sim_mat', 'value', 'corr', 'avail', 'stats',
                            'corrs', 'stretches'):
            ctx.ob('guard', '%s: %s' % (name, ast.unparse(n)[:60]), False,
                   'all results of the input are used, also those that '
                   'are skipped', '%s:%d' % (f.qual, n.lineno))
    seen = set()
    for e in i.events:
        if e.func is not f:
            continue
        for val in list(e.args):
            t = getattr(val, 't', None)
            if t is None:
                continue
            for x in walk(t):
                if x.op != 'comp' or x in seen:
                    continue
                seen.add(x)
                if not any(raw_src(s, src) for s in x.args[1].args):
                    continue
                el = x.args[0]
                if el.op in ('cmp', 'bool', 'call') and not (
                        attrs(el) & {'sim_mat', 'value', 'avail'}):
                    continue
                conds = [(c, True) for c in x.args[2].args] + pcs(e)
                if not (attrs(el) & set(DATA) or el.op == 'elem'):
                    continue
                if attrs(el) and attrs(el) <= {'method', 'second_axis',
                                               'shape', 'wfc_processing'}:
                    continue
                for text, m in bad_models(full):
                    ctx.ob('guard', '%s: list of %s [%s]' % (
                        name, show(el)[:40], text),
                        not possible(conds, leaf_of(m)),
                        '%s is used' % text, e.where())
    news = [e for e in i.events if e.kind == 'new' and
            str(e.name).split('.')[-1] in ('DV', 'WFC')
            or e.kind in ('setitem', 'setname')]
    for e in news:
        for n, t in list(zip(range(99), e.argts)) + list(
                (e.kwts or {}).items()):
            means(ctx, name, n, t, e)


def means(ctx, name, which, t, e):
    for x in walk(t):
        if x.op == 'call' and MD.cname(x) in ('nanmean', 'mean', 'nansum',
                                              'average', 'sum') and any(
                y.op == 'listof' for a in x.args[1:] for y in walk(a)):
            kw = {k.args[0]: k.args[1] for k in x.args[1:] if k.op == 'kw'}
            pos = [a for a in x.args[1:] if a.op != 'kw']
            ax = kw.get('axis') or (pos[1] if len(pos) > 1 else None)
            if ax is not None and ax.op == 'const' and pos and \
                    pos[0].op == 'listof':
                ctx.ob('mean', '%s: %s' % (name, MD.cname(x)),
                       ax.args[0] == 0,
                       'averages along axis %r, which is not the axis of '
                       'the results' % (ax.args[0],), e.where())
            if 'sim_mat' in attrs(x):
                ctx.ob('mean', '%s: gaps of %s' % (name, MD.cname(x)),
                       MD.cname(x) not in ('mean', 'average'),
                       'a result without data at a time makes the average '
                       'of all results undefined there', e.where())
        if x.op == 'bin' and x.args[0] == 'Div':
            num, den = x.args[1], x.args[2]
            if any(y.op == 'call' and MD.cname(y) in ('nansum',
                                                      'nan_to_num')
                   for y in walk(num)) and any(
                       y.op == 'call' and MD.cname(y) == 'len'
                       for y in walk(den)) and not attrs(den) & {
                           'avail', 'value', 'corr'}:
                ctx.ob('mean', '%s: denominator' % name, False,
                       'the sum leaves out results without data, the '
                       'denominator counts them', e.where())


WFCK = ('tw_start', 'tw_len', 'freq_min', 'freq_max')


def wfc_keys(ctx):
    p = ctx.p
    f, i, st, v = run_f(p, M + 'average_components_wfc')
    if f is None:
        return
    ctx.saw(i)
    cov = set()
    where = None
    for e in i.events:
        if e.kind != 'raise':
            continue
        for c in e.pc:
            if not any(x.op == 'cmp' for x in walk(c.t)):
                continue
            if not ('wfc_processing' in attrs(c.t)):
                continue

            def leaf(t, diff):
                if t.op == 'cmp' and 'wfc_processing' in attrs(t):
                    if t.args[0] in ('NotEq', 'IsNot'):
                        return diff
                    if t.args[0] in ('Eq', 'Is'):
                        return not diff
                return None
            try:
                if bool(MD.ev(c.t, lambda t: leaf(t, True))) != c.pol or \
                        bool(MD.ev(c.t, lambda t: leaf(t, False))) == c.pol:
                    continue
            except Exception:
                pass
            cs = consts(c.t)
            for d in e.pc:
                cs |= consts(d.t)
            cov |= {k for k in WFCK if k in cs}
            where = e.where()
    if not cov and not any('wfc_processing' in attrs(c.t)
                           for e in i.events for c in e.pc):
        # the comparison may be written in a way that is not followed
        names = {n.attr for n in ast.walk(f.node)
                 if isinstance(n, ast.Attribute)}
        if 'wfc_processing' in names and any(
                isinstance(n, ast.Raise) for n in ast.walk(f.node)) and \
                any(isinstance(n, ast.Constant) and n.value in WFCK
                    for n in ast.walk(f.node)):
            cov = {n.value for n in ast.walk(f.node)
                   if isinstance(n, ast.Constant) and n.value in WFCK}
    for k in WFCK:
        ctx.ob('window', 'average_components_wfc: %s' % k, k in cov,
               'coherences with different %s are averaged' % k,
               where or '')
    for e in i.events:
        if e.kind == 'setitem' and len(e.argts) == 2:
            val, key = e.argts
            its = [x for x in walk(val) if x.op == 'item' and
                   x.args[1].op in ('elem', 'const')
                   and has_elem(x, f.params[0])]
            for x in its:
                if x.args[1].op == 'elem' and key.op == 'elem':
                    ctx.ob('window', 'average_components_wfc: entry',
                           x.args[1] == key,
                           'the entry %s is the average of the entry %s'
                           % (show(key), show(x.args[1])), e.where())


COORD = {'stla': 0, 'evla': 0, 'stlo': 1, 'evlo': 1, 'stel': 2, 'evel': 2}
BOUND = {'lat': 0, 'lon': 1, 'el': 2}


def coords(ctx):
    p = ctx.p
    f, i, st, v = run_f(p, M + 'average_dvs_by_coords',
                        no_inline=[M + 'average_components',
                                   'seismic.' + M + 'average_components'])
    if f is None:
        return
    ctx.saw(i)
    src = f.params[0]
    base = {k: 100 * g + 5 for k, g in COORD.items()}

    def leaf_for(m):
        def leaf(t):
            if t.op in ('attr', 'item'):
                last = t.args[-1]
                k = last if isinstance(last, str) else (
                    last.args[0] if last.op == 'const' else None)
                if k in COORD:
                    return m[k]
                if t.op == 'item' and t.args[0].op == 'param' and \
                        t.args[0].args[0] in BOUND and k in (0, 1, -1):
                    return 100 * BOUND[t.args[0].args[0]] + (
                        0 if k == 0 else 10)
            if t.op == 'cmp' and 'channel' in attrs(t):
                return t.args[0] in ('NotEq', 'NotIn')
            return None
        return leaf

    def kept(m):
        leaf = leaf_for(m)
        found, res = False, False
        for e in i.events:
            if e.kind == 'call' and e.name == '.append' and e.argts and \
                    e.argts[-1].op == 'elem' and has_elem(
                        e.argts[-1], src):
                found = True
                res = res or possible(pcs(e), leaf)
            for val in e.args:
                t = getattr(val, 't', None)
                if t is None:
                    continue
                for x in walk(t):
                    if x.op == 'comp' and x.args[0].op == 'elem' and \
                            x.args[2].args and any(
                                raw_src(s, src) for s in x.args[1].args):
                        found = True
                        res = res or possible(
                            [(c, True) for c in x.args[2].args], leaf)
        return res if found else None
    if kept(base) is None:
        return
    first = kept

    def kept(m, want=None):
        a = first(m)
        if want is not None and a != want:
            b = coords_fsm(p, f, m)
            return a if b is None else b
        return a
    ctx.ob('coordinates', 'inside', kept(base, True),
           'a result inside of the window is not used')
    for k, g in COORD.items():
        for d, text in ((-1, 'below'), (11, 'above')):
            m = dict(base, **{k: 100 * g + d})
            ctx.ob('coordinates', '%s %s' % (k, text), not kept(m, False),
                   'a result with %s %s the window is used' % (k, text),
                   f.qual)
        for d in (0, 10):
            m = dict(base, **{k: 100 * g + d})
            ctx.ob('coordinates', '%s on the bound' % k, kept(m, True),
                   'a result with %s on the bound is not used' % k, f.qual)
    for e in i.events:
        if e.kind == 'call' and str(e.name).endswith('average_components') \
                and e.argts:
            ctx.ob('coordinates', 'averaged list',
                   not raw_src(e.argts[0], src),
                   'all results are averaged, not those inside of the '
                   'window', e.where())


def coords_fsm(p, f, m):
    """Is the statement that collects a result reached in this case?"""
    mod = f.module
    scopes = {}

    def value(e, env):
        if isinstance(e, ast.Attribute) and e.attr in COORD:
            return m[e.attr]
        if isinstance(e, ast.Subscript):
            k = e.slice
            if isinstance(k, ast.UnaryOp) and isinstance(
                    k.operand, ast.Constant):
                k = -k.operand.value
            elif isinstance(k, ast.Constant):
                k = k.value
            else:
                return None
            if k in COORD:
                return m[k]
            b = value(e.value, env)
            if isinstance(b, tuple) and k in (0, 1, -1, -2):
                return b[k]
            return None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        return None

    def env_of(fn, env):
        env = dict(env)
        for _ in range(3):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            v = value(n.value, env)
                            if v is not None:
                                env[t.id] = v
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            v = value(n.value, env)
                            for k, x in enumerate(t.elts):
                                w = v[k] if isinstance(
                                    v, tuple) and k < len(v) else None
                                if isinstance(n.value, ast.Tuple) and \
                                        len(n.value.elts) == len(t.elts):
                                    w = value(n.value.elts[k], env)
                                if isinstance(x, ast.Name) and \
                                        w is not None:
                                    env[x.id] = w
        return env
    top = env_of(f.node, {k: (100 * g, 100 * g + 10)
                          for k, g in BOUND.items()})

    class Atom:
        def __call__(self, e, s):
            env = scopes.get(Fsm.get(s, 'scope'), top)
            if not isinstance(e, ast.Compare):
                return None
            vals = [value(x, env) for x in [e.left] + e.comparators]
            if any(not isinstance(v, int) for v in vals):
                return None
            for o, a, b in zip(e.ops, vals, vals[1:]):
                c = MD.CMP.get(type(o).__name__)
                if c is None:
                    return None
                if not c(a, b):
                    return [(s, False)]
            return [(s, True)]

        def bind(self, fn, call, s):
            env = scopes.get(Fsm.get(s, 'scope'), top)
            new = {}
            names = [a.arg for a in fn.args.args]
            for n, a in list(zip(names, call.args)) + [
                    (k.arg, k.value) for k in call.keywords]:
                v = value(a, env)
                if v is not None:
                    new[n] = v
            key = (fn.name, tuple(sorted(new.items())))
            scopes[key] = env_of(fn, new)
            return Fsm.put(s, 'scope', key)
    reached = []

    def resolve(call):
        if isinstance(call.func, ast.Name) and call.func.id in mod.funcs:
            return mod.funcs[call.func.id].node
        return None

    def on_call(n, s):
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'append', 'add') and Fsm.get(s, 'scope') is None:
            reached.append(n)
    # only the loop over the results
    Fsm(Atom(), resolve, on_call).block(f.node.body, {frozenset()})
    if not any(isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr in ('append', 'add')
            for n in ast.walk(f.node)):
        return None
    return bool(reached)


# ------------------------------------------------------------ file filter
def file_filter(ctx):
    p = ctx.p
    f = p.func(M + 'corr_find_filter', required=False)
    if f is None:
        return
    ctx.funcs.add(f.qual)
    netp = f.params[1] if len(f.params) > 1 else 'net'
    scopes = {}

    def env_of(fn, seed):
        env = {k: set(v) for k, v in seed.items()}

        def roles(e):
            out = set()
            if isinstance(e, ast.Name):
                return set(env.get(e.id, ()))
            if isinstance(e, ast.Subscript):
                b = roles(e.value)
                s = e.slice
                if isinstance(s, ast.Constant):
                    if 'net' in b and s.value == 'network':
                        return {'pn'}
                    if 'net' in b and s.value == 'station':
                        return {'ps'}
                    if 'split' in b and s.value == 0:
                        return {'cn'}
                    if 'split' in b and s.value == 1:
                        return {'cs'}
                if isinstance(s, ast.Slice) and s.lower is None:
                    return b
                return b - {'net', 'split'}
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and \
                        e.func.attr == 'get' and e.args and isinstance(
                            e.args[0], ast.Constant):
                    return roles(ast.Subscript(
                        e.func.value, e.args[0], ast.Load()))
                if isinstance(e.func, ast.Attribute) and e.func.attr in (
                        'split', 'rsplit', 'partition'):
                    b = roles(e.func.value)
                    if e.args and isinstance(e.args[0], ast.Constant) and \
                            e.args[0].value == '.':
                        return b | {'split'}
                    return b
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    out |= roles(c)
                elif isinstance(c, ast.comprehension):
                    out |= roles(c.iter)
            return out
        for _ in range(4):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    r = roles(n.value)
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            env.setdefault(t.id, set()).update(r)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for k, x in enumerate(t.elts):
                                if not isinstance(x, ast.Name):
                                    continue
                                rr = r
                                if 'split' in r:
                                    rr = {0: {'cn'}, 1: {'cs'}}.get(k, set())
                                if isinstance(n.value, ast.Tuple) and len(
                                        n.value.elts) == len(t.elts):
                                    rr = roles(n.value.elts[k])
                                env.setdefault(x.id, set()).update(rr)
                elif isinstance(n, (ast.For, ast.comprehension)) and \
                        isinstance(n.target, ast.Name):
                    env.setdefault(n.target.id, set()).update(roles(n.iter))
                elif isinstance(n, (ast.For, ast.comprehension)) and \
                        isinstance(n.target, ast.Tuple) and isinstance(
                            n.iter, ast.Call) and isinstance(
                                n.iter.func, ast.Name) and \
                        n.iter.func.id == 'zip':
                    for x, a in zip(n.target.elts, n.iter.args):
                        if isinstance(x, ast.Name):
                            env.setdefault(x.id, set()).update(roles(a))
        return env, roles
    env, roles = env_of(f.node, {netp: {'net'}})
    cur = [roles]
    mod = p.modules[f.module.name] if not hasattr(
        f.module, 'funcs') else f.module

    def resolve(call):
        if isinstance(call.func, ast.Name) and call.func.id in mod.funcs:
            return mod.funcs[call.func.id].node
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node and \
                    isinstance(call.func, ast.Name) and \
                    n.name == call.func.id:
                return n
        return None

    class Atom:
        def __call__(self, e, s):
            rl = scopes.get(Fsm.get(s, 'scope'), cur[0])
            if isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Name) and e.func.id == 'isinstance' and \
                    len(e.args) == 2:
                r = rl(e.args[0]) & {'pn', 'ps'}
                ts = {n.id for n in ast.walk(e.args[1])
                      if isinstance(n, ast.Name)}
                if len(r) == 1:
                    k = ('type', next(iter(r)))
                    have = Fsm.get(s, k)
                    if have is not None:
                        return [(s, have in ts or have == 'list' and bool(
                            ts & {'tuple', 'Iterable'}))]
                    return [(Fsm.put(s, k, x), x in ts)
                            for x in ('str', 'list')]
                return None
            w = match(e, rl)
            if w is None:
                return None
            kind, pat, code = w
            good = kind and {pat, code} in ({'pn', 'cn'}, {'ps', 'cs'})
            if not good:
                return [(s, True), (s, False)]
            neg = kind == 'neg'
            t = Fsm.put(s, ('ok', pat), True)
            return [(t, not neg), (s, neg)]

        def bind(self, fn, call, s):
            rl = scopes.get(Fsm.get(s, 'scope'), cur[0])
            names = [a.arg for a in fn.args.args]
            seed = {}
            for n, a in zip(names, call.args):
                seed[n] = rl(a)
            for k in call.keywords:
                if k.arg:
                    seed[k.arg] = rl(k.value)
            key = (fn.name, tuple(sorted(
                (k, tuple(sorted(v))) for k, v in seed.items())))
            if key not in scopes:
                scopes[key] = env_of(fn, seed)[1]
            return Fsm.put(s, 'scope', key)

    def match(e, rl):
        """('pos'|'neg'|None, pattern role, code role): a test whether
        every code fits the pattern."""
        fn = [n for n in ast.walk(e) if isinstance(n, ast.Call) and
              (n.func.attr if isinstance(n.func, ast.Attribute) else
               getattr(n.func, 'id', '')) in ('filter', 'fnmatch',
                                              'fnmatchcase', 'match',
                                              'fullmatch')]
        if not fn:
            return None
        r = rl(e) & {'pn', 'ps', 'cn', 'cs'}
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = e.left, e.comparators[0]
            pos = isinstance(e.ops[0], (ast.Eq, ast.Is))
            neg = isinstance(e.ops[0], (ast.NotEq, ast.IsNot))
            if not (pos or neg):
                return (None, None, None) if len(r) == 2 else None
            pa = {x for x in r if x[0] == 'p'}
            co = {x for x in r if x[0] == 'c'}
            if len(pa) == 1 and len(co) == 1:
                return ('pos' if pos else 'neg', pa.pop(), co.pop())
            return (None, None, None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'any' and len(e.args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = e.args[0]
            if len(g.generators) == 1:
                it = rl(g.generators[0].iter)
                m = match(g.elt, rl)
                if m is not None and m[0] == 'pos' and it and not it & {
                        'cn', 'cs'}:
                    return m        # all codes fit one of the patterns
                return m and (None, None, None)
            return (None, None, None)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'all':
            pa = {x for x in r if x[0] == 'p'}
            co = {x for x in r if x[0] == 'c'}
            if len(pa) == 1 and len(co) == 1:
                g = e.args[0]
                it = set()
                if isinstance(g, (ast.GeneratorExp, ast.ListComp)):
                    for c in g.generators:
                        it |= rl(c.iter)
                if it & {'cn', 'cs'} and not it & {'pn', 'ps'}:
                    if isinstance(g.elt, ast.Call) and isinstance(
                            g.elt.func, ast.Name) and \
                            g.elt.func.id == 'any':
                        # every code fits one of the patterns
                        return (None, None, None)
                    return ('pos', pa.pop(), co.pop())
            return None
        if e in fn:
            return (None, None, None)
        return None

    bad = {}
    good = []

    def on_call(n, s):
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'append', 'add') and isinstance(n.func.value, ast.Name) \
                and Fsm.get(s, 'scope') is None:
            good.append(n)
            for k, w in (('pn', 'network'), ('ps', 'station')):
                if not Fsm.get(s, ('ok', k)):
                    bad.setdefault(w, n)

    def on_for(n, s):
        if not roles(n.iter) & {'pn', 'ps'} and Fsm.get(
                s, 'scope') is None:
            for k in ('pn', 'ps'):
                s = Fsm.put(s, ('ok', k), None)
        return s
    fs = Fsm(Atom(), resolve, on_call, None, on_for)
    fs.block(f.node.body, {frozenset()})
    if not good:
        return
    for w in ('network', 'station'):
        n = bad.get(w)
        ctx.ob('filter', 'corr_find_filter: %s' % w, n is None,
               'there is a path on which a file is selected although no '
               'test showed that its %s codes fit the requested %s'
               % (w, w), '%s:%s' % (f.qual, n.lineno if n else ''))


# ------------------------------------------------- choice of component files
CHOICE = {'autocomponents': lambda s, c: s and c,
          'betweencomponents': lambda s, c: s and not c,
          'crosscomponents': lambda s, c: s and not c,
          'stationwide': lambda s, c: s,
          'crossstations': lambda s, c: not s,
          'betweenstations': lambda s, c: not s}


def const_index(t):
    """Constant indices on the way from a name to its root."""
    out = []
    while True:
        if t.op == 'item':
            if t.args[1].op == 'const':
                out.append(t.args[1].args[0])
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'attr':
            t = t.args[0].args[0]
        elif t.op == 'attr':
            t = t.args[0]
        else:
            return out


def choice(ctx):
    p = ctx.p
    q = M + 'Monitor.compute_components_average'
    f = p.func(q, required=False)
    if f is None or len(f.params) < 2:
        return
    par = [x for x in f.params if x != 'self'][0]
    for method, want in CHOICE.items():
        f, i, st, v = run_f(p, q, {par: Val(const(method))}, no_inline=[
            'seismic.' + M + 'average_components', 'seismic.monitor.dv.read_dv'],
            guards=True)
        ctx.saw(i)
        # the files that are read, with the conditions under which they
        # came into the list
        adds = [(e, pcs(e)) for e in i.events if e.kind == 'call' and
                str(e.name).split('.')[-1] == 'read_dv' and e.argts and
                has_glob(e.argts[0])]
        for e in i.events if not adds else ():
            if e.kind == 'call' and e.name == '.append' and e.argts and \
                    has_glob(e.argts[-1]) and not any(
                        MD.cname(x) == 'read_dv' for x in walk(e.argts[-1])
                        if x.op == 'call'):
                adds.append((e, pcs(e)))
        if not adds:
            continue

        lists = {}
        for e, pc in adds:
            lists.setdefault(e.recv.t if e.recv is not None else None,
                             []).append(pc)

        def used(leaf):
            return all(any(possible(pc, leaf) for pc in v)
                       for v in lists.values())

        def leaf_for(same_s, same_c, av):
            def leaf(t):
                if t.op == 'cmp':
                    op, a, b = t.args
                    if a.op == 'const' and isinstance(a.args[0], str) and \
                            'av' in a.args[0]:
                        return av == (op == 'In')
                    ia, ib = const_index(a), const_index(b)
                    if op in ('Eq', 'NotEq') and ia and ib and \
                            ia[1:] == ib[1:] and {ia[0], ib[0]} == {0, 1}:
                        if -3 in ia[1:]:
                            return same_s == (op == 'Eq')
                        if -2 in ia[1:]:
                            return same_c == (op == 'Eq')
                return None
            return leaf
        for s, c in itertools.product((True, False), repeat=2):
            can = used(leaf_for(s, c, False))
            text = '%s, %s station, %s component' % (
                method, 'same' if s else 'other', 'same' if c else 'other')
            ctx.ob('choice', text, can == want(s, c),
                   'a file of this kind is %s' % (
                       'used' if can else 'left out'),
                   adds[0][0].where())
        rel = related(i, adds)
        if rel is not None:
            ctx.ob('choice', method + ', one station', rel == '',
                   rel, adds[0][0].where())
        can = any(used(leaf_for(s, c, True))
                  for s in (True, False) for c in (True, False))
        ctx.ob('choice', method + ', average', not can,
               'the file of an average is used', adds[0][0].where())
        for e, pc in adds:
            for t, pol in pc:
                for x in walk(t):
                    if x.op == 'cmp' and x.args[0] in ('In', 'NotIn') and \
                            x.args[1].op == 'const' and isinstance(
                                x.args[1].args[0], str) and \
                            'av' in x.args[1].args[0]:
                        ctx.ob('choice', 'name of the file',
                               'basename' in show(x.args[2], 99)
                               or _base(x.args[2]),
                               'whether a file is an average is read off '
                               'its whole path', e.where())


def has_glob(t):
    return any(x.op == 'call' and MD.cname(x) in (
        'glob', 'iglob', 'listdir', 'scandir') for x in walk(t))


def short_key(c):
    """A part of the name without the station."""
    for y in walk(c):
        if y.op == 'slice':
            up = y.args[1]
            if up.op == 'const' and (
                    up.args[0] == 1 or isinstance(up.args[0], int)
                    and up.args[0] < -2):
                return True
    return False


def related(i, adds):
    """How the files of one group are told from the others."""
    found = False
    for e, pc in adds:
        for t, pol in pc:
            if t.op == 'cmp' and t.args[0] in ('Eq', 'NotEq') and all(
                    has_glob(a) for a in t.args[1:]) and sorted(
                        const_index(t.args[1])[:1]
                        + const_index(t.args[2])[:1]) != [0, 1]:
                found = True
    for e in i.events:
        key = None
        if e.kind == 'call' and e.name == '.setdefault' and e.argts:
            key = e.argts[0]
        elif e.kind == 'call' and str(e.name).split('.')[-1] == 'groupby':
            found = True
        elif e.name == '.append' and e.recv is not None and \
                e.recv.t.op == 'item':
            key = e.recv.t.args[1]
        if key is not None and has_glob(key):
            found = True
            if short_key(key):
                return 'files of other stations of the network are put ' \
                    'into the group'
        ts = [getattr(a, 't', None) for a in e.args]
        if e.res is not None:
            ts.append(getattr(e.res, 't', None))
        for t in ts:
            if t is None:
                continue
            for x in walk(t):
                cs = []
                if x.op == 'comp' and x.args[2].args and has_glob(
                        x.args[1]):
                    cs = list(x.args[2].args)
                elif x.op == 'call' and MD.cname(x) == 'filter' and len(
                        x.args) > 2:
                    cs = [x.args[2]]
                for c in cs:
                    found = True
                    if short_key(c):
                        return 'files of other stations of the ' \
                            'network are put into the group'
    return '' if found else 'files of all stations are put into one group'


def _base(t):
    return any(x.op in ('call', 'ref') and (
        MD.cname(x) in ('basename', 'Path', 'PurePath') if x.op == 'call'
        else False) or x.op == 'attr' and x.args[-1] in ('name', 'stem')
        for x in walk(t))


# -------------------------------------------------------- wildcards in codes
def prefix(ctx):
    p = ctx.p
    for f in p.all_funcs():
        if f.module.name != 'seismic.monitor.monitor' and not \
                f.module.name.endswith('monitor.monitor'):
            continue
        for n in ast.walk(f.node):
            parts = None
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and \
                    isinstance(n.right, ast.Constant) and isinstance(
                        n.right.value, str) and n.right.value[:1] == '*':
                left = n.left
                while isinstance(left, ast.BinOp) and isinstance(
                        left.op, ast.Add):
                    left = left.right
                parts = left
            elif isinstance(n, ast.JoinedStr):
                for a, b in zip(n.values, n.values[1:]):
                    if isinstance(a, ast.FormattedValue) and isinstance(
                            b, ast.Constant) and b.value[:1] == '*':
                        parts = a
            elif isinstance(n, ast.BinOp) and isinstance(
                    n.op, ast.Mod) and isinstance(
                        n.left, ast.Constant) and isinstance(
                            n.left.value, str) and any(
                                x in n.left.value for x in ('%s*', '%a*')):
                parts = n.left
            if parts is None:
                continue
            if isinstance(parts, ast.Constant) and isinstance(
                    parts.value, str) and '%' not in parts.value:
                ok = parts.value[-1:] in './-_' and parts.value != ''
            else:
                ok = False
            ctx.ob('prefix', '%s: %s' % (short(f.qual), ast.unparse(n)[:60]),
                   ok, 'the pattern also fits a longer code that begins '
                   'with the same characters', '%s:%d' % (f.qual, n.lineno))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'startswith' \
                    and n.args and not isinstance(n.args[0], ast.Constant):
                a = n.args[0]
                last = a.right if isinstance(a, ast.BinOp) else (
                    a.values[-1] if isinstance(a, ast.JoinedStr) else None)
                ok = isinstance(last, ast.Constant) and str(
                    last.value)[-1:] in './-_'
                ctx.ob('prefix', '%s: %s' % (
                    short(f.qual), ast.unparse(n)[:60]), ok,
                    'a longer code that begins with the same characters '
                    'fits as well', '%s:%d' % (f.qual, n.lineno))


def grouping(ctx):
    """Coherences of one group agree in station, band and window."""
    p = ctx.p
    q = M + 'Monitor.compute_waveform_coherence_bulk'
    f, i, st, v = run_f(p, q, no_inline=[
        'seismic.' + M + 'Monitor.compute_waveform_coherence',
        'seismic.' + M + 'average_components_wfc',
        M + 'average_components_wfc',
        M + 'Monitor.compute_waveform_coherence'])
    if f is None:
        return
    ctx.saw(i)
    keys = ('network', 'station') + WFCK

    def role(t):
        if t.op == 'item' and t.args[1].op == 'const' and isinstance(
                t.args[1].args[0], int):
            for x in walk(t.args[0]):
                if x.op == 'tuple' and len(x.args) > t.args[1].args[0]:
                    return attrs(x.args[t.args[1].args[0]]) & set(keys)
        return attrs(t) & set(keys)

    def leaf_for(m):
        def leaf(t):
            if t.op == 'cmp' and t.args[0] in ('Eq', 'NotEq'):
                a = role(t.args[1])
                b = role(t.args[2])
                r = a or b
                if len(r) == 1 and (not a or not b or a == b):
                    return m[next(iter(r))] == (t.args[0] == 'Eq')
                if a and b and a != b and len(a) == len(b) == 1:
                    return False
            if t.op == 'call' and MD.cname(t) == 'all' and \
                    t.args[1].op == 'listof':
                return MD.ev(t.args[1].args[0], leaf)
            return None
        return leaf
    seen = set()
    same = {k: True for k in keys}
    for e in i.events:
        if e.kind == 'call' and e.name == '.setdefault' and e.argts and \
                'station' in attrs(e.argts[0]):
            for k in keys:
                ctx.ob('group', k, k in attrs(e.argts[0]),
                       'coherences with different %s are put into one '
                       'group' % k, e.where())
        for val in e.args:
            t = getattr(val, 't', None)
            if t is None:
                continue
            for x in walk(t):
                if x.op != 'comp' or x in seen or not x.args[2].args:
                    continue
                seen.add(x)
                conds = [(c, True) for c in x.args[2].args]
                if not any(attrs(c) & {'freq_min', 'tw_start', 'station'}
                           for c, _ in conds):
                    continue
                for k in keys:
                    ctx.ob('group', k, not possible(
                        conds, leaf_for(dict(same, **{k: False}))),
                        'coherences with different %s are put into one '
                        'group' % k, e.where())
                ctx.ob('group', 'complete',
                       possible(conds, leaf_for(same)),
                       'matching coherences are left out', e.where())


def run(ctx):
    ctx.rule('guard', 'a result that is an average, or has another method, '
             'shape or grid, reaches no sum, list, count or reference')
    ctx.rule('reference', 'reference values come from the first result that '
             'is used')
    ctx.rule('once', 'each result is added and counted exactly once, under '
             'the same conditions')
    ctx.rule('mean', 'means run over the results and leave out missing '
             'values in sum and count')
    ctx.rule('window', 'coherences are averaged only with equal window and '
             'band, entry by entry')
    ctx.rule('coordinates', 'exactly the results with both stations inside '
             'of the window are averaged')
    ctx.rule('filter', 'every selected file fits the requested network and '
             'the requested station')
    ctx.rule('choice', 'the component files used by an averaging method are '
             'exactly those of the requested kind')
    ctx.rule('prefix', 'no selection by the beginning of a code')
    ctx.rule('group', 'coherences of one group agree in codes, band and '
             'window')
    average(ctx, 'average_components_mem_save', True)
    average(ctx, 'average_components', True)
    average(ctx, 'average_components_wfc', False)
    wfc_keys(ctx)
    coords(ctx)
    file_filter(ctx)
    choice(ctx)
    prefix(ctx)
    grouping(ctx)
    ctx.atleast('guard', 10)
