"""C13: one sign convention for estimated and applied stretches and shifts.

Every place where an interpolant of a trace is evaluated on a changed lag
axis is found in the extracted terms.  The point of evaluation is brought to
a normal form in the lag axis of the interpolant (t) and the estimated or
given value (x): t * exp(k x), t * (1 + k x) or t + k x.  The forms of
estimators, of the functions that apply a value and of the corrections are
then compared algebraically.
"""
from fractions import Fraction
from sa.interp import Interp, State, Val
from sa.terms import T, const, mk, walk, show
from sa.util import short
from sa import poly as P
from rules import c11 as C11
from rules.c17 import cname

E = frozenset()
SM = 'monitor.stretch_mod.'
PCP = 'monitor.post_corr_process.'
BULK = 'correlate.stream.CorrBulk.'
CTORS = ('UnivariateSpline', 'InterpolatedUnivariateSpline', 'interp1d',
         'CubicSpline', 'PchipInterpolator', 'Akima1DInterpolator',
         'make_interp_spline', 'LSQUnivariateSpline')
SAME = ('atleast_2d', 'atleast_1d', 'squeeze', 'asarray', 'array', 'copy',
        'deepcopy', 'ravel', 'flatten', 'reshape', 'float', 'astype',
        'delete')
BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult',
       'divide': 'Div', 'true_divide': 'Div'}
TT, XX = mk('param', '<t>'), mk('param', '<x>')


def part(k):
    """The index takes a part, or reverses the order."""
    return any(x.op == 'slice' and any(
        not (a.op == 'const' and a.args[0] in (None, 1)) for a in x.args)
        for x in ((k,) if k.op != 'tuple' else k.args))


def strip(t):
    """The array a term selects from or wraps."""
    while True:
        if t.op == 'elem':
            t = t.args[0]
        elif t.op == 'item' and not (t.args[1].op == 'const' and isinstance(
                t.args[1].args[0], str)) and not part(t.args[1]):
            t = t.args[0]
        elif t.op == 'call' and cname(t) in SAME and len(t.args) > 1:
            t = t.args[1] if t.args[0].op == 'ref' else t.args[0].args[0]
        elif t.op == 'attr' and t.args[1] == 'T':
            t = t.args[0]
        else:
            return t


def push(t):
    """elem(exp(X)) -> exp(elem(X)), elem(X * c) -> elem(X) * c."""
    if t.op in ('elem', 'item') and not (
            t.op == 'item' and t.args[1].op == 'const' and
            isinstance(t.args[1].args[0], str)):
        b = push(t.args[0])

        def el(a):
            if a.op == 'const':
                return a
            return push(mk('elem', a)) if t.op == 'elem' else push(
                mk('item', a, t.args[1]))
        if b.op == 'bin':
            return mk('bin', b.args[0], el(b.args[1]), el(b.args[2]))
        if b.op == 'un':
            return mk('un', b.args[0], el(b.args[1]))
        if b.op == 'call' and cname(b) == 'negative' and len(b.args) == 2:
            return mk('un', 'neg', el(b.args[1]))
        if b.op == 'call' and cname(b) in BIN and len(b.args) == 3:
            return mk('bin', BIN[cname(b)], el(b.args[1]), el(b.args[2]))
        if b.op == 'call' and cname(b) in ('array', 'asarray', 'copy') and \
                len(b.args) > 1 and b.args[0].op == 'ref' and \
                b.args[1].op in ('bin', 'un', 'call'):
            return el(b.args[1])
        if b.op == 'call' and cname(b) in ('exp',) and len(b.args) == 2:
            return mk('call', b.args[0], el(b.args[1]))
        if b.op == 'phi' and any(
                x.op in ('bin', 'un') for x in b.args):
            return mk('phi', *[el(x) for x in b.args])
    return t


def evaluations(i):
    """(event, axis, point, values) of every evaluated interpolant."""
    seen = set()
    for e in i.events:
        terms = list(e.argts) + list(e.kwts.values())
        for a in terms:
            for x in walk(a):
                if x.op != 'call' or x in seen:
                    continue
                c = x.args[0]
                if c.op == 'call' and cname(c) in CTORS and len(x.args) > 1:
                    pos = [y for y in c.args[1:] if y.op != 'kw']
                    kw = {y.args[0]: y.args[1] for y in c.args[1:]
                          if y.op == 'kw'}
                    ax = pos[0] if pos else kw.get('x')
                    if ax is None:
                        continue
                    seen.add(x)
                    yield e, ax, x.args[1]
                elif cname(x) == 'interp' and len(x.args) > 3:
                    seen.add(x)
                    yield e, x.args[2], x.args[1]


def form(point, axis, isx):
    """('exp' | 'lin' | 'shift', k) or ('other', text) or None."""
    def leaf(t):
        if t.op == 'call' and t.args[0].op == 'ref':
            n = cname(t)
            if n == 'negative' and len(t.args) == 2:
                return mk('un', 'neg', t.args[1])
            if n in BIN and len(t.args) == 3:
                return mk('bin', BIN[n], t.args[1], t.args[2])
        if t == axis or strip(t) == strip(axis) and t.op == 'elem':
            return TT
        if isx(t):
            return XX
        r = push(t)
        if r != t:
            return r
        r = strip1(t)
        if r != t:
            return r
        return None
    if odd(point, axis, isx):
        return None
    p = P.poly(point, leaf)
    ta, xa = P.atom(TT), P.atom(XX)
    (tk,), (xk,) = ta, xa
    tid, xid = tk[0][0], xk[0][0]
    if p == ta:
        return ('none', Fraction(0))
    # t + k x
    d = P.add(p, ta, -1)
    if len(d) == 1 and xk in d:
        return ('shift', d[xk])
    d2 = {m: c for m, c in d.items()}
    if len(d2) == 1:
        (m, c), = d2.items()
        if sorted(m) == sorted([(tid, 1), (xid, 1)]):
            return ('lin', c)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and dict(m).get(tid) == 1:
            k = Fraction(0)
            for a, n in m:
                if a == tid:
                    continue
                t = P._atoms[a]
                if t.op == 'call' and cname(t) == 'exp':
                    a = t.args[1]
                    u = dict(a.args[0]) if a.op == 'poly' else P.poly(
                        a, leaf)
                    if len(u) == 1 and xk in u:
                        k += n * u[xk]
                        continue
                if t.op == 'inv':
                    return None
                return ('other', show(point)[:100])
            return ('exp', k)
    return ('other', show(point)[:100])


def odd(t, axis, isx):
    """The value enters through something that has no normal form."""
    if t == axis or isx(t):
        return False
    if t.op == 'call' and not (cname(t) in BIN or cname(t) in SAME or
                               cname(t) in ('negative', 'exp')) and any(
            isx(x) for x in walk(t) if isinstance(x, T)):
        return True
    if t.op in ('phi', 'ifexp', 'more', 'unk') and any(
            isx(x) for x in walk(t)):
        return True
    return any(odd(a, axis, isx) for a in t.args if isinstance(a, T))


def unit(axis):
    """Unit of a lag axis: counted samples or lag in seconds."""
    todo, names, count = [axis], set(), False
    while todo:
        x = todo.pop()
        if x.op == 'call' and cname(x) in ('arange', 'len'):
            count = True
            if any(leafname(y) for y in x.args[1:] if isinstance(y, T)
                   for y in walk(y)) and not any(
                       y.op == 'attr' and y.args[1] == 'shape' or
                       cname(y) == 'len' for y in walk(x)):
                names.add('lag')
            continue
        if leafname(x):
            names.add('lag')
            continue
        if x.op == 'attr' and x.args[1] == 'shape':
            continue
        todo += [a for a in x.args if isinstance(a, T)]
    return 'seconds' if names else 'samples' if count else None


def leafname(x):
    n = None
    if x.op == 'item' and x.args[1].op == 'const':
        n = x.args[1].args[0]
    elif x.op == 'attr':
        n = x.args[1]
    return n in ('start_lag', 'end_lag', 'delta', 'sampling_rate')


def start(p, q, binds=()):
    f = p.func(q, required=False)
    if f is None or f.name != q.split('.')[-1]:
        return None
    i = Interp(p, budget=200000)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    ty = {str: 'str', bool: 'bool'}
    args = {k: Val(const(v), E, E, ty.get(type(v))) for k, v in
            dict(binds).items() if k in f.params}
    st, v = i.run(f, args, sv, st)
    return i, st, v, f


def grid_of(i, st):
    """The second axis that a function puts into its result."""
    out = []
    if st is None:
        return out
    for o in st.heap.values():
        if o.kind == 'dict' and 'second_axis' in o.fields:
            t = o.fields['second_axis'].t
            if t.op != 'absent' and t not in out:
                out.append(t)
    for e in i.events:
        if e.kind in ('call', 'new') and 'second_axis' in e.kwts:
            t = e.kwts['second_axis']
            if t not in out:
                out.append(t)
    return out


# name -> (function, constants, role of x)
ESTIMATE = {
    'time_stretch_estimate': (SM + 'time_stretch_estimate', None),
    'time_shift_estimate': (SM + 'time_shift_estimate', None),
    'create_shifted_ref_mat': (SM + 'create_shifted_ref_mat', 2),
    'measure_shift': (PCP + 'measure_shift', None),
    'corr_mat_shift': (PCP + 'corr_mat_shift', None),
    'corr_mat_stretch': (PCP + 'corr_mat_stretch', None),
}
APPLY = {
    'apply_stretch': (PCP + 'apply_stretch', 2),
    'apply_shift': (PCP + 'apply_shift', 2),
    'time_stretch_apply': (SM + 'time_stretch_apply', 1),
    'time_shift_apply': (SM + 'time_shift_apply', 1),
}
CORRECT = {
    'CorrBulk.correct_stretch': (BULK + 'correct_stretch', 'value'),
    'CorrBulk.correct_shift': (BULK + 'correct_shift', 'value'),
}
# estimator, other, relation of the coefficients
PAIRS = [
    ('time_stretch_estimate', 'CorrBulk.correct_stretch', 'opposite'),
    ('corr_mat_stretch', 'CorrBulk.correct_stretch', 'opposite'),
    ('time_stretch_estimate', 'apply_stretch', 'equal'),
    ('time_stretch_estimate', 'time_stretch_apply', 'equal'),
    ('create_shifted_ref_mat', 'CorrBulk.correct_shift', 'opposite'),
    ('measure_shift', 'CorrBulk.correct_shift', 'opposite'),
    ('create_shifted_ref_mat', 'apply_shift', 'equal'),
    ('time_shift_estimate', 'time_shift_apply', 'equal'),
    ('corr_mat_shift', 'CorrBulk.correct_shift', 'opposite'),
]
WORD = {'exp': 't * exp(%s x)', 'lin': 't * (1 + %s x)',
        'shift': 't + %s x', 'none': 't'}


def text(fm):
    return WORD[fm[0]] % fm[1] if '%' in WORD.get(fm[0], '') else str(fm[1])


def changed(t):
    """An element of something that was computed from the value."""
    s = strip(t)
    while s.op in ('item', 'elem'):
        s = strip(s.args[0])
    if s.op in ('phi', 'ifexp'):
        return any(changed(a) for a in (
            s.args if s.op == 'phi' else s.args[1:]) if isinstance(a, T))
    return s.op in ('bin', 'un') or s.op == 'call' and cname(s) in (
        tuple(BIN) + ('negative', 'exp'))


def sided(p, q, f):
    """The function with its lag side fixed."""
    out = []
    for k, vs in (('single_sided', (True, False)),
                  ('sides', ('single', 'both'))):
        if k in f.params:
            for v in vs:
                r = start(p, q, {k: v})
                if r is not None:
                    out.append(r[0])
    return out


def pushed(t, axis):
    """Selection of elements moved to the leaves."""
    if t == axis:
        return t
    r = push(t)
    if r != t:
        return pushed(r, axis)
    if not any(isinstance(a, T) for a in t.args):
        return t
    return mk(t.op, *[pushed(a, axis) if isinstance(a, T) else a
                      for a in t.args])


def choices(t, axis, isx, n=0):
    """The term for each value that the value x can have got."""
    def find(u):
        if u == axis or isx(u) and u.op not in ('phi', 'ifexp'):
            return None
        if u.op in ('phi', 'ifexp') and any(
                isx(x) for x in walk(u) if isinstance(x, T)):
            return u
        for a in u.args:
            if isinstance(a, T):
                r = find(a)
                if r is not None:
                    return r
        return None

    def put(u, old, new):
        if u == old:
            return new
        if u == axis or not any(isinstance(a, T) for a in u.args):
            return u
        return mk(u.op, *[put(a, old, new) if isinstance(a, T) else a
                          for a in u.args])
    u = find(t) if n < 4 else None
    if u is None:
        return [t]
    out = []
    for a in (u.args if u.op == 'phi' else u.args[1:]):
        if isinstance(a, T):
            out += choices(put(t, u, a), axis, isx, n + 1)
    return out[:16]


def collect(ctx, p):
    out = {}
    for name, (q, role) in list(ESTIMATE.items()) + list(APPLY.items()) + \
            list(CORRECT.items()):
        r = start(p, q)
        if r is None:
            continue
        i, st, v, f = r
        ctx.saw(i)
        if role is None:
            gs = grid_of(i, st)
            if not gs:
                continue
            sg = set(strip(g) for g in gs)

            def isx(t, sg=sg):
                return t.op not in ('const',) and strip(t) in sg
        elif role == 'value':
            def isx(t):
                s = strip(t)
                return s.op == 'attr' and s.args[1] == 'value'
        else:
            if len(f.params) <= role:
                continue

            def isx(t, n=f.params[role]):
                if t.op in ('bin', 'un', 'const', 'cmp', 'bool') or \
                        t.op == 'call' and cname(t) not in SAME or \
                        changed(t):
                    return False
                return any(x.op == 'param' and x.args[0] == n
                           for x in walk(t))
        fs = []
        for j in [i] + sided(p, q, f):
            # a value overwritten at the same place does not count
            last = {}
            for e, ax, pt in evaluations(j):
                fms = [form(x, ax, isx)
                       for y in choices(pt, ax, isx)
                       for x in choices(pushed(y, ax), ax, isx)]
                fms = [x for x in fms if x is not None]
                if fms:
                    last[(e.kind, e.recv and e.recv.t, e.name,
                          e.argts[1] if e.kind == 'setitem' and
                          len(e.argts) > 1 else None)] = (e, ax, fms)
            for e, ax, fms in last.values():
                for fm in fms:
                    if (e.where(), fm) not in [(x.where(), y)
                                               for x, _, y in fs]:
                        fs.append((e, ax, fm))
        if not fs:
            continue
        out[name] = (fs, f, i, st)
    return out


def run(ctx):
    p = ctx.p
    ctx.rule('form', 'the trace is evaluated at t * exp(k x) or t + k x of '
             'its own lag axis t and the value x')
    ctx.rule('sign', 'estimator, application and correction use '
             'coefficients k of the same or opposite sign, as the relation '
             'between them demands')
    ctx.rule('unit', 'values estimated in one unit are applied in the same')
    ctx.rule('grid', 'the reference is evaluated on the grid that is '
             'returned as second axis, row by row, and the value reported '
             'is the entry of that grid where the similarity is largest')
    ctx.rule('zero', 'stretching keeps lag zero in place')
    ctx.rule('align', 'measurements of several references, or of several '
             'channels, are shifted towards each other')
    forms = collect(ctx, p)
    single = {}
    for name, (fs, f, i, st) in sorted(forms.items()):
        kinds = set(fm for _, _, fm in fs)
        want = ('exp',) if 'stretch' in name else ('shift',)
        bad = [x for x in fs if x[2][0] not in want or not x[2][1]]
        ctx.ob('form', name, not bad, bad and 'the trace is evaluated at %s'
               % text(bad[0][2]), (bad or fs)[0][0].where())
        if not bad and len(kinds) > 1:
            ctx.ob('form', name + ' uniformly', False, 'the trace is '
                   'evaluated at %s' % ' and at '.join(
                       sorted(text(k) for k in kinds)), fs[0][0].where())
        if len(kinds) == 1 and not bad:
            single[name] = (fs[0][2], set(unit(ax) for _, ax, _ in fs), f,
                            fs[0][0])
    for a, b, rel in PAIRS:
        if a not in single or b not in single:
            continue
        (ka, va), ua, fa, ea = single[a]
        (kb, vb), ub, fb, eb = single[b]
        if ka != kb:
            ctx.ob('sign', '%s, %s' % (a, b), False, 'they use the '
                   'different forms %s and %s' % (
                       text((ka, va)), text((kb, vb))), eb.where())
            continue
        ok = va == vb if rel == 'equal' else va == -vb
        ctx.ob('sign', '%s, %s' % (a, b), ok, not ok and
               '%s evaluates at %s, %s at %s: %s' % (
                   a, text((ka, va)), b, text((kb, vb)),
                   'the correction does not undo the change'
                   if rel == 'opposite' else
                   'the same value means different changes'), eb.where())
        if ka == 'shift' and len(ua) == 1 and len(ub) == 1 and \
                None not in ua | ub:
            ctx.ob('unit', '%s, %s' % (a, b), ua == ub, ua != ub and
                   '%s works in %s, %s in %s' % (
                       a, next(iter(ua)), b, next(iter(ub))), eb.where())
    grids(ctx, p, forms)
    zero(ctx, p)
    align(ctx, p)
    ctx.atleast('form', 1)


def grids(ctx, p, forms):
    for name, (q, role) in ESTIMATE.items():
        if role is not None:
            continue
        r = start(p, q)
        if r is None:
            continue
        i, st, v, f = r
        gs = grid_of(i, st)
        if not gs:
            continue
        sg = set(strip(g) for g in gs)
        ctx.ob('grid', name + ' axis', len(sg) == 1, len(sg) > 1 and
               'different second axes are returned: %s' % ', '.join(
                   show(g)[:60] for g in sg), f.where())
        for g in gs:
            if g.op == 'item':
                ctx.ob('grid', name + ' order', False, 'the second axis is '
                       'returned as %s' % show(g)[:80], f.where())
        # the value is the grid entry of largest similarity
        for e in i.events:
            for a in list(e.argts)[:1]:
                for x in walk(a):
                    if x.op != 'item':
                        continue
                    k = x.args[1]
                    am = [y for y in walk(k) if y.op == 'call' and cname(
                        y) in ('argmax', 'nanargmax', 'argmin',
                               'nanargmin')]
                    if not am or e.kind not in ('setitem', 'setname',
                                                'return', 'setattr'):
                        continue
                    b = x.args[0]
                    if not any(cname(y) in ('linspace', 'arange')
                               for y in walk(b)):
                        continue
                    ok = b in gs and cname(am[0]) in ('argmax', 'nanargmax')
                    ctx.ob('grid', name + ' value', ok, not ok and
                           'the value is taken from %s at the position %s, '
                           'the second axis is %s' % (
                               show(b)[:60], show(k)[:60],
                               show(gs[0])[:60]), e.where())
        vals = [o.fields['value'].t for o in st.heap.values()
                if o.kind == 'dict' and 'second_axis' in o.fields and
                'value' in o.fields] if st is not None else []
        vals += [e.argts[0] for e in i.events if e.kind == 'setitem' and
                 e.argts]
        bad = None
        for a in vals:
            for x in walk(a):
                if x.op in ('un', 'bin') and any(
                        y.op == 'item' and y.args[0] in gs and any(
                            cname(z) in ('argmax', 'nanargmax')
                            for z in walk(y.args[1]))
                        for b in x.args if isinstance(b, T)
                        for y in (b, strip1(b))):
                    bad = x
        ctx.ob('grid', name + ' value as it is', bad is None, bad and
               'the value reported is %s, not the entry of the grid'
               % show(bad)[:80], f.where())
        # rows of the reference matrix in the order of the grid
        for e, ax, pt in evaluations(i):
            if e.kind != 'setitem' or len(e.argts) < 2:
                continue
            els = [x.args[0] for x in walk(pt) if x.op == 'elem' and any(
                strip(y) in sg for y in walk(x.args[0]))]
            ixs = [x.args[0] for x in walk(e.argts[1]) if x.op == 'index']
            its = [x.args[1] for x in walk(pt) if x.op == 'item' and
                   x.args[1].op == 'index']
            if els and ixs and not its:
                ok = any(a == b for a in els for b in ixs) or any(
                    any(y == g for y in walk(b)) for b in ixs for g in gs)
                ctx.ob('grid', name + ' rows', ok, not ok and
                       'row %s of the reference matrix holds the value %s' %
                       (show(e.argts[1])[:60], show(els[0])[:60]),
                       e.where())
            top = [x for x in walk(e.argts[1]) if x.op == 'index']
            k = e.argts[1]
            if k.op == 'tuple' and k.args:
                k = k.args[0]
            if top and k.op in ('bin', 'un'):
                ctx.ob('grid', name + ' rows', False, 'the row %s of the '
                       'reference matrix is filled' % show(k)[:60],
                       e.where())


def strip1(t):
    while t.op == 'call' and cname(t) in SAME and len(t.args) > 1:
        t = t.args[1] if t.args[0].op == 'ref' else t.args[0].args[0]
    return t


def zero(ctx, p):
    """With a two-sided trace lag zero is the centre sample."""
    for q, opt, one, two in (
            (SM + 'time_stretch_estimate', 'sides', 'single', 'both'),
            (SM + 'time_stretch_apply', 'single_sided', True, False)):
        for val, centred in ((one, False), (two, True)):
            r = start(p, q, {opt: val})
            if r is None:
                continue
            i, st, v, f = r
            ctx.saw(i)
            for e, ax, pt in evaluations(i):
                if unit(ax) != 'samples' or ax.op == 'phi':
                    continue
                pl = P.poly(ax)
                off = [c for m, c in pl.items() if not any(
                    cname(P._atoms[a]) == 'arange' for a, _ in m)]
                if centred:
                    ok = bool(off) and any(c == Fraction(-1, 2)
                                           for c in off) and pl.get(
                                               ()) == Fraction(1, 2)
                else:
                    ok = not off
                ctx.ob('zero', '%s (%s=%s)' % (f.name, opt, val), ok,
                       not ok and 'the lag axis %s does not have its zero '
                       'at lag zero of a %s trace' % (
                           show(ax)[:80], 'two-sided' if centred else
                           'one-sided'), e.where())
    for q in (PCP + 'apply_stretch', PCP + 'apply_shift',
              SM + 'create_shifted_ref_mat'):
        r = start(p, q)
        if r is None:
            continue
        i, st, v, f = r
        for e, ax, pt in evaluations(i):
            if cname(ax) != 'linspace' or len(ax.args) < 4:
                continue
            lo, hi = C11.PL(ax.args[1]), C11.PL(ax.args[2])
            want = P.poly(mk('param', 'start_lag'))
            end = P.poly(mk('param', 'end_lag'))
            n1 = P.add(P.poly(mk('param', 'npts')), {(): Fraction(1)}, -1)
            end2 = P.add(want, P.mul(n1, P.inv(P.poly(C11.RATE))))
            ok = lo == want and hi in (end, end2)
            ctx.ob('zero', f.name, ok, not ok and 'the lag axis is %s, not '
                   'from start_lag to end_lag' % show(ax)[:100], e.where())


def sgn(t, isleaf):
    """Sign with which the leaf enters a term; None: unknown or absent."""
    if isleaf(t):
        return 1
    if t.op == 'un' and t.args[0] == 'neg':
        s = sgn(t.args[1], isleaf)
        return None if s is None else -s
    if t.op == 'bin':
        o, a, b = t.args[:3]
        sa, sb = sgn(a, isleaf), sgn(b, isleaf)
        if o == 'Add':
            return sa if sb is None or sa == sb else sb if sa is None \
                else None
        if o == 'Sub':
            if sa is not None and sb is not None:
                if cname(b) in ('mean', 'median', 'nanmean', 'nanmedian'):
                    return sa
                return sa if sa == -sb else None
            return sa if sa is not None else None if sb is None else -sb
        if o in ('Mult', 'Div'):
            c = a if sb is not None else b
            s = sa if sb is None else sb
            if s is None:
                return None
            if sa is not None and sb is not None:
                return sa
            v = c.args[0] if c.op == 'const' else None
            if c.op == 'un' and c.args[0] == 'neg':
                return -s
            if isinstance(v, (int, float)) and v < 0:
                return -s
            if o == 'Div' and b is not c:
                return None
            return s
        return None
    if t.op in ('item', 'elem', 'attr'):
        return sgn(t.args[0], isleaf)
    if t.op == 'phi':
        ss = set(sgn(a, isleaf) for a in t.args) - {None}
        return ss.pop() if len(ss) == 1 else None
    if t.op == 'call':
        ss = [sgn(a, isleaf) for a in t.args[1:] if a.op != 'kw']
        if t.args[0].op == 'attr':
            ss.append(sgn(t.args[0].args[0], isleaf))
        ss = set(ss) - {None}
        return ss.pop() if len(ss) == 1 else None
    if t.op in ('tuple', 'list', 'listof'):
        ss = set(sgn(a, isleaf) for a in t.args if isinstance(a, T)) - \
            {None}
        return ss.pop() if len(ss) == 1 else None
    return None


def align(ctx, p):
    several(ctx, p)
    r = start(p, 'monitor.monitor.correct_dv_shift')
    if r is None:
        return
    i, st, v, f = r
    ctx.saw(i)
    for e in i.events:
        if e.kind != 'call' or str(e.name).split('.')[-1] != 'roll' or \
                len(e.argts) < 2:
            continue
        own = [x.args[0].args[0] for x in walk(e.argts[0])
               if x.op == 'attr' and x.args[1] == 'sim_mat' and
               x.args[0].op == 'param']
        if not own:
            continue

        def vals(n):
            return lambda t: t.op == 'attr' and t.args[1] == 'value' and \
                t.args[0].op == 'param' and t.args[0].args[0] == n
        amount = e.argts[1]
        if amount.op == 'tuple' and amount.args:
            amount = amount.args[0]
        for n in f.params[:2]:
            for a in (amount.args if amount.op == 'phi' else (amount,)):
                s = sgn(a, vals(n))
                if s is None:
                    continue
                want = -1 if n == own[0] else 1
                ctx.ob('align', 'correct_dv_shift: %s' % n, s == want,
                       s != want and 'the similarity matrix of %s is moved '
                       'away from the other one' % own[0], e.where())


def several(ctx, p):
    """Several references: rolled by the solution of m_j - m_i = d_i - d_j.
    """
    r = start(p, SM + 'est_shift_from_dt_corr')
    if r is None or r[1] is None:
        return
    i, st, v, f = r
    ctx.saw(i)
    t = i.deep(st, v)
    if t.op != 'tuple' or len(t.args) != 2 or len(f.params) < 2:
        return

    def par(n):
        return lambda x: x.op == 'param' and x.args[0] == n
    s = sgn(num(t.args[1]), par(f.params[0]))
    s2 = sgn(num(t.args[1]), par(f.params[1]))
    if s is not None and s2 is not None:
        ctx.ob('align', 'est_shift_from_dt_corr', s == -s2, s != -s2 and
               'the shift is not a difference of the two values', f.where())
    g = design(p)
    r = start(p, SM + 'estimate_reftr_shifts_from_dt_corr')
    if r is None or s is None or g is None:
        return
    i, st, v, f = r
    ctx.saw(i)
    for e in i.events:
        if e.kind != 'call' or str(e.name).split('.')[-1] != 'roll' or \
                len(e.argts) < 2:
            continue
        k = sgn(e.argts[1], lambda x: cname(x) in (
            'pinv', 'lstsq', 'solve', 'inv'))
        if k is None:
            k = 1 if not any(x.op == 'un' or x.op == 'const' and x.args[0]
                             == -1 for x in walk(e.argts[1])) else None
        if k is None:
            continue
        ok = s * g * k == -1
        ctx.ob('align', 'estimate_reftr_shifts_from_dt_corr', ok, not ok and
               'the similarity matrices are rolled away from each other '
               '(difference %+d, design matrix %+d, roll %+d)' % (s, g, k),
               e.where())


def num(t):
    """The numerator of the weighted mean."""
    for x in walk(t):
        if x.op == 'bin' and x.args[0] == 'Div':
            return x.args[1]
    return t


def design(p):
    """Sign of the first reference's column in the design matrix."""
    r = start(p, SM + '_create_G')
    if r is None:
        return None
    i, st, v, f = r
    signs = {}
    for e in i.events:
        if e.kind != 'setitem' or len(e.argts) < 2 or e.argts[0].op not in (
                'const', 'un'):
            continue
        val = e.argts[0]
        c = val.args[0] if val.op == 'const' else -1
        if not isinstance(c, (int, float)) or not c:
            continue
        k = e.argts[1]
        if k.op == 'tuple' and k.args and k.args[0].op == 'slice':
            signs.setdefault('outer', set()).add(1 if c > 0 else -1)
        else:
            signs.setdefault('inner', set()).add(1 if c > 0 else -1)
    a, b = signs.get('outer'), signs.get('inner')
    if a and b and len(a) == 1 and len(b) == 1 and a != b:
        return a.pop()
    return None
