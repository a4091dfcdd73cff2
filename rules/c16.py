"""C16: selections by time, judged in every relative position of the roles.

The condition under which an item is kept is extracted from the source as a
formula over the start and end of the item and of the requested window, and
is compared with the documented relation in all weak orderings of these
positions.
"""
from fractions import Fraction
from sa.interp import Interp, State, Val
from sa.terms import T, const, mk, walk, show
from sa.util import short
from sa import model as MD
from sa import poly as P

CS, CE = ('attr', 'corr_start'), ('attr', 'corr_end')


def roles_in(t, roles):
    out = set()
    for x in walk(t):
        for r, keys in roles.items():
            for kind, name in keys:
                if x.op == kind and x.args[-1] == name or \
                        kind == 'attr' and x.op == 'const' and \
                        x.args[0] == name:
                    out.add(r)
    return out


def make_leaf(roles, m):
    def leaf(t):
        while t.op == 'item' and t.args[1].op == 'index':
            t = t.args[0]
        if t.op in ('param', 'attr', 'item', 'elem', 'call', 'comp',
                    'listof', 'obj', 'star', 'new'):
            if t.op == 'call' and MD.cname(t) in (
                    'logical_and', 'logical_or', 'logical_not', 'all',
                    'any', 'floor', 'ceil', 'int', 'round', 'max', 'min',
                    'maximum', 'minimum', 'len', 'nonzero', 'where'):
                return None
            if any(x.op in ('cmp', 'bin', 'bool') for x in walk(t)):
                return None
            r = roles_in(t, roles)
            if len(r) == 1:
                return m[next(iter(r))]
        if t.op == 'phi':
            rs = {}
            for a in t.args:
                if any(x.op in ('cmp', 'bin', 'bool') for x in walk(a)):
                    continue
                r = roles_in(a, roles)
                if len(r) == 1:
                    rs.setdefault(next(iter(r)), a)
            if 'e' in rs:
                return m['e']
            if len(rs) == 1 and len(t.args) >= 1:
                k = next(iter(rs))
                if all(roles_in(a, roles) <= {k} for a in t.args):
                    return m[k]
        return None
    return leaf


def holds(pc, leaf):
    for c in pc:
        if c.kind in ('for', 'iter', 'while', 'loop') or c.t.op == 'iter':
            continue
        if c.kind in ('raise', 'exc', 'join', 'noreturn'):
            continue
        if bool(MD.ev(c.t, leaf)) != c.pol:
            return False
    return True


def start(p, f, binds):
    i = Interp(p, budget=120000)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    args = {k: Val(const(v)) for k, v in binds.items() if k in f.params}
    st, v = i.run(f, args, sv, st)
    return i, st, v


def of_item(t, src):
    """elem(<src>) possibly wrapped in a list"""
    while t.op in ('list', 'listof', 'tuple') and len(t.args) == 1:
        t = t.args[0]
    return t.op == 'elem' and any(
        x.op == 'param' and x.args[0] == src for x in walk(t)) and \
        not any(x.op == 'attr' and x.args[-1] not in ('traces',)
                for x in walk(t))


def kept(i, src, leaf):
    """Whether an item of the source is kept; None: nothing found."""
    found = False
    res = False
    comps = set()
    for e in i.events:
        if e.kind == 'call' and str(e.name) in (
                '.append', '.insert', '.extend') and e.argts:
            if of_item(e.argts[-1], src):
                found = True
                if holds(e.pc, leaf):
                    res = True
        for a in e.argts:
            for x in walk(a):
                if x.op == 'comp' and of_item(x.args[0], src) and \
                        x.args[2].args and x not in comps:
                    comps.add(x)
                    found = True
                    if all(MD.ev(c, leaf) for c in x.args[2].args) and \
                            holds(e.pc, leaf):
                        res = True
    return res if found else None


STREAM = 'correlate.stream.CorrStream.'
BULK = 'correlate.stream.CorrBulk.'
WIN = {'cs': [CS], 'ce': [CE], 's': [('param', 'starttime')],
       'e': [('param', 'endtime')]}
TOD = {'cs': [CS], 'ce': [CE], 's': [('param', 'start')],
       'e': [('param', 'end')]}
# function, constants, roles, constraint, kept iff, text
SELECT = [
    (STREAM + 'select_corr_time', {'include_partially_selected': True}, WIN,
     lambda m: m['s'] < m['ce'] <= m['e'],
     'ends after the requested start and not after the requested end'),
    (STREAM + 'select_corr_time', {'include_partially_selected': False}, WIN,
     lambda m: m['s'] <= m['cs'] and m['ce'] <= m['e'],
     'lies completely inside the requested window'),
    (STREAM + 'pop_at_utcs', {},
     {'cs': [CS], 'ce': [CE], 'u': [('param', 'utcs')]},
     lambda m: not m['cs'] < m['u'] < m['ce'],
     'contains none of the given instants'),
    (STREAM + 'select_time', {'exclude': False}, TOD,
     lambda m: m['s'] <= m['cs'] and m['ce'] <= m['e'],
     'starts and ends inside the requested time of the day'),
    (STREAM + 'select_time', {'exclude': True}, TOD,
     lambda m: not (m['s'] <= m['cs'] and m['ce'] <= m['e']),
     'does not lie inside the requested time of the day'),
]
INDEX = [
    (BULK + '_find_slice_index', {'include_partial': True}, WIN,
     lambda m: m['ce'] >= m['s'] and m['cs'] <= m['e'],
     'overlaps or touches the requested window'),
    (BULK + '_find_slice_index', {'include_partial': False}, WIN,
     lambda m: m['s'] <= m['cs'] and m['ce'] <= m['e'],
     'lies completely inside the requested window'),
    (BULK + 'slice', {'include_partial': True}, WIN,
     lambda m: m['ce'] >= m['s'] and m['cs'] <= m['e'],
     'overlaps or touches the requested window'),
    (BULK + 'slice', {'include_partial': False}, WIN,
     lambda m: m['s'] <= m['cs'] and m['ce'] <= m['e'],
     'lies completely inside the requested window'),
]


def label(f, binds):
    s = short(f.qual)
    if binds:
        s += ' (%s)' % ', '.join('%s=%s' % kv for kv in binds.items())
    return s


def pos_text(m):
    return ' '.join('%s=%s' % kv for kv in sorted(m.items()))


def judge(ctx, rule, name, where, roles, spec, text, get):
    less = [('cs', 'ce')] if 'ce' in roles and 'cs' in roles else []
    if 's' in roles and 'e' in roles:
        less.append(('s', 'e'))
    bad = None
    n = 0
    for m in MD.models(sorted(roles), less=less):
        try:
            r = get(make_leaf(roles, m))
        except MD.Undecided:
            return None
        if r is None:
            return None
        n += 1
        if bool(r) != bool(spec(m)) and bad is None:
            bad = (m, r)
    ctx.ob(rule, name, bad is None, bad and (
        'an item is %s at %s, but it has to be kept if and only if it %s '
        '(positions on a line)' % ('kept' if bad[1] else 'dropped',
                                   pos_text(bad[0]), text)), where)
    return n


def run(ctx):
    p = ctx.p
    ctx.rule('keep', 'the extracted condition for keeping an item agrees '
             'with the documented relation in every weak ordering of the '
             'start and end of the item and the window')
    ctx.rule('bin', 'an averaging window takes the correlations that start '
             'in its half-open interval, so that adjacent windows share '
             'none and miss none')
    ctx.rule('mask', 'every sample inside a masked interval is masked, and '
             'samples more than one sampling interval outside are not, in '
             'every position of the interval relative to the trace')
    ctx.rule('windows', 'the list of averaging windows has windows of the '
             'requested length at the requested increment')
    ctx.rule('forward', 'wrappers hand start, end and the partial flag on '
             'unswapped')
    for q, binds, roles, spec, text in SELECT:
        f = p.func(q, required=False)
        if f is None or f.name != q.split('.')[-1]:
            continue
        i, st, v = start(p, f, binds)
        ctx.saw(i)
        judge(ctx, 'keep', label(f, binds), f.where(), roles, spec, text,
              lambda leaf: kept(i, 'self', leaf))
    f = p.func(STREAM + 'select_time', required=False)
    if f is not None:
        midnight(ctx, p, f)
    for q, binds, roles, spec, text in INDEX:
        f = p.func(q, required=False)
        if f is None:
            continue
        i, st, v = start(p, f, binds)
        ctx.saw(i)
        if st is None:
            continue
        if f.name == 'slice':
            ind = None
            for e in i.events:
                for a in e.argts:
                    if a.op == 'item' and a.args[0].op == 'attr' and \
                            a.args[0].args[1] == 'data' and \
                            a.args[1].op == 'tuple':
                        ind = a.args[1].args[0]
        else:
            ind = i.deep(st, v)
        if ind is None:
            continue
        judge(ctx, 'keep', label(f, binds), f.where(), roles, spec, text,
              lambda leaf: MD.ev(ind, leaf))
    forward(ctx, p)
    bins(ctx, p)
    masks(ctx, p)
    files(ctx, p)
    windows(ctx, p)
    ctx.atleast('keep', 1)


def midnight(ctx, p, f):
    """A correlation that runs past midnight ends before it starts."""
    i, st, v = start(p, f, {'exclude': False})
    bad = None
    for m in MD.models(sorted(TOD), less=[('ce', 'cs'), ('s', 'e')]):
        try:
            r = kept(i, 'self', make_leaf(TOD, m))
        except MD.Undecided:
            return
        if r is None:
            return
        if r:
            bad = m
    ctx.ob('keep', short(f.qual) + ' past midnight', bad is None,
           'a correlation that ends on the next day is kept for a window '
           'inside one day at %s' % (bad and pos_text(bad)), f.where())


def order(g, e):
    return g.params[1:] if str(e.name).startswith('.') else g.params


def forward(ctx, p):
    """CorrBulk.select_corr_time and slide use the stream selection."""
    for q, names in ((BULK + 'select_corr_time',
                      ('starttime', 'endtime',
                       'include_partially_selected')),):
        f = p.func(q, required=False)
        g = p.func(STREAM + 'select_corr_time', required=False)
        if f is None or g is None:
            continue
        i, st, v = start(p, f, {})
        ctx.saw(i)
        for e in i.events:
            if e.kind != 'call' or not str(e.name).endswith(
                    'select_corr_time'):
                continue
            got = dict(e.kwts)
            got.update(zip(order(g, e), e.argts))
            bad = [k for k in names if k not in got or
                   got[k] != mk('param', k)]
            ctx.ob('forward', short(q), not bad, '%s is not handed on '
                   'unchanged' % ', '.join(bad), e.where())
    f = p.func(STREAM + 'slide', required=False)
    if f is None:
        return
    i, st, v = start(p, f, {})
    ctx.saw(i)
    for e in i.events:
        if e.kind != 'call' or not str(e.name).endswith('select_corr_time'):
            continue
        g = p.func(STREAM + 'select_corr_time')
        got = dict(e.kwts)
        got.update(zip(order(g, e), e.argts))
        if not {'starttime', 'endtime'} <= set(got):
            continue
        a, b = P.poly(got['starttime'], tleaf), P.poly(got['endtime'], tleaf)
        if a is None or b is None:
            continue
        d = P.add(b, {k: -c for k, c in a.items()})
        ok = d == P.poly(mk('param', 'window_length'), tleaf)
        ctx.ob('windows', short(STREAM + 'slide'), ok,
               'the selected window is %s long instead of window_length'
               % P.text(d), e.where())
        k = got.get('include_partially_selected')
        ctx.ob('forward', short(STREAM + 'slide'), k == mk(
            'param', 'include_partially_selected'),
            'include_partially_selected is not handed on', e.where())
        break


def tleaf(t):
    """Conversions between time representations are transparent."""
    if t.op == 'call' and MD.cname(t) in (
            'UTCDateTime', 'float', 'array', 'asarray') and len(
                [a for a in t.args[1:] if a.op != 'kw']) == 1:
        return t.args[1]
    if t.op == 'attr' and t.args[1] == 'timestamp':
        return t.args[0]
    return None


def bins(ctx, p):
    q = 'monitor.post_corr_process.corr_mat_resample'
    f = p.func(q, required=False)
    if f is None:
        return
    i, st, v = start(p, f, {})
    ctx.saw(i)
    roles = {'cs': [CS], 's': [('param', 'start_times')],
             'e': [('param', 'end_times')]}
    seen = set()
    for e in i.events:
        for a in e.argts:
            for x in walk(a):
                if x.op != 'call' or MD.cname(x) not in (
                        'nonzero', 'where', 'flatnonzero', 'argwhere',
                        'logical_and') or x in seen:
                    continue
                seen.add(x)
                if roles_in(x, roles) < {'cs', 's', 'e'}:
                    continue
                judge(ctx, 'bin', short(q), e.where(), roles,
                      lambda m: m['s'] <= m['cs'] < m['e'],
                      'starts at or after the start and before the end of '
                      'the averaging window',
                      lambda leaf: MD.ev(x, leaf))
                return


def windows(ctx, p):
    q = 'monitor.monitor.make_time_list'
    f = p.func(q, required=False)
    if f is None:
        return
    i, st, v = start(p, f, {})
    ctx.saw(i)
    if st is None:
        return
    t = i.deep(st, v)
    if t.op != 'tuple' or len(t.args) != 2:
        return
    a, b = t.args
    pa, pb = P.poly(a, tleaf), P.poly(b, tleaf)
    if pa is None or pb is None:
        return
    d = P.add(pb, {k: -c for k, c in pa.items()})
    ctx.ob('windows', short(q), d == P.poly(mk('param', 'win_len'), tleaf),
           'the windows are %s long instead of win_len' % P.text(d)[:120],
           f.where())
    for x in walk(a):
        if x.op == 'call' and MD.cname(x) == 'arange':
            pos = [y for y in x.args[1:] if y.op != 'kw']
            if len(pos) < 3:
                continue
            want = ('start_date', 'end_date', 'date_inc')
            got = []
            for y in pos[:3]:
                ps = set(z.args[0] for z in walk(y) if z.op == 'param')
                got.append(ps)
            ok = all(g == {w} for g, w in zip(got, want))
            ctx.ob('windows', short(q) + ' starts', ok,
                   'the starts are not spaced by date_inc from start_date '
                   'to end_date', f.where())


def files(ctx, p):
    """Files of an archive that overlap the requested span are read."""
    q = 'trace_data.waveform._read_filepattern'
    f = p.func(q, required=False)
    if f is None:
        return
    i, st, v = start(p, f, {'trim': True, 'debug': False})
    ctx.saw(i)
    roles = {'cs': [('attr', 'starttime')], 'ce': [('attr', 'endtime')],
             's': [('param', 'starttime')], 'e': [('param', 'endtime')]}
    evs = [e for e in i.events if e.kind == 'call' and
           str(e.name).split('.')[-1] == 'read' and not any(
               k == 'headonly' for k in e.kwts)]
    if not evs:
        return

    def get(leaf):
        return any(holds(e.pc, leaf) for e in evs)

    def spec(m):
        return m['cs'] < m['e'] and m['ce'] > m['s']
    bad = None
    n = 0
    for m in MD.models(sorted(roles), less=[('cs', 'ce'), ('s', 'e')]):
        try:
            r = get(make_leaf(roles, m))
        except MD.Undecided:
            return
        n += 1
        if spec(m) and not r:
            bad = m
    ctx.ob('keep', short(q), bad is None, 'a file that overlaps the '
           'requested span is not read at %s' % (bad and pos_text(bad)),
           evs[0].where())


# ------------------------------------------------------------------- mask
def masks(ctx, p):
    q = 'correlate.preprocessing_stream.trace_mask_at_utc'
    f = p.func(q, required=False)
    if f is None:
        return
    for rev in (False, True):
        i, st, v = start(p, f, {'reverse': rev})
        ctx.saw(i)
        one_mask(ctx, i, f, q, rev)


NPTS = 6


def one_mask(ctx, i, f, q, rev):
    """Evaluate the masking formulas with one interval on a model trace."""
    final = None
    for e in i.events:
        if e.kind == 'call' and str(e.name).split('.')[-1] in (
                'array', 'masked_array', 'MaskedArray', 'masked_where'):
            m = e.kwts.get('mask')
            if m is not None:
                final = (e, m)
    sets = [e for e in i.events if e.kind == 'setitem' and e.argts and
            e.argts[0] == const(True) or e.kind == 'setitem' and
            len(e.argts) > 1 and e.argts[0].op == 'const' and
            e.argts[0].args[0] in (1, True)]
    if final is None or not sets:
        return
    neg = sum(1 for x in walk(final[1]) if x.op == 'un' and
              x.args[0] in ('inv', 'not') or x.op == 'call' and
              MD.cname(x) in ('logical_not', 'invert'))
    roles = {'t0': [('attr', 'starttime')], 't1': [('attr', 'endtime')],
             's': [('param', 'starts')], 'e': [('param', 'ends')],
             'sr': [('attr', 'sampling_rate')], 'dt': [('attr', 'delta')],
             'n': [('attr', 'npts')]}
    pairs(ctx, sets, q, roles)
    bad = None
    half = [Fraction(k, 2) for k in range(-5, 2 * NPTS + 4)]
    try:
        for s in half:
            for e in half:
                if e < s:
                    continue
                m = {'t0': Fraction(0), 't1': Fraction(NPTS - 1), 's': s,
                     'e': e, 'sr': Fraction(1), 'dt': Fraction(1),
                     'n': NPTS}
                got = masked(sets, m, roles)
                for k in range(NPTS):
                    if s <= k <= e and k not in got:
                        bad = bad or (s, e, k, 'is not masked')
                    if (k < s - 1 or k > e + 1) and k in got:
                        bad = bad or (s, e, k, 'is masked')
    except MD.Undecided as x:
        if __import__('os').environ.get('SA_DEBUG'):
            print('undecided', show(x.args[0])[:300])
        return
    ctx.ob('mask', short(q) + ' intervals' + (' reverse' if rev else ''),
           bad is None, bad and (
               'with an interval from sample %s to %s sample %d of a trace '
               'with samples 0 to %d %s' % (
                   float(bad[0]), float(bad[1]), bad[2], NPTS - 1, bad[3])),
           sets[0].where())
    ctx.ob('mask', short(q) + (' reverse' if rev else ' forward'),
           neg % 2 == (1 if rev else 0),
           'the mask is %s' % ('not inverted although reverse is set'
                               if rev else 'inverted'), final[0].where())


def pairs(ctx, sets, q, roles):
    """Starts and ends of the intervals are filtered alike."""
    bad = None
    n = 0
    for e in sets:
        for c in e.pc:
            if c.t.op != 'iter' or c.t.args[0].op != 'call' or \
                    MD.cname(c.t.args[0]) != 'zip':
                continue
            sel = {}
            for a in c.t.args[0].args[1:]:
                r = roles_in_elem(a, roles)
                if r is not None:
                    sel[r] = a.args[1] if a.op == 'item' else None
            if len(sel) == 2:
                n += 1
                if sel['s'] is not sel['e']:
                    bad = e
    if n:
        ctx.ob('mask', short(q) + ' pairs', bad is None, 'starts and ends '
               'of the masked intervals are filtered differently and no '
               'longer belong together', (bad or sets[0]).where())


def masked(sets, m, roles):
    base = make_leaf(roles, m)

    def leaf(t):
        if t.op == 'elem' or t.op == 'item':
            r = roles_in_elem(t, roles)
            if r in ('s', 'e'):
                return m[r]
        if t.op == 'call' and MD.cname(t) == 'len' or \
                t.op == 'attr' and t.args[1] in ('npts', 'size'):
            return m['n']
        if t.op == 'attr' and t.args[1] == 'shape':
            return None
        if t.op == 'item' and t.args[0].op == 'attr' and \
                t.args[0].args[1] == 'shape':
            return m['n']
        return base(t)
    out = set()
    for e in sets:
        on = True
        for c in e.pc:
            if c.t.op == 'iter':
                for x in walk(c.t):
                    if x.op == 'item' and roles_in_elem(x, roles) in (
                            's', 'e') and x.args[1].op != 'const':
                        on = on and bool(MD.ev(x.args[1], leaf))
                    elif x.op == 'comp':
                        for y in x.args[2].args:
                            on = on and bool(MD.ev(y, leaf))
            elif c.kind in ('raise', 'exc', 'join'):
                continue
            elif bool(MD.ev(c.t, leaf)) != c.pol:
                on = False
        if not on:
            continue
        k = e.argts[1]
        if k.op != 'slice':
            raise MD.Undecided(k)
        lo, hi = k.args[0], k.args[1]
        lo = None if lo.op == 'const' and lo.args[0] is None else int(
            MD.ev(lo, leaf))
        hi = None if hi.op == 'const' and hi.args[0] is None else int(
            MD.ev(hi, leaf))
        out |= set(range(NPTS)[lo:hi])
    return out


def roles_in_elem(t, roles):
    """Role of elem(starts[<condition>]) without looking at the condition"""
    while t.op in ('elem', 'item') and isinstance(t.args[0], T):
        if t.op == 'elem' and t.args[0].op == 'call' and \
                MD.cname(t.args[0]) == 'zip':
            return None
        t = t.args[0]
    for r in ('s', 'e'):
        if t.op == 'param' and ('param', t.args[0]) in roles[r]:
            return r
    return None

