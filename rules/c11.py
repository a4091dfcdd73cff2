"""C11: the header follows the data.

Every operation on a correlation matrix is interpreted once.  At each return
the extracted term of the returned data tells whether the data is the
argument itself or something new; the header entries written on the way to
that return (must / may) and the extracted terms of their values are compared
with what the new data requires.
"""
from fractions import Fraction
from sa.interp import Interp, State, Val
from sa.terms import T, const, mk, walk, show, alts
from sa.util import short
from sa import poly as P
from rules.c17 import cname

PCP = 'monitor.post_corr_process.'
BULK = 'correlate.stream.CorrBulk.'
NEED = {
    'monitor.trim.corr_mat_trim': ('npts', 'start_lag'),
    PCP + 'corr_mat_mirror': ('npts', 'start_lag'),
    PCP + 'corr_mat_decimate': ('npts', 'sampling_rate'),
    PCP + 'corr_mat_resample_time': ('npts', 'sampling_rate'),
    PCP + 'corr_mat_resample': ('corr_start', 'corr_end'),
}
HEADER = ('npts', 'start_lag', 'sampling_rate', 'delta', 'corr_start',
          'corr_end', 'ntrcs')
PER_TRACE = ('corr_start', 'corr_end', 'location', 'channel')


def flat(t):
    out = []
    for a in alts(t):
        if a is t or a.op != 'phi':
            out.append(a)
        else:
            out += flat(a)
    return out


def lbl(i, st, ev):
    if ev.kind == 'setitem' and ev.name in HEADER:
        return ['w:' + ev.name]
    if ev.kind == 'setattr' and ev.name in HEADER:
        return ['w:' + ev.name]
    if ev.kind == 'call' and str(ev.name) == '.update':
        out = ['w:' + k for k in HEADER if k in ev.kwts]
        for a in ev.argts:
            for x in walk(a):
                if x.op == 'const' and x.args[0] in HEADER:
                    out.append('w:' + x.args[0])
        return out
    return []


def writes(i, key):
    """(event, value term) of every write of a header entry."""
    for e in i.events:
        if e.kind in ('setitem', 'setattr') and e.name == key and e.argts:
            yield e, e.argts[0]
        elif e.kind == 'call' and str(e.name) == '.update':
            if key in e.kwts:
                yield e, e.kwts[key]
            else:
                for a in e.argts:
                    if a.op == 'dict':
                        for kv in a.args:
                            if kv.op == 'kv' and \
                                    kv.args[0] == const(key):
                                yield e, kv.args[1]


def leaf(t):
    """Header entries by name, however they are read."""
    k = None
    if t.op == 'item' and t.args[1].op == 'const':
        k = t.args[1].args[0]
    elif t.op == 'attr':
        k = t.args[1]
    if k == 'delta':
        return P.inv(P.poly(mk('param', 'sampling_rate')))
    if k in ('start_lag', 'sampling_rate', 'npts', 'end_lag'):
        return mk('param', k)
    if t.op == 'call' and cname(t) == 'float' and len(t.args) == 2:
        return t.args[1]
    return None


def PL(t):
    return P.poly(t, leaf)


RATE = mk('param', 'sampling_rate')


def slices(d):
    """(lower, upper, step) of the slices of the last axis in a term."""
    out = []
    for x in walk(d):
        if x.op == 'item':
            ix = x.args[1]
            if ix.op == 'tuple' and ix.args:
                ix = ix.args[-1]
            if ix.op == 'slice':
                out.append(ix.args)
    return out


def sizes(d, axis):
    """Size of the new data along an axis, from its allocation or slice."""
    out = []
    for x in flat(d):
        n = cname(x)
        if n in ('zeros', 'empty', 'ones', 'full') and len(x.args) > 1:
            for a in x.args[1:]:
                if isinstance(a, T) and a.op in ('list', 'tuple') and \
                        len(a.args) == 2:
                    out.append(a.args[axis])
        if axis == 1 and x.op == 'item':
            ix = x.args[1]
            if ix.op == 'tuple' and ix.args:
                ix = ix.args[-1]
            if ix.op == 'slice':
                lo, hi = ix.args[0], ix.args[1]
                if hi.op != 'const':
                    if lo.op == 'const':
                        out.append(hi)
                    else:
                        out.append(mk('bin', 'Sub', hi, lo))
    return out


def same(a, b):
    return a == b or PL(a) == PL(b)


def measures(v, d, axis):
    """The value is the size of the data (or of an alternative of it)."""
    ds = flat(d)
    vs = flat(v)
    # n, and what n == 1 says it is there
    vs = [x for x in vs if x.op != 'const'] or vs
    szs = sizes(d, axis)
    szs = [s for s in szs] + [b for s in szs for b in flat(s)]
    for x in vs:
        if x.op == 'call' and cname(x) == 'int' and len(x.args) > 1:
            x = x.args[1]
        if any(same(x, s) for s in szs):
            continue
        ok = False
        base = None
        if cname(x) == 'len' and len(x.args) > 1:
            base, ax = x.args[1], 0
            while base.op == 'item' and base not in ds and \
                    base.args[1].op in ('const', 'index'):
                base, ax = base.args[0], ax + 1
        elif x.op == 'item' and x.args[1].op == 'const':
            y, ax = x.args[0], x.args[1].args[0]
            if y.op == 'attr' and y.args[1] == 'shape':
                base = y.args[0]
            elif cname(y) == 'shape' and len(y.args) > 1:
                base = y.args[1]
        elif cname(x) == 'size' and len(x.args) > 2 and \
                x.args[2].op == 'const':
            base, ax = x.args[1], x.args[2].args[0]
        elif x.op == 'attr' and x.args[1] == 'size' and axis == 1:
            base, ax = x.args[0], 0
        if base is not None:
            for b in flat(base):
                if b in ds or b == d:
                    ok = True
                    two = b.op == 'item' and b.args[1].op == 'tuple' and \
                        len(b.args[1].args) == 2
                    if two and axis == 1 and ax not in (1, -1):
                        ok = False
                    if two and axis == 0 and ax not in (0, -2):
                        ok = False
        if not ok:
            return False
    return True


def pair(t):
    """The alternatives (data, stats) of a returned term."""
    return [x.args for x in flat(t)
            if x.op == 'tuple' and len(x.args) == 2]


def elements(t, name):
    """Mentioned other than for its length or as a bound of a slice."""
    if t.op == 'param':
        return t.args[0] == name
    if t.op == 'call' and cname(t) in ('len', 'range'):
        return False
    if t.op == 'item':
        return elements(t.args[0], name)
    if t.op == 'index':
        return False
    return any(elements(a, name) for a in t.args if isinstance(a, T))


def mentions(t, name):
    return any(x.op == 'param' and x.args[0] == name for x in walk(t))


def run_one(p, f):
    i = Interp(p, label=lbl, budget=150000, guards=True)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    st, v = i.run(f, {}, sv, st)
    return i, st, v


def matrix_ops(ctx, p):
    for q, need in NEED.items():
        f = p.func(q, required=False)
        if f is None or not f.params[:2]:
            continue
        i, st, v = run_one(p, f)
        ctx.saw(i)
        dp, sp = mk('param', f.params[0]), mk('param', f.params[1])
        name = short(f.qual)
        changed = []
        for e in i.events:
            if e.kind == 'raise' and e.func is f:
                w = sorted(x[2:] for x in e.may if x.startswith('w:'))
                ctx.ob('refuse', '%s raising' % name, not w, w and
                       'raises after the header entries %s were written'
                       % ', '.join(w), e.where())
            if e.kind != 'return' or e.func is not f or not e.argts:
                continue
            prs = pair(e.argts[0])
            if not prs:
                continue
            kinds = set(all(a == dp for a in flat(d)) for d, s in prs)
            if kinds == {True}:
                w = sorted(x[2:] for x in e.may if x.startswith('w:'))
                ctx.ob('refuse', '%s returning its argument' % name, not w,
                       w and 'the data is returned unchanged but the header '
                       'entries %s were written' % ', '.join(w), e.where())
            else:
                changed += [(e, d, s) for d, s in prs
                            if not all(a == dp for a in flat(d))]
                have = e.must if kinds == {False} and not any(
                    a == dp for d, s in prs for a in flat(d)) else e.may
                for k in need:
                    alt = {'sampling_rate': 'delta'}.get(k)
                    ok = 'w:' + k in have or alt and 'w:' + alt in have
                    ctx.ob('entries', '%s: %s' % (name, k), ok, not ok and
                           'new data is returned but %r is not written on '
                           'every path to this return' % k, e.where())
                for d, s in prs:
                    for a in flat(s):
                        if not mentions(a, f.params[1]) and \
                                not any(x.op in ('obj', 'new', 'unknown')
                                        for x in walk(a)):
                            ctx.ob('entries', '%s: header' % name, False,
                                   'the returned header is not derived '
                                   'from the header given', e.where())
        values(ctx, i, f, name, changed)


def picky(ctx, i, f, name):
    """A per-trace entry is written whatever its values are."""
    for e in i.events:
        if e.kind != 'setitem' or e.recv is None or len(e.argts) < 2 or \
                not mentions(e.recv.t, f.params[1]):
            continue
        val = e.argts[0]
        if not (e.argts[1].op in ('key', 'elem') or e.name in PER_TRACE):
            continue
        bad = [c for c in e.pc if c.kind not in ('for', 'exc') and any(
            x.op == 'call' and cname(x) not in ('len', 'isinstance', 'bool')
            and any(y == val for a in x.args[1:] if isinstance(a, T)
                    for y in walk(a)) for x in walk(c.t))]
        ctx.ob('entries', '%s: per-trace entries' % name, not bad,
               bad and 'they are only written where %s' %
               show(bad[0].t)[:80], e.where())


def values(ctx, i, f, name, changed):
    picky(ctx, i, f, name)
    dp = mk('param', f.params[0])
    for k, axis in (('npts', 1), ('ntrcs', 0)):
        for e, v in writes(i, k):
            if not changed:
                continue
            if mentions(v, f.params[0]) or mentions(v, f.params[1]) or \
                    k == 'ntrcs':
                ok = any(measures(v, d, axis) for _, d, _ in changed)
                ctx.ob('values', '%s: value of %s' % (name, k), ok,
                       not ok and '%r is set to %s, which is not the size '
                       'of the new data' % (k, show(v)[:100]), e.where())
    q = f.qual.split('.')[-1]
    if q == 'corr_mat_trim':
        lows = [s[0] for _, d, _ in changed for s in slices(d)]
        for e, v in writes(i, 'start_lag'):
            ok = False
            for lo in lows:
                want = P.add(P.poly(mk('param', 'start_lag')),
                             P.mul(PL(lo), P.inv(P.poly(RATE))))
                ok = ok or PL(v) == want
            ctx.ob('values', '%s: value of start_lag' % name, ok, not ok and
                   'start_lag is set to %s, not to the lag of the first '
                   'sample kept' % show(v)[:100], e.where())
    elif q == 'corr_mat_mirror':
        for e, v in writes(i, 'start_lag'):
            ok = v.op == 'const' and v.args[0] == 0
            ctx.ob('values', '%s: value of start_lag' % name, ok, not ok and
                   'the first sample of mirrored data is at lag 0, '
                   'start_lag is set to %s' % show(v)[:80], e.where())
    elif q in ('corr_mat_decimate', 'corr_mat_resample_time'):
        steps = []
        for _, d, _ in changed:
            for s in slices(d):
                if len(s) > 2 and not (s[2].op == 'const' and
                                       s[2].args[0] in (None, 1, -1)):
                    steps.append(s[2])
        for e, v in writes(i, 'sampling_rate'):
            if q == 'corr_mat_decimate':
                ok = False
                for x in steps:
                    for k in (1, -1):
                        want = P.mul(P.mul(P.poly(RATE), P.poly(const(k))),
                                     P.inv(PL(x)))
                        ok = ok or PL(v) == want
                if not steps:
                    continue
                txt = 'the old rate divided by the step of the samples kept'
            else:
                ok = same(v, mk('param', f.params[2]))
                txt = 'the requested rate'
            ctx.ob('values', '%s: value of sampling_rate' % name, ok,
                   not ok and 'sampling_rate is set to %s, not to %s'
                   % (show(v)[:80], txt), e.where())
    elif q == 'corr_mat_resample' and len(f.params) > 3:
        a, b = f.params[2], f.params[3]
        for k in ('corr_start', 'corr_end'):
            for e, v in writes(i, k):
                if k == 'corr_start':
                    ok = elements(v, a) and not elements(v, b)
                else:
                    ok = elements(v, b)
                ctx.ob('values', '%s: value of %s' % (name, k), ok,
                       not ok and '%s is set to %s, not to the %s of the '
                       'averaging windows' % (k, show(v)[:80], 'starts' if
                                              k == 'corr_start' else 'ends'),
                       e.where())


def bulk_ops(ctx, p):
    """CorrBulk methods take data and header from the same call."""
    ops = set()
    for q in NEED:
        f = p.func(q, required=False)
        if f is not None:
            ops.add(f.qual)
    f = p.func(PCP + 'corr_mat_resample_or_decimate', required=False)
    if f is not None:
        ops.add(f.qual)
    cls = p.func(BULK + '__init__', required=False)
    if cls is None:
        return
    for f in p.all_funcs():
        if f.cls is None or f.cls is not cls.cls:
            continue
        i = Interp(p, no_inline=sorted(ops), budget=60000)
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None)
        try:
            st, v = i.run(f, {}, sv, st)
        except Exception:
            continue
        sd = mk('attr', mk('param', 'self'), 'data')
        ss = mk('attr', mk('param', 'self'), 'stats')
        for e in i.events:
            if e.kind != 'call' or not e.res:
                continue
            tq = getattr(e, 'target', None) or str(e.name)
            if tq.split('.')[-1] not in [o.split('.')[-1] for o in ops]:
                continue
            args = list(e.argts) + list(e.kwts.values())
            if sd not in args:
                continue
            ctx.saw(i)
            name = '%s: %s' % (short(f.qual), tq.split('.')[-1])
            ctx.ob('pair', name + ' arguments', ss in args, ss not in args
                   and 'called with the data of this object but not with '
                   'its header', e.where())
            rt = e.res.t if isinstance(e.res, Val) else e.res
            got = set()
            for x in i.events:
                if x.kind == 'setattr' and x.recv is not None and \
                        x.name in ('data', 'stats') and x.argts:
                    for a in flat(x.argts[0]):
                        if a.op == 'item' and a.args[0] == rt and \
                                a.args[1] == const(
                                    0 if x.name == 'data' else 1):
                            got.add(x.name)
            if 'data' in got or 'stats' in got:
                ok = got == {'data', 'stats'}
                ctx.ob('pair', name + ' result', ok, not ok and
                       'only %s of the result is stored' % ''.join(got),
                       e.where())
            else:
                ctx.ob('pair', name + ' result', False,
                       'the result is not stored as data and header',
                       e.where())


def first_index(t):
    """Index along the traces of data[...], None if not indexed."""
    if t.op == 'item' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'data':
        ix = t.args[1]
        return ix.args[0] if ix.op == 'tuple' and ix.args else ix
    if t.op == 'elem' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'data':
        return mk('index', t.args[0])
    if cname(t) in ('compress', 'take') and len(t.args) > 2:
        return None
    return None


def selections(ctx, p):
    """Trace selections: per-trace entries by the same index as the data."""
    for q in ('__getitem__', 'create_corr_stream', 'slice'):
        f = p.func(BULK + q, required=False)
        if f is None:
            continue
        i, st, v = run_one(p, f)
        ctx.saw(i)
        name = short(f.qual)
        news = [e for e in i.events if e.kind in ('new', 'call') and str(
            e.name).split('.')[-1] in ('CorrTrace', 'CorrBulk')]
        rows = []
        for e in news:
            for a in list(e.argts) + list(e.kwts.values()):
                ix = first_index(a)
                if ix is not None:
                    rows.append((e, ix))
        if not rows:
            continue
        idx = set(ix for _, ix in rows)
        seen = {}
        for e in i.events:
            if e.kind != 'setitem' or len(e.argts) < 2:
                continue
            keys = [e.name] if e.name in PER_TRACE else []
            if not keys and e.name is None and e.argts[1].op == 'key':
                keys = ['every list']
            if not keys:
                continue
            good = any(zipped(i, e.args[0], ix) for ix in idx)
            for k in keys:
                seen.setdefault(k, []).append(e)
                ctx.ob('select', '%s: %s' % (name, k), good, not good and
                       '%s is not selected by the index that selects the '
                       'data (%s)' % (k, ', '.join(
                           show(x)[:60] for x in idx)), e.where())
        if 'every list' in seen:
            missing = []
            for c in seen['every list'][0].pc:
                for x in walk(c.t):
                    if x.op == 'const' and x.args[0] in PER_TRACE:
                        missing.append(x.args[0])
        else:
            missing = [k for k in PER_TRACE if k not in seen]
        for k in PER_TRACE:
            ctx.ob('select', '%s: handles %s' % (name, k), k not in missing,
                   k in missing and 'the per-trace entry %r keeps the '
                   'values of all traces' % k, f.where())
        if q == 'slice' or q == '__getitem__':
            ntrcs(ctx, i, f, name)


def zipped(i, val, ix):
    """The value is a selection by the index: x[ix], or a loop over both
    that keeps what the index marks."""
    def marks(c):
        if c == ix or c.op == 'elem' and c.args[0] == ix:
            return True
        if c.op == 'phi' or c.op == 'elem' and any(
                x.op == 'phi' for x in walk(c)) and not any(
                    cname(x) in ('nonzero', 'flatnonzero', 'where')
                    for x in walk(c)):
            return False
        return any(marks(a) for a in c.args if isinstance(a, T))

    def by(x):
        if x.op == 'item':
            k = x.args[1]
            return k == ix or k.op == 'tuple' and ix in k.args or \
                by(x.args[0])
        if x.op == 'comp':
            y = x.args[0]
            return any(marks(c) for c in x.args[2].args) or \
                y.op == 'item' and marks(y.args[1])
        if x.op == 'phi':
            return all(by(a) for a in x.args)
        if x.op == 'ifexp':
            return all(by(a) for a in x.args[1:])
        if x.op == 'call':
            if cname(x) in ('compress', 'take', 'itemgetter'):
                return marks(x)
            return any(by(a) for a in x.args if isinstance(a, T))
        if x.op in ('attr', 'list', 'tuple', 'star'):
            return any(by(a) for a in x.args if isinstance(a, T))
        return False
    if by(val.t) or any(cname(x) in ('compress', 'take') and ix in x.args
                        for x in walk(val.t)):
        return True
    if val.t.op in ('list', 'listof', 'obj'):
        for e in i.events:
            if e.kind == 'call' and str(e.name) == '.append' and any(
                    marks(c.t) for c in e.pc):
                return True
    return False


def ntrcs(ctx, i, f, name):
    """A matrix with fewer traces states their number."""
    rets = [e for e in i.events if e.kind == 'return' and e.func is f and
            e.argts and any('CorrBulk' in str(x.args[0]) for x in
                            flat(e.argts[0]) if x.op == 'new')]
    ws = [e for e, v in writes(i, 'ntrcs') if not any(
        c.t.op != 'iter' and any(x.op in ('call',) and 'deepcopy' in str(
            cname(x)) for x in walk(c.t)) and not c.pol
        for c in e.pc)]
    for e in rets:
        ok = bool(ws)
        if ok:
            ok = any(measures(v, data_of(x), 0) for w, v in writes(
                i, 'ntrcs') for x in flat(e.argts[0]) if x.op == 'new' and
                data_of(x) is not None) or all(
                    any(y.op == 'attr' and y.args[1] == 'shape' or cname(
                        y) in ('len', 'sum', 'count_nonzero')
                        for y in walk(v)) for _, v in writes(i, 'ntrcs'))
        ctx.ob('ntrcs', name, ok, not ok and 'the number of traces of the '
               'selection is not written', e.where())


def data_of(x):
    for a in x.args[1:]:
        if isinstance(a, T) and a.op not in ('kw',):
            return a
    return None


def combine(ctx, p):
    """Traces into a matrix: one header list entry per row."""
    f = p.func('correlate.stream.convert_statlist_to_bulk_stats',
               required=False)
    if f is not None:
        i, st, v = run_one(p, f)
        ctx.saw(i)
        name = short(f.qual)
        src = mk('param', f.params[0])
        for e, val in writes(i, 'ntrcs'):
            ok = cname(val) == 'len' and val.args[1] == src
            ctx.ob('values', '%s: value of ntrcs' % name, ok, not ok and
                   'the number of traces is set to %s' % show(val)[:80],
                   e.where())
        ok = any(True for _ in writes(i, 'ntrcs'))
        ctx.ob('entries', '%s: ntrcs' % name, ok, not ok and
               'the number of traces is not written', f.where())
        for k in ('corr_start', 'corr_end'):
            vals = [(e, val) for e, val in writes(i, k)]
            # an entry whose key runs over a table with this key
            vals += [(e, e.argts[0]) for e in i.events
                     if e.kind == 'setitem' and e.name is None and e.argts
                     and len(e.argts) > 1 and e.argts[1].op == 'phi'
                     and const(k) in e.argts[1].args]
            good = [e for e, val in vals if any(
                x.op == 'elem' and src in x.args for x in walk(val)) and any(
                    x.op == 'item' and (
                        x.args[1] == const(k) or x.args[1].op == 'phi'
                        and const(k) in x.args[1].args) or
                    x.op == 'attr' and x.args[1] == k for x in walk(val))]
            ctx.ob('entries', '%s: %s' % (name, k), bool(good), not good and
                   'no entry per trace is collected', f.where())
    f = p.func('correlate.stream.CorrStream.create_corr_bulk',
               required=False)
    if f is not None:
        i, st, v = run_one(p, f)
        ctx.saw(i)
        rows(ctx, i, f)


def rows(ctx, i, f):
    """Rows filled and headers collected under the same condition."""
    name = short(f.qual)
    fill = [e for e in i.events if e.kind == 'setitem' and e.recv is not
            None and e.name is None and e.argts and any(
                x.op == 'attr' and x.args[1] == 'data'
                for x in walk(e.argts[0])) and e.loops]
    head = [e for e in i.events if e.kind in ('call', 'mutate') and
            str(e.name) == '.append' and e.argts and
            e.argts[-1].op == 'attr' and e.argts[-1].args[1] == 'stats' and
            e.loops]
    drop = [e for e in i.events if e.kind == 'call' and str(
        e.name) == '.append' and e.argts and e.argts[-1].op == 'index' and
        e.loops]
    mats = [a for e in i.events if e.kind == 'new' or e.kind == 'call' and
            str(e.name).split('.')[-1] == 'CorrBulk'
            for a in list(e.argts)[:1]]
    mats += [e.argts[0] for e in i.events if e.kind == 'setattr' and
             e.name == 'data' and e.argts]
    for m in mats:
        bare = cname(m) in ('empty', 'zeros')
        empty = any(cname(x) == 'empty' for x in walk(m))
        if empty and head:
            ctx.ob('rows', '%s: rows filled' % name, bool(fill), not fill
                   and 'the rows of the matrix are not filled with the data '
                   'of the traces', f.where())
        if bare and head and drop:
            ctx.ob('rows', '%s: rows skipped' % name, False, 'traces are '
                   'skipped but their rows stay in the matrix', f.where())
    for a in fill[:1]:
        for b in head[:1]:
            ca = set((c.t, c.pol) for c in a.pc)
            cb = set((c.t, c.pol) for c in b.pc)
            # or the rows are those of a list of the traces taken
            ok = ca == cb or a.loops != b.loops and {
                x for x in ca if x[0].op != 'iter'} == {
                x for x in cb if x[0].op != 'iter'}
            ctx.ob('rows', '%s: rows and headers' % name, ok, not ok and
                   'a row is filled and its header is collected under '
                   'different conditions', b.where())
        for d in drop[:1]:
            both = set((c.t, c.pol) for c in a.pc)
            ok = any((c.t, not c.pol) in both for c in d.pc)
            ctx.ob('rows', '%s: rows removed' % name, ok, not ok and
                   'rows are marked for removal under a condition that is '
                   'not the opposite of the one for filling them',
                   d.where())


def derived(ctx, p):
    """CorrStats: end_lag and delta follow npts, rate and start_lag."""
    f = p.func('correlate.stats.CorrStats.__setitem__', required=False)
    if f is None or len(f.params) < 3:
        return
    kp = [a for a in f.params if a != 'self']
    for key, want in (('npts', ('end_lag',)), ('start_lag', ('end_lag',)),
                      ('sampling_rate', ('end_lag', 'delta')),
                      ('delta', ('end_lag', 'delta')),
                      ('corr_start', ('starttime',)),
                      ('corr_end', ('endtime',))):
        def lb(i, st, ev):
            if ev.kind == 'setitem' and ev.name in (
                    'end_lag', 'delta', 'starttime', 'endtime') or \
                    ev.kind == 'setattr' and ev.name in (
                        'end_lag', 'delta', 'starttime', 'endtime'):
                return ['d:' + ev.name]
            return []
        i = Interp(p, label=lb, budget=60000)
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None)
        st, v = i.run(f, {kp[0]: Val(const(key), frozenset(), frozenset(),
                                     'str')}, sv, st)
        ctx.saw(i)
        if st is None:
            continue
        for w in want:
            ok = 'd:' + w in st.must
            ctx.ob('derived', 'CorrStats[%r] refreshes %s' % (key, w), ok,
                   not ok and 'setting %r leaves %r as it was' % (key, w),
                   f.where())
        for e in i.events:
            if e.kind == 'setitem' and e.name == 'end_lag' and e.argts \
                    and key in ('npts', 'start_lag', 'sampling_rate',
                                'delta'):
                end_lag(ctx, key, e, kp[1])


def trace(ctx, p):
    """A trace states the number of its samples."""
    f = p.func('correlate.stream.CorrTrace.__init__', required=False)
    if f is None or 'data' not in f.params:
        return
    i, st, v = run_one(p, f)
    ctx.saw(i)
    if st is None:
        return
    ok = 'w:npts' in st.must
    ctx.ob('entries', '%s: npts' % short(f.qual), ok, not ok and
           'a trace is created without writing the number of its samples',
           f.where())
    for e, v in writes(i, 'npts'):
        if mentions(v, 'data'):
            ok = cname(v) == 'len' or any(
                x.op == 'attr' and x.args[1] in ('size', 'shape')
                for x in walk(v))
            ctx.ob('values', '%s: value of npts' % short(f.qual), ok,
                   not ok and 'npts is set to %s' % show(v)[:80], e.where())


NUM = {'start_lag': 7, 'npts': 11, 'sampling_rate': 4}


def candidates(t, vp, key):
    """Values of a term for one header, over all its alternatives."""
    if t.op == 'phi':
        out = set()
        for a in t.args:
            out |= candidates(a, vp, key)
        return out
    k = leaf(t)
    if t.op == 'param' and t.args[0] == vp:
        return {Fraction(1, 4) if key == 'delta' else Fraction(NUM[key])}
    if isinstance(k, dict):
        return {Fraction(1, 4)}
    if k is not None and k.op == 'param' and k.args[0] in NUM:
        return {Fraction(NUM[k.args[0]])}
    if k is not None:
        return candidates(k, vp, key)
    if t.op == 'const' and isinstance(t.args[0], (int, float)):
        return {Fraction(t.args[0])}
    if t.op == 'call' and cname(t) in ('int', 'float', 'max') and \
            len(t.args) == 2:
        return candidates(t.args[1], vp, key)
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub', 'Mult', 'Div'):
        out = set()
        for a in candidates(t.args[1], vp, key):
            for b in candidates(t.args[2], vp, key):
                o = t.args[0]
                if o == 'Div' and not b:
                    continue
                out.add(a + b if o == 'Add' else a - b if o == 'Sub' else
                        a * b if o == 'Mult' else a / b)
        return out
    if t.op == 'ifexp':
        return candidates(t.args[1], vp, key) | candidates(
            t.args[2], vp, key)
    return set()


def end_lag(ctx, key, e, vp):
    v = e.argts[0]
    got = candidates(v, vp, key)
    if not got:
        return
    ok = 7 + Fraction(10, 4) in got
    ctx.ob('derived', 'CorrStats[%r]: end_lag' % key, ok, not ok and
           'end_lag is computed as %s, not as start_lag + (npts - 1) * '
           'delta' % show(v)[:80], e.where())


def run(ctx):
    p = ctx.p
    ctx.rule('entries', 'on every path to a return of new data the header '
             'entries that describe the changed extent are written to the '
             'header returned')
    ctx.rule('values', 'the values written are computed from the new data '
             '(its size, the slice taken, the step, the requested rate or '
             'windows)')
    ctx.rule('refuse', 'where the data given is returned, or an error is '
             'raised, no header entry has been written')
    ctx.rule('pair', 'CorrBulk stores data and header of the same call, '
             'which got its own data and header')
    ctx.rule('select', 'a selection of traces applies the index of the data '
             'to every per-trace header entry')
    ctx.rule('ntrcs', 'a selection of traces states their number')
    ctx.rule('rows', 'rows of a matrix and the headers collected for it '
             'stay in step')
    ctx.rule('derived', 'CorrStats recomputes the dependent entries')
    matrix_ops(ctx, p)
    bulk_ops(ctx, p)
    selections(ctx, p)
    combine(ctx, p)
    derived(ctx, p)
    trace(ctx, p)
    ctx.atleast('entries', 1)
