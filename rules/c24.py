"""C24: stacks never mix different stations, channels or lengths.

Where the samples, the weights and the header of a stack come from is
followed through selections, sortings and loops; grouping keys, the layout of
bulk matrices and the compared header entries are extracted from the source.
"""
import ast
import string
from sa.interp import Interp, State, Val
from sa.terms import const, walk, show
from sa.util import short
from sa import model as MD
from sa import colls as C
from sa.fsm import First
from rules.c04 import flush_of

S = 'correlate.stream.'
IDS = ('network', 'station', 'channel', 'location')


def flt(v):
    if v[0] == 'path':
        return v[1][1].within(v[1])
    return v[1].filters


def elem_of(v):
    return v[1] if v[0] == 'path' else v


def describe(fl):
    return 'all traces' if not fl else 'traces of one ' + ', '.join(
        sorted(fl))


def stack(ctx):
    p = ctx.p
    f = p.func(S + 'stack_st', required=False)
    if f is None:
        return
    ctx.funcs.add(f.qual)
    wpar = f.params[1] if len(f.params) > 1 else 'weight'
    for weight in ('mean', 'average', 'by_length'):
        for norm in (True, False):
            r = C.Run(f.module)
            env = {f.params[0]: ('coll', C.Coll(f.params[0])),
                   wpar: ('const', weight)}
            if len(f.params) > 2:
                env[f.params[2]] = ('const', norm)
            r.block(f.node.body, [env])
            for v, node in r.returns:
                if v is None or v[0] != 'rec':
                    continue
                rec = v[1]
                data = rec.kw.get('data') or (rec.args or [None])[0]
                hdr = rec.kw.get('_header') or rec.kw.get('header') or (
                    rec.args[1] if len(rec.args) > 1 else None)
                where = '%s:%d' % (f.qual, node.lineno)
                one_stack(ctx, weight, data, hdr, where)


def one_stack(ctx, weight, data, hdr, where):
    tag = 'stack_st(%s)' % weight
    dp = [x for x in C.paths(data) if x[0] == 'path'
          and x[2][-1] == 'data']
    if not dp:
        return
    fl = flt(dp[0])
    for k in ('npts', 'sampling_rate'):
        ctx.ob('equal', '%s: %s' % (tag, k),
               all(k in flt(x) for x in dp),
               'traces of different %s are stacked' % k, where)
    # weights
    for x in C.paths(data):
        if x[0] == 'path' and x[2][-1] != 'data':
            ctx.ob('equal', '%s: %s of the same traces' % (
                tag, '.'.join(map(str, x[2]))), flt(x) == fl,
                'the weights are of %s, the samples of %s' % (
                    describe(flt(x)), describe(fl)), where)
    if weight == 'by_length':
        weights(ctx, tag, data, where)
    else:
        means = [o for o in C.ops(data) if o[1] in (
            'nanmean', 'mean', 'average', 'nansum', 'sum', 'nanmedian',
            'median')]
        for o in means:
            ctx.ob('weights', '%s: %s' % (tag, 'weights'),
                   not any(x[0] == 'path' and x[2][-1] in (
                       'corr_end', 'corr_start') for x in C.paths(o)),
                   'a plain mean uses weights', where)
    # header
    if hdr is None or hdr[0] != 'hdr':
        return
    h = hdr[1]
    for key, fn, first in (('corr_start', 'min', 'first'),
                           ('corr_end', 'max', 'last')):
        v = h.over.get(key)
        if v is None:
            v = ('path', h.base, ('stats', key))
        ok, why = extreme(v, key, fn, first, fl)
        if ok is None:
            continue
        ctx.ob('span', '%s: %s' % (tag, key), ok, why, where)
    for key in ('npts', 'start_lag', 'sampling_rate'):
        if key in h.over:
            continue
        ctx.ob('span', '%s: %s' % (tag, key), fl <= flt(
            ('path', h.base, ())) or key != 'start_lag'
            and key in flt(('path', h.base, ())),
            'the entry is copied from one of %s, the stack is made of %s'
            % (describe(flt(('path', h.base, ()))), describe(fl)), where)


def extreme(v, key, fn, first, fl):
    if v[0] == 'path':
        e = v[1]
        if v[2][-1] != key:
            return False, 'the %s of the stack is the %s of a trace' % (
                key, v[2][-1])
        if not fl <= e[1].within(e):
            return False, 'the %s is taken from %s, the stack is made ' \
                'of %s' % (key, describe(e[1].filters), describe(fl))
        if e[2] == 'any':
            return False, 'the %s is the one of an arbitrary trace' % key
        o = e[3]
        good = o is not None and o[0] == key and e[2] == (
            first if not o[1] else {'first': 'last',
                                    'last': 'first'}[first])
        return good, 'the %s is the one of the %s trace, which is not ' \
            'the %s one (%s)' % (
                key, e[2], 'earliest' if fn == 'min' else 'latest',
                'ordered by %s' % o[0] if o else 'not ordered')
    if v[0] == 'agg':
        ps = [x for x in C.paths(v) if x[0] == 'path']
        if not ps:
            return None, ''
        if v[1] != fn:
            return False, 'the %s is the %s of all traces' % (key, v[1])
        if any(x[2][-1] != key for x in ps):
            return False, 'the %s is made of %s' % (key, ps[0][2][-1])
        if any(flt(x) != fl for x in ps):
            return False, 'the %s covers %s, the stack is made of %s' % (
                key, describe(flt(ps[0])), describe(fl))
        return True, ''
    return None, ''


def contents(v):
    """What the numbers of a value are made of (without the samples)."""
    out = set()
    for o in C.ops(v):
        if o[1] == 'Sub':
            ps = [x for a in o[2] for x in ([a] if a and a[0] == 'path'
                                            else [])]
            if len(ps) == 2:
                out.add((ps[0][2][-1], ps[1][2][-1]))
        if o[1] in ('len', 'size', '.size', '.shape'):
            out.add(('count', ''))
    return out


def weights(ctx, tag, data, where):
    divs = [o for o in C.ops(data) if o[1] == 'Div']
    found = False
    for o in divs:
        num, den = o[2]
        dn = [x for x in C.paths(den) if x[0] == 'path'
              and x[2][-1] == 'data']
        if dn:
            continue               # normalisation by the amplitude
        wn = contents(num)
        if not wn and not contents(den):
            continue
        found = True
        ctx.ob('weights', tag, wn == contents(den),
               'the weights of the sum are %s, it is divided by %s' % (
                   text(wn), text(contents(den))), where)
        ctx.ob('weights', tag + ': sum',
               any(x[1] in ('nansum', 'sum') for x in C.ops(den)),
               'the weighted sum is not divided by a sum', where)
    avg = [o for o in C.ops(data) if o[1] in ('average',)]
    if not found and not avg:
        # weighted without normalisation
        w = contents(data)
        ctx.ob('weights', tag, not w,
               'the weighted sum is not divided by the sum of the weights',
               where)
        ctx.ob('weights', tag + ': used', bool(w),
               'the lengths of the correlations are not used', where)
    for o in divs:
        w = contents(o[2][0])
        for x in w:
            ctx.ob('weights', tag + ': length', x[0] == 'count' or
                   x == ('corr_end', 'corr_start'),
                   'the weight is %s' % text({x}), where)


def text(w):
    return ', '.join('-'.join(x).strip('-') for x in sorted(w)) or 'none'


# ------------------------------------------------------------------ groups
def fields(t):
    """Identifier parts in a grouping key and whether they are separated."""
    out = []
    sep = True
    for x in walk(t):
        if x.op == 'const' and isinstance(x.args[0], str) and \
                '{' in x.args[0]:
            prev = None
            try:
                for lit, name, spec, conv in string.Formatter().parse(
                        x.args[0]):
                    if name is None:
                        continue
                    if prev is not None and lit == '':
                        sep = False
                    prev = name
                    out.append(name.split('[')[0].split('.')[-1])
            except ValueError:
                pass
    if not out:
        out = [x.args[-1] for x in walk(t) if x.op == 'attr'
               and x.args[-1] in IDS + ('id', 'npts')] + [
            x.args[1].args[0] for x in walk(t) if x.op == 'item'
            and x.args[1].op == 'const' and x.args[1].args[0] in IDS]
    return set(out), sep


def groups(ctx):
    p = ctx.p
    f = p.func(S + 'stack_st_by_group', required=False)
    if f is None or len(f.params) < 3:
        return
    sf = p.func(S + 'stack_st', required=False)
    src = f.params[0]
    for loc in (True, False):
        i = Interp(p, budget=120000,
                   no_inline=[sf.qual] if sf else [])
        st = State()
        i.run(f, {f.params[1]: Val(const(loc))}, None, st)
        ctx.saw(i)
        want = set(IDS) if loc else set(IDS[:3])
        nkeys = 0
        for e in i.events:
            key = None
            if e.kind == 'call' and e.name in ('.setdefault', '.get') and \
                    e.argts and '.pop' not in e.name:
                key = e.argts[0]
            elif e.kind == 'setitem' and len(e.argts) == 2:
                key = e.argts[1]
            elif e.kind == 'call' and str(e.name).split('.')[-1] in (
                    'groupby',):
                continue
            if key is None or not any(
                    x.op == 'elem' and any(
                        y.op == 'param' and y.args[0] == src
                        for y in walk(x)) for x in walk(key)):
                continue
            fs, sep = fields(key)
            if not fs:
                continue
            if 'id' in fs:
                fs |= set(IDS)
            nkeys += 1
            tag = 'location %s' % ('regarded' if loc else 'not regarded')
            for k in want:
                ctx.ob('group', '%s: %s' % (tag, k), k in fs,
                       'correlations of different %s come into one group'
                       % k, e.where())
            if not loc:
                ctx.ob('group', '%s: locations' % tag,
                       'location' not in fs,
                       'correlations of one channel are not stacked over '
                       'the locations', e.where())
            ctx.ob('group', '%s: separated' % tag, sep,
                   'two different identifiers give the same key',
                   e.where())
        # every trace into its group, every group into the stack
        for e in i.events:
            if e.kind != 'call' or e.func is not f:
                continue
            if e.name == '.append' and e.argts and e.argts[-1].op == \
                    'elem' and e.recv is not None and nkeys:
                conds = [c for c in e.pc if c.kind not in (
                    'for', 'iter', 'while', 'loop')]
                odd = [c for c in conds if not any(
                    x.op == 'obj' or x.op == 'cmp' and x.args[0] in (
                        'In', 'NotIn') for x in walk(c.t))
                    and not c.t.op == 'iter']
                ctx.ob('group', 'every trace', not odd,
                       'a trace enters a group only under a condition: %s'
                       % (show(odd[0].t) if odd else ''), e.where())
            if str(e.name).endswith('stack_st') and len(e.argts) > 1:
                ctx.ob('group', 'weight', any(
                    x.op == 'param' and x.args[0] == f.params[2]
                    for x in walk(e.argts[1])),
                    'the requested weighting is not used', e.where())
                odd = [c for c in e.pc if c.kind not in (
                    'for', 'iter', 'while', 'loop')
                    and c.t.op != 'iter']
                ctx.ob('group', 'every group', not odd,
                       'a group is stacked only under a condition: %s' % (
                           show(odd[0].t) if odd else ''), e.where())
                ctx.ob('group', 'groups are stacked', not (
                    e.argts[0].op == 'param'
                    and e.argts[0].args[0] == src),
                    'the whole stream is stacked', e.where())


def windows(ctx):
    p = ctx.p
    f = p.func(S + 'CorrStream.stack', required=False)
    g = p.func(S + 'stack_st_by_group', required=False)
    sl = p.func(S + 'CorrStream.slide', required=False)
    if f is None or g is None:
        return
    i = Interp(p, budget=120000, no_inline=[g.qual] + (
        [sl.qual] if sl else []))
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)
    ctx.saw(i)

    def is_param(t, name):
        return any(x.op == 'param' and x.args[0] == name for x in walk(t))
    n = 0
    for e in i.events:
        if e.kind != 'call':
            continue
        nm = str(e.name).split('.')[-1]
        if nm == 'stack_st_by_group' and len(e.argts) >= 3:
            n += 1
            ctx.ob('window', 'stack_st_by_group %d: location' % n,
                   is_param(e.argts[1], 'regard_location'),
                   'whether locations are regarded is not what was '
                   'requested', e.where())
            ctx.ob('window', 'stack_st_by_group %d: weight' % n,
                   is_param(e.argts[2], 'weight'),
                   'the weighting is not what was requested', e.where())
        if nm == 'slide' and sl is not None:
            a = dict(zip(sl.params, e.argts))
            if 'self' not in a:
                a = dict(zip([x for x in sl.params if x != 'self'],
                             e.argts))
            a.update(e.kwts or {})
            w, s = a.get('window_length'), a.get('step')
            if w is not None and s is not None:
                ctx.ob('window', 'slide: step', w == s,
                       'windows of length %s follow each other by %s'
                       % (show(w), show(s)), e.where())
            inc = a.get('include_partially_selected')
            if inc is not None and inc.op == 'const':
                ctx.ob('window', 'slide: every correlation',
                       inc.args[0] is True,
                       'a correlation that crosses the border of two '
                       'windows enters none of them', e.where())
    # default limits of the windows
    r = C.Run(f.module)
    me = 'self'
    env = {me: ('coll', C.Coll(me)), 'stack_len': ('const', 3600),
           'starttime': ('const', None), 'endtime': ('const', None),
           'weight': ('const', 'mean'), 'regard_location': ('const', True)}
    r.block(f.node.body, [env])
    for rec in r.calls:
        if rec.name != '.slide':
            continue
        for key, fn, first in (('starttime', 'min', 'first'),
                               ('endtime', 'max', 'last')):
            v = rec.kw.get(key)
            if v is None:
                continue
            k = 'corr_start' if fn == 'min' else 'corr_end'
            ok, why = extreme(v, k, fn, first, frozenset())
            if ok is None:
                continue
            ctx.ob('window', 'default %s' % key, ok,
                   why + ': correlations outside of it are lost',
                   '%s:%d' % (f.qual, rec.node.lineno))
    # daily stacks: a day, from midnight on
    r = C.Run(f.module)
    env = {me: ('coll', C.Coll(me)), 'stack_len': ('const', 'daily'),
           'starttime': ('const', None), 'endtime': ('const', None),
           'weight': ('const', 'mean'), 'regard_location': ('const', True)}
    r.block(f.node.body, [env])
    for rec in r.calls:
        if rec.name != '.slide':
            continue
        where = '%s:%d' % (f.qual, rec.node.lineno)
        pars = [x for x in (sl.params if sl else ()) if x != 'self']
        a = dict(zip(pars, rec.args[1:]))
        a.update(rec.kw)
        n = number(a.get('window_length'))
        if n is not None:
            ctx.ob('window', 'daily: length', n == 86400,
                   'a daily stack is %s s long' % n, where)
        s = a.get('starttime')
        if s is not None:
            mid = midnight(s)
            if mid is not None:
                ctx.ob('window', 'daily: midnight', mid,
                       'a daily stack does not start at midnight', where)


def number(v):
    if v is None:
        return None
    if v[0] == 'const' and isinstance(v[1], (int, float)):
        return v[1]
    if v[0] == 'op' and v[1] in ('Mult', 'Add', 'Div', 'Sub') and \
            len(v[2]) == 2:
        a, b = (number(x) for x in v[2])
        if a is None or b is None:
            return None
        return {'Mult': a * b, 'Add': a + b, 'Sub': a - b,
                'Div': a / b if b else None}[v[1]]
    return None


def midnight(v):
    """Whether a start time is cut to the day (None: not known)."""
    if v[0] in ('path', 'agg'):
        return False               # the time of a correlation
    if v[0] == 'rec':
        kw = v[1].kw
        names = {x[2][-1] if x[0] == 'path' else x[1]
                 for x in list(v[1].args) + list(kw.values())
                 if x is not None and x[0] in ('path', 'op')}
        fine = {'hour', 'minute', 'second'}
        return not (fine & (set(kw) | names)) and not (
            len(v[1].args) == 1 and not kw and v[1].args[0] is not None
            and v[1].args[0][0] == 'path')
    return None


# -------------------------------------------------------------------- bulk
EQUAL = ('npts', 'sampling_rate', 'network', 'station', 'start_lag',
         'end_lag')


def bulk_stats(ctx):
    p = ctx.p
    f = p.func(S + 'convert_statlist_to_bulk_stats', required=False)
    if f is None:
        return
    src = f.params[0]
    for vl in (True, False):
        for vc in (True, False):
            i = Interp(p, budget=120000)
            st = State()
            b = {}
            if 'varying_loc' in f.params:
                b['varying_loc'] = Val(const(vl))
            if 'varying_channel' in f.params:
                b['varying_channel'] = Val(const(vc))
            i.run(f, b, None, st)
            ctx.saw(i)
            keys = set()
            where = None
            for e in i.events:
                if e.kind != 'raise':
                    continue
                for c in e.pc:
                    for x in walk(c.t):
                        if x.op == 'cmp' and (
                                x.args[0] in ('NotEq', 'IsNot') and c.pol
                                or x.args[0] in ('Eq', 'Is')
                                and not c.pol):
                            for y in list(walk(c.t)) + [
                                    z for d in e.pc for z in walk(d.t)
                                    if d.t.op == 'iter']:
                                if y.op == 'const' and isinstance(
                                        y.args[0], str):
                                    keys.add(y.args[0])
                            where = e.where()
            rows(ctx, i, src, vl, vc)
            if where is None:
                continue
            need = list(EQUAL) + ([] if vl else ['location']) + (
                [] if vc else ['channel'])
            tag = 'location %s, channel %s' % (
                'varying' if vl else 'fixed', 'varying' if vc else 'fixed')
            for k in need:
                ctx.ob('bulk', '%s: %s' % (tag, k), k in keys,
                       'correlations of different %s are put into one '
                       'matrix' % k, where)


def rows(ctx, i, src, vl, vc):
    """One entry per correlation in the lists and in the count."""
    for e in i.events:
        if e.kind == 'setitem' and len(e.argts) == 2 and e.argts[1].op == \
                'const' and e.argts[1].args[0] == 'ntrcs':
            v = e.argts[0]
            if v.op in ('len', 'call', 'const'):
                ctx.ob('bulk', 'ntrcs', any(
                    x.op == 'param' and x.args[0] == src for x in walk(v)),
                    'the number of traces is %s' % show(v), e.where())
    empty = {show(e.argts[1]) for e in i.events if e.kind == 'setitem'
             and len(e.argts) == 2 and show(e.argts[0]) == 'list<>'}
    for e in i.events:
        if e.kind != 'setitem' or len(e.argts) != 2 or show(
                e.argts[1]) not in empty:
            continue
        for c in e.pc:
            if c.t.op == 'iter' and '[' in show(c.t) and any(
                    x.op == 'param' and x.args[0] == src
                    for x in walk(c.t)):
                ctx.ob('bulk', 'every header', False,
                       'the times of some correlations are left out: %s'
                       % show(c.t), e.where())


def bulk(ctx):
    p = ctx.p
    f = p.func(S + 'CorrStream.create_corr_bulk', required=False)
    cv = p.func(S + 'convert_statlist_to_bulk_stats', required=False)
    if f is None:
        return
    i = Interp(p, budget=120000, no_inline=[cv.qual] if cv else [])
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)
    ctx.saw(i)
    sig = ('network', 'station', 'location', 'channel')

    def leaf_for(eq):
        def leaf(t):
            if t.op == 'cmp' and any(
                    x.op == 'attr' and x.args[-1] == 'sampling_rate'
                    or x.op == 'const' and x.args[0] == 'sampling_rate'
                    for x in walk(t)):
                return eq == (t.args[0] in ('Eq', 'Is'))
            return None
        return leaf

    def can(e, eq):
        for c in e.pc:
            if c.kind in ('for', 'iter', 'loop', 'while') or \
                    c.t.op == 'iter':
                continue
            try:
                if bool(MD.ev(c.t, leaf_for(eq))) != c.pol:
                    return False
            except Exception:
                continue
        return True
    for e in i.events:
        if e.kind == 'call' and e.name == '.select':
            for k, t in zip(sig, e.argts):
                ps = {x.args[0] for x in walk(t) if x.op == 'param'}
                if len(ps) == 1:
                    ctx.ob('bulk', 'select: %s' % k, ps == {k},
                           'selects the %s %s' % (k, ps.pop()), e.where())
            for k, t in (e.kwts or {}).items():
                ps = {x.args[0] for x in walk(t) if x.op == 'param'}
                if len(ps) == 1 and k in sig:
                    ctx.ob('bulk', 'select: %s' % k, ps == {k},
                           'selects the %s %s' % (k, ps.pop()), e.where())
        if e.kind == 'call' and e.name == '.append' and e.argts:
            a = e.argts[-1]
            if a.op == 'attr' and a.args[-1] == 'stats':
                ctx.ob('bulk', 'headers', can(e, True) and not can(
                    e, False), 'the header of a trace of another sampling '
                    'rate is kept or that of an equal one is not',
                    e.where())
            elif a.op == 'index' or a.op == 'elem' and 'range' in show(a):
                ctx.ob('bulk', 'skipped rows', can(e, False) and not can(
                    e, True), 'the row of a trace that is used is taken '
                    'out or that of a skipped one is not', e.where())
        if e.kind == 'call' and str(e.name).endswith('delete') and len(
                e.argts) >= 2:
            ax = e.argts[2] if len(e.argts) > 2 else (
                e.kwts or {}).get('axis')
            ctx.ob('bulk', 'rows', ax is not None and ax.op == 'const'
                   and ax.args[0] == 0,
                   'not the rows of the skipped traces are taken out',
                   e.where())


def read(ctx):
    """No correlation is added to those of an earlier read interval."""
    fl = flush_of(ctx)
    if fl is None or not fl.grown or fl.unsure:
        return
    ctx.funcs.add(fl.f.qual)
    ctx.ob('read', 'one read interval', 'mixed' not in fl.bad,
           'a correlation of the next read interval is put to those of the '
           'last one before they are stacked',
           fl.bad.get('mixed', '%s:%d' % (fl.f.qual, fl.f.node.lineno)))
    p = ctx.p
    for n in ast.walk(fl.f.node):
        if not isinstance(n, ast.For) or not isinstance(
                n.iter, ast.Call) or not isinstance(
                n.iter.func, ast.Attribute) or not isinstance(
                n.target, ast.Tuple) or len(n.target.elts) != 2:
            continue
        g = p.method(fl.f.cls, n.iter.func.attr) if fl.f.cls else None
        if g is not None:
            announced(ctx, g)


def announced(ctx, g):
    """The first window of a read interval, and no other, is announced."""
    outer = [n for n in g.node.body if isinstance(n, (ast.For, ast.While))
             and any(isinstance(x, ast.Yield) for x in ast.walk(n))]
    ys = [x for x in ast.walk(g.node) if isinstance(x, ast.Yield)]
    if len(outer) != 1 or not isinstance(outer[0], ast.For) or not all(
            isinstance(y.value, ast.Tuple) and len(y.value.elts) == 2
            for y in ys):
        return
    flags = {x.id for y in ys for x in ast.walk(y.value.elts[1])
             if isinstance(x, ast.Name)}
    f = First(outer[0], flags)
    try:
        f.block(g.node.body, {frozenset()})
    except OverflowError:
        return
    if f.unsure or not f.seen:
        return
    ctx.funcs.add(g.qual)
    for b, what in ((False, 'the first correlation computed in a read '
                     'interval is not announced as such: it is stacked '
                     'with those of the last interval'),
                    (True, 'a later correlation of a read interval is '
                     'announced as the first: the interval is stacked in '
                     'parts')):
        n = f.bad.get(b)
        ctx.ob('read', 'first window' if not b else 'later windows',
               n is None, what, '%s:%d' % (g.qual, int(
                   (n or g.node).lineno)))


def run(ctx):
    ctx.rule('equal', 'the samples of a stack, and its weights, come from '
             'traces selected by number of samples and sampling rate')
    ctx.rule('span', 'the header of a stack spans exactly the traces used')
    ctx.rule('weights', 'the weighted sum is divided by the sum of the same '
             'weights, the lengths of the correlations')
    ctx.rule('group', 'the key of a group holds the whole identifier; every '
             'trace enters one group and every group is stacked')
    ctx.rule('window', 'adjacent windows cover all correlations, requested '
             'options are passed on')
    ctx.rule('read', 'the stack of a run holds the correlations of one read '
             'interval')
    ctx.rule('bulk', 'one matrix holds only correlations with equal sampling '
             'and identifier, one header entry per row')
    stack(ctx)
    groups(ctx)
    windows(ctx)
    bulk_stats(ctx)
    bulk(ctx)
    read(ctx)
    ctx.atleast('equal', 1)
