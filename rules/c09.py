"""C09: steps of a bulk object write back data and header and record it.

Every method of CorrBulk is interpreted with the processing functions kept
opaque, so that the new data, header and history of the object are terms over
their results.
"""
from sa.interp import Interp, State, Val
from sa.terms import T, const, mk, walk, show, alts, NONE
from sa.util import short
from sa.project import AnalysisBroken

STEPS = ['normalize', 'clip', 'correct_decay', 'correct_stretch',
         'correct_shift', 'envelope', 'filter', 'mirror', 'resample',
         'resample_time_axis', 'smooth', 'taper', 'taper_center', 'trim']
HIST = 'processing_bulk'


def opaque(p):
    return [f.qual for f in p.all_funcs()
            if f.module.name.startswith(('seismic.monitor',
                                         'seismic.utils'))]


def pair(p, f, memo={}):
    """Does the function return (data, header)?"""
    key = (id(p), f.qual)
    if key not in memo:
        i = Interp(p, budget=60000)
        st, v = i.run(f, None, None, State())
        n = None
        if st is not None:
            items = i.known_items(st, v)
            n = len(items) if items is not None else 0
            n = max([n] + [len(a.args) for a in alts(i.deep(st, v))
                           if a.op == 'tuple'])
        memo[key] = n == 2
    return memo[key]


def is_hist(t):
    return t.op == 'attr' and t.args[1] == HIST or t.op == 'item' and \
        t.args[1] == const(HIST)


def owner(t):
    return t.args[0]


def entries(e):
    """(header term, [entry terms]) of an event that adds to a history."""
    if e.kind in ('setattr', 'setitem') and e.name == HIST:
        vals = [t for t in e.argts if t != const(HIST)]
        if not vals:
            return None
        out = []
        for v in alts(vals[0]):
            if v.op == 'bin' and v.args[0] == 'Add' and is_hist(v.args[1]):
                lst = v.args[2]
                if lst.op != 'list':
                    return e.recv.t, None
                out.append(list(lst.args))
            elif v.op == 'list' and any(
                    a.op in ('star', 'starred') and is_hist(a.args[0])
                    for a in v.args):
                out.append([a for a in v.args if a.op not in (
                    'star', 'starred')])
            else:
                return e.recv.t, None
        if len({len(o) for o in out}) != 1:
            return e.recv.t, None
        return e.recv.t, [
            x[0] if len(x) == 1 else mk('phi', *x) for x in zip(*out)]
    if e.kind == 'call' and e.name in ('.append', '.extend', '.insert') \
            and e.recv is not None and is_hist(e.recv.t):
        if e.name == '.append':
            return owner(e.recv.t), [e.argts[0]]
        if e.name == '.extend' and e.argts and e.argts[0].op == 'list':
            return owner(e.recv.t), list(e.argts[0].args)
        return owner(e.recv.t), None
    return None


def exclusive(a, b):
    return any(x.t == y.t and x.pol != y.pol for x in a.pc for y in b.pc)


def calls_in(p, i, t):
    """Opaque package functions whose result is part of the term."""
    out = []
    for x in walk(t):
        if x.op == 'call' and x.args[0].op == 'ref' and \
                str(x.args[0].args[0]).startswith('seismic.'):
            out.append(x)
    return out


def bound(f, x):
    ps = [q for q in f.params if q != 'self']
    got = {}
    pos = [a for a in x.args[1:] if a.op != 'kw']
    for q, a in zip(ps, pos):
        got[q] = a
    for a in x.args[1:]:
        if a.op == 'kw':
            got[a.args[0]] = a.args[1]
    return got


def has(t, q):
    return any(x.op == 'param' and x.args[0] == q for x in walk(t))


def only_attr(terms, q):
    """The parameter is only used through its attributes."""
    for t in terms:
        for x in walk(t):
            for a in x.args:
                if isinstance(a, T) and a.op == 'param' and \
                        a.args[0] == q and x.op != 'attr':
                    return False
    return True


def interp(p, f, c, args=None, given=None):
    def label(i, st, ev):
        out = []
        if ev.kind == 'setattr' and ev.recv is not None and \
                ev.recv.t.op == 'param' and ev.recv.t.args[0] == 'self':
            out.append(ev.name)
        if entries(ev) is not None:
            out.append('history')
        return out

    def on_cmp(i, st, out):
        t = out.t
        if given and t.op == 'cmp' and NONE in t.args[1:] and any(
                a.op == 'param' and a.args[0] == given
                for a in t.args[1:]):
            if t.args[0] in ('Is', 'Eq'):
                return Val(const(False), out.tags, out.locs, 'bool')
            if t.args[0] in ('IsNot', 'NotEq'):
                return Val(const(True), out.tags, out.locs, 'bool')
        return None
    i = Interp(p, label=label, no_inline=opaque(p), on_cmp=on_cmp,
               budget=60000)
    st = State()
    sv = i.param(st, 'self', c.qual, None)
    st, v = i.run(f, args, sv, st)
    return i, st, v, sv


def step(ctx, p, c, f):
    name = short(f.qual)
    i, st, v, sv = interp(p, f, c)
    ctx.saw(i)
    if st is None:
        ctx.ob('data', name, False, 'never returns', f.where())
        return
    own = st.heap[next(iter(sv.locs))].fields
    data = i.deep(st, own['data']) if 'data' in own else None
    ok = 'data' in st.must and data is not None and all(
        any(x.op == 'attr' and x.args[1] == 'data' and x.args[0].op ==
            'param' and x.args[0].args[0] == 'self' for x in walk(a))
        and a.op != 'attr' for a in alts(data))
    ctx.ob('data', name, ok, 'the processed samples are not stored on every '
           'path (data becomes %s)' % (show(data)[:120] if data is not None
                                       else 'unchanged'), f.where())
    if data is None:
        return
    stats = i.deep(st, own['stats']) if 'stats' in own else None
    last = -1
    for x in calls_in(p, i, data):
        g = p.func(str(x.args[0].args[0]).replace('seismic.', '', 1),
                   required=False)
        for n, e in enumerate(i.events):
            if e.kind == 'call' and e.name == str(x.args[0].args[0]):
                last = max(last, n)
        if g is None:
            continue
        if pair(p, g):
            parts = [y for y in walk(data) if y.op == 'item'
                     and y.args[0] == x]
            ctx.ob('data', name + ' part', parts and all(
                y.args[1] == const(0) for y in parts),
                'data becomes %s' % show(data)[:120], f.where())
            good = stats is not None and any(
                y.op == 'item' and y.args[0] == x and y.args[1] == const(1)
                for y in walk(stats))
            ctx.ob('header', name, good and ('stats' in st.must),
                   'the header returned by %s is not stored (header is %s)'
                   % (short(g.qual), show(stats)[:80] if stats is not None
                      else 'unchanged'), f.where())
        for q, a in bound(g, x).items():
            if q in f.params and q != 'self':
                ctx.ob('forward', '%s %s' % (name, q), has(a, q),
                       '%s is called with %s=%s' % (
                           short(g.qual), q, show(a)[:60]), f.where())
            if q == 'data':
                ctx.ob('forward', name + ' data', show(a) == 'self.data',
                       'processes %s' % show(a)[:80], f.where())
            if q == 'stats':
                ctx.ob('forward', name + ' stats', show(a) == 'self.stats',
                       'uses header %s' % show(a)[:80], f.where())
    for q in f.params:
        if q != 'self':
            ctx.ob('forward', '%s %s used' % (name, q), has(data, q) or any(
                has(x.t, q) for e in i.events for x in e.pc),
                'the samples do not depend on %s' % q, f.where())
    # history
    hist = [(n, e, entries(e)) for n, e in enumerate(i.events)
            if entries(e) is not None]
    if stats is None or stats.op == 'attr':
        final = 'self.stats'
    else:
        final = show(stats)
    ctx.ob('history', name, 'history' in st.must and hist,
           'a path returns without an entry in the history', f.where())
    for n, e, (hdr, ent) in hist:
        ctx.ob('history', name + ' entry', ent is not None and len(ent) == 1,
               'the history is changed otherwise than by adding one entry',
               e.where())
        ctx.ob('history', name + ' once', not e.loops and all(
            exclusive(e, o) for m, o, _ in hist if m > n),
            'several entries on one path', e.where())
        ctx.ob('history', name + ' order', n > last, 'the entry is added '
               'before the step has succeeded', e.where())
        t = show(i.deep(st, e.recv)) if e.kind != 'call' else show(hdr)
        ctx.ob('history', name + ' header', t == final,
               'the entry goes to %s, the header is %s' % (
                   t[:80], final[:80]), e.where())
    rets = alts(i.deep(st, v))
    ctx.ob('self', name, all(a.op == 'param' and a.args[0] == 'self'
                             for a in rets),
           'returns %s' % show(rets[0])[:80], f.where())
    # naming of the parameters
    for q in f.params:
        if q == 'self' or only_attr([data], q):
            continue
        others = {r: Val(NONE, frozenset(), frozenset(), 'NoneType')
                  for r in f.params if r not in ('self', q)
                  and default_none(f, r)}
        j, st2, _, _ = interp(p, f, c, others, q)
        ctx.saw(j)
        ents = [entries(e) for e in j.events if entries(e) is not None]
        ok = st2 is not None and ents and all(
            en is not None and all(has(a, q) for x in en for a in alts(x))
            for _, en in ents)
        ctx.ob('name', '%s %s' % (name, q), ok, 'the entry does not name %s'
               % q, f.where())


def default_none(f, q):
    import ast
    a = f.node.args
    ps = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]],
                 a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults)
              if v is not None})
    v = d.get(q)
    return isinstance(v, ast.Constant) and v.value is None


def measure(ctx, p, c, f):
    name = short(f.qual)
    i, st, v, sv = interp(p, f, c)
    ctx.saw(i)
    bad = None
    for e in i.events:
        if e.kind == 'mutate':
            o = tuple(e.extra['origin'])
            k = o[1] if len(o) > 1 else e.extra['key']
            if o[0] == 'self' and k in ('data', 'stats'):
                bad = bad or e
    ctx.ob('extract', name, bad is None, 'changes %s' % (
        '.'.join(map(str, bad.extra['origin'])) if bad else ''),
        bad.where() if bad else f.where())
    if st is None:
        return
    done = set()
    for e in i.events:
        if e.kind != 'call' or not (e.name or '').startswith('seismic.mon') \
                or e.func.qual != f.qual:
            continue
        g = p.func(e.name.replace('seismic.', '', 1), required=False)
        if g is None:
            continue
        ps = [q for q in g.params if q != 'self']
        got = dict(zip(ps, e.argts))
        got.update(e.kwts)
        for q, a in got.items():
            if q in f.params and q != 'self' and (q, g.qual) not in done:
                ctx.ob('forward', '%s %s' % (name, q), has(a, q),
                       '%s is called with %s=%s' % (
                           short(g.qual), q, show(a)[:60]), e.where())


def run(ctx):
    p = ctx.p
    ctx.rule('data', 'a step stores samples computed from the samples of '
             'the object on every path')
    ctx.rule('header', 'a step whose function returns a header stores it')
    ctx.rule('history', 'exactly one entry is added to the history of the '
             'new header, after the processing')
    ctx.rule('name', 'the entry names each parameter of the step')
    ctx.rule('self', 'a step returns the object')
    ctx.rule('forward', 'data, header and parameters reach the parameter '
             'of the same name of the processing function')
    ctx.rule('extract', 'other methods store nothing into samples, header '
             'or history')
    c = p.cls('CorrBulk')
    n = 0
    for k in sorted(c.methods):
        f = c.methods[k]
        if k.startswith('__') or f.is_static:
            continue
        if k in STEPS:
            n += 1
            step(ctx, p, c, f)
        elif not k.startswith('_'):
            measure(ctx, p, c, f)
    if n < len(STEPS) // 2:
        raise AnalysisBroken('most steps are gone')
    ctx.atleast('extract', 5)
