"""C17: downsampling is protected against aliasing, upsampling is refused.

Every operation that drops samples (a slice with a step, decimate, resample)
is found in the interpreted package.  The corner of the low-pass filter that
the operand went through and the new rate are brought to polynomial normal
form over the old rate and the request; their ratio has to be a constant that
puts the corner at or below the new Nyquist frequency.
"""
import ast
from sa.interp import Interp, State, Val, Obj
from sa.terms import T, const, mk, walk, show, alts, NONE
from sa.util import short
from sa import poly as P
from rules.c06 import LOOSE, SR

E = frozenset()
APPLY = ('lfilter', 'filtfilt', 'sosfilt', 'sosfiltfilt')
DESIGN = ('butter', 'cheby1', 'cheby2', 'ellip', 'bessel')
LOW = ('low', 'lowpass', 'lp')
BAND = ('band', 'bandpass', 'bp', 'pass')
OWN = ('decimate', 'resample_poly')       # scipy functions that filter
# entry, name of the request, what the request is
REFUSE = [
    ('utils.miic_utils.resample_or_decimate', 'sampling_rate_new', 'rate',
     'obspy.core.trace.Trace'),
    ('utils.miic_utils.resample_or_decimate', 'sampling_rate_new', 'rate',
     'obspy.core.stream.Stream'),
    ('monitor.post_corr_process.corr_mat_resample_time', 'freq', 'rate',
     None),
    ('monitor.post_corr_process.corr_mat_resample_or_decimate', 'freq',
     'rate', None),
    ('monitor.post_corr_process.corr_mat_decimate', 'factor', 'factor',
     None),
    ('correlate.stream.CorrBulk.resample_time_axis', 'freq', 'rate', None),
]


def leaf(t):
    if t.op == 'bin' and t.args[0] == 'FloorDiv':
        return mk('bin', 'Div', t.args[1], t.args[2])
    return LOOSE(t)


def poly(t):
    return P.poly(t, leaf)


def ratio(a, b):
    """Constant value of a / b, or None."""
    if not a or not b:
        return None
    q = P.mul(a, P.inv(b))
    if list(q) == [()]:
        return q[()]
    return None


def cname(t):
    if t.op != 'call':
        return ''
    h = t.args[0]
    return str(h.args[0]).split('.')[-1] if h.op == 'ref' else str(
        h.args[1]) if h.op == 'attr' else ''


def kws(t):
    return {a.args[0]: a.args[1] for a in t.args[1:] if a.op == 'kw'}


def pos(t):
    return [a for a in t.args[1:] if a.op != 'kw']


def last(t):
    """Last element of a term for a frequency or a pair of frequencies."""
    if t.op == 'bin':
        return mk('bin', t.args[0], last(t.args[1]), last(t.args[2]))
    if cname(t) in ('array', 'asarray', 'float', 'tuple', 'list') and \
            pos(t):
        return last(pos(t)[0])
    if t.op in ('list', 'tuple') and t.args:
        return t.args[-1]
    if t.op == 'phi':
        return mk('phi', *[last(a) for a in t.args])
    return t


def corners(t):
    """Corner frequencies (normal form, in the unit of the rate) of the
    low-pass filters that a term went through."""
    out = []
    for x in walk(t):
        n = cname(x)
        if n in APPLY and pos(x):
            co = [y for a in pos(x)[:-1] for y in walk(a)
                  if cname(y) in DESIGN]
            for y in co:
                a, k = pos(y), kws(y)
                bt = k.get('btype')
                wi = {'butter': 1, 'bessel': 1, 'cheby1': 2, 'cheby2': 2,
                      'ellip': 3}[cname(y)]
                if bt is None and len(a) > wi + 1:
                    bt = a[wi + 1]
                bt = bt.args[0] if bt is not None and bt.op == 'const' \
                    else 'low'
                w = k.get('Wn', a[wi] if len(a) > wi else None)
                if w is None or bt not in LOW + BAND:
                    continue
                for b in spread(last(w)):
                    c = poly(b)
                    if 'fs' not in k:
                        c = P.mul(c, poly(mk('bin', 'Div', SR, const(2))))
                    out.append(c)
        if n in ('lowpass', 'lowpass_cheby_2', 'bandpass') and \
                x.args[0].op == 'ref':
            k = kws(x)
            ix = 2 if n == 'bandpass' else 1
            w = k.get('freqmax' if n == 'bandpass' else 'freq',
                      pos(x)[ix] if len(pos(x)) > ix else None)
            if w is not None:
                out += [poly(b) for b in spread(w)]
    return out


def inplace(e):
    """Corners of an in-place filter of a stream or trace."""
    if e.kind != 'call' or e.name != '.filter' or not e.argts:
        return []
    ty = e.argts[0]
    ty = ty.args[0] if ty.op == 'const' else ''
    key = {'lowpass': 'freq', 'lowpass_cheby_2': 'freq',
           'lowpass_fir': 'freq', 'bandpass': 'freqmax'}.get(ty)
    w = e.kwts.get(key)
    return [poly(b) for b in spread(w)] if w is not None else []


def spread(t, n=16):
    """The alternatives of a term, those of its parts included."""
    ph = next((x for x in walk(t) if x.op == 'phi'), None)
    if ph is None or n < 2:
        return [t]
    out = []
    for a in ph.args:
        out += spread(subst(t, ph, a), n // len(ph.args))
    return out


def subst(t, old, new):
    if t == old:
        return new
    if not isinstance(t, T):
        return t
    return mk(t.op, *[subst(a, old, new) if isinstance(a, T) else a
                      for a in t.args])


def step_of(kt):
    """Step of a slice that drops samples, or None."""
    for x in walk(kt):
        if x.op == 'slice' and len(x.args) == 3 and x.args[2] != NONE:
            s = x.args[2]
            if s.op == 'const' and s.args[0] in (1, -1):
                continue
            if s.op == 'un' and s.args[0] == 'neg':
                s = s.args[1]
                if s == const(1):
                    continue
            return s
    return None


class Op:
    pass


def analyse(p, f, typ=None, bind=None, case=None):
    ops = []
    seq = {}

    def on_item(i, st, base, key, out, node):
        kt = i.deep(st, key)
        s = step_of(kt)
        if s is None:
            return None
        o = Op()
        o.what, o.data, o.recv = 'slice', i.deep(st, base), None
        o.new = [P.mul(poly(SR), P.inv(poly(a))) for a in alts(s)]
        o.must, o.func, o.pc = st.must, i.frames[-1].func, st.pc
        if not samples(i, o):
            return None
        o.where = '%s:%d in %s' % (o.func.module.path, node.lineno,
                                   short(o.func.qual))
        o.res = out
        ops.append(o)
        return None

    def label(i, st, ev):
        out = []
        for n, c in enumerate(inplace(ev)):
            key = ('lp', ev.where(), n)
            seq[key] = (c, ev)
            out.append(key)
        if ev.kind in ('setitem', 'setattr') and ev.name in (
                'sampling_rate', 'delta') and ev.recv is not None:
            key = ('rate', ev.where())
            v = [t for t in ev.argts if not (
                t.op == 'const' and t.args[0] == ev.name)]
            c = [poly(a) for a in alts(v[0])] if v else []
            if ev.name == 'delta':
                c = [P.inv(x) for x in c]
            seq[key] = (c, ev)
            out.append(key)
        return out

    def on_cmp(i, st, out):
        t = out.t
        if case is None or t.op != 'cmp' or len(t.args) != 3:
            return None
        op, a, b = t.args
        r = ordering(a, b, case, bind)
        if r is None:
            return None
        v = {'Lt': r < 0, 'LtE': r <= 0, 'Gt': r > 0, 'GtE': r >= 0,
             'Eq': r == 0, 'NotEq': r != 0}.get(op)
        return None if v is None else Val(const(v), out.tags, out.locs,
                                          'bool')
    def on_call(i, st, name, recv, args, kwargs, node):
        if str(name).split('.')[-1] == 'isinstance' and len(args) == 2 and \
                typ and args[0].typ == typ and args[1].t.op == 'ref':
            return Val(const(str(args[1].t.args[0]).split('.')[-1] ==
                             typ.split('.')[-1]), E, E, 'bool')
        return None
    i = Interp(p, label=label, on_item=on_item, on_cmp=on_cmp,
               on_call=on_call,
               budget=120000, no_inline=[f.qual])
    st = State()
    sv = None
    args = {}
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    for a, d in defaults(f):
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            args[a] = Val(const(d.value), E, E, 'bool')
    if typ:
        args[f.params[0]] = i.param(st, f.params[0], typ, f)
    st, v = i.run(f, args, sv, st)
    for e in i.events:
        n = e.name.split('.')[-1] if e.kind == 'call' else ''
        if n in ('decimate', 'resample') and e.recv is not None and \
                e.name.startswith('.'):
            if cls(p, e.recv):
                continue
            if n == 'decimate' and 'no_filter' not in e.kwts:
                continue
            o = Op()
            o.what, o.data, o.recv = n, None, e.recv
            if not e.argts and not e.kwts:
                continue
            a = e.argts[0] if e.argts else e.kwts.get(
                'factor' if n == 'decimate' else 'sampling_rate', NONE)
            o.new = [P.mul(poly(SR), P.inv(poly(x))) if n == 'decimate'
                     else poly(x) for x in alts(a)]
            o.must, o.func, o.where, o.pc = e.must, e.func, e.where(), e.pc
            ops.append(o)
        elif n == 'resample' and e.recv is None and \
                e.name.startswith('scipy.'):
            o = Op()
            o.what, o.data, o.recv = 'resample', e.argts[0], None
            o.new = None
            o.must, o.func, o.where, o.pc = e.must, e.func, e.where(), e.pc
            o.num = e.argts[1] if len(e.argts) > 1 else e.kwts.get('num')
            ops.append(o)
        elif n in ('decimate', 'resample_poly') and e.recv is None and \
                e.name.startswith('scipy.'):
            o = Op()
            o.what, o.data, o.recv, o.new = 'own', e.argts[0], None, None
            o.must, o.func, o.where, o.pc = e.must, e.func, e.where(), e.pc
            ops.append(o)
    return i, st, v, ops, seq


def samples(i, o):
    """Is the sliced array one of correlation or waveform samples?"""
    ps = set(o.func.params)
    if not ps & {'stats', 'tr', 'trace', 'st', 'params', 'data'}:
        return False
    return not any(cname(x) in ('where', 'nonzero', 'arange', 'diff')
                   for x in [o.data])


def cls(p, v):
    from sa.project import Cls
    return isinstance(p.by_qual.get(v.typ or ''), Cls) and \
        str(v.typ).startswith('seismic')


def defaults(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    out = list(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    out += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    return out


def floors(t):
    return any(x.op == 'bin' and x.args[0] == 'FloorDiv' or
               cname(x) in ('int', 'floor', 'round', 'ceil', 'rint')
               for x in walk(t))


def ordering(a, b, case, bind):
    """Sign of a - b when the old rate is to the requested one as case
    says (-1: a higher rate is requested)."""
    req = mk('param', bind[0])
    if bind[1] == 'rate':
        r = P.mul(poly(SR), P.inv(poly(req)))
    else:
        r = poly(req)
    q = None
    pa, pb = poly(a), poly(b)
    if not pa or not pb:
        return None
    q = P.mul(pa, P.inv(pb))
    if len(q) != 1:
        return None
    if q == r:
        s = case
    elif q == P.inv(r):
        s = -case
    else:
        return None
    if floors(a) or floors(b):
        # a rounded ratio is only compared with one, from below
        if case < 0 and (b == const(1) and q == r or
                         a == const(1) and q == P.inv(r)):
            return s
        return None
    return s


def entries(p):
    out = []
    for f in p.all_funcs():
        if f.module.name.split('.')[1:2] in (['plot'],):
            continue
        for n in ast.walk(f.node):
            hit = False
            if isinstance(n, ast.Slice) and n.step is not None:
                s = n.step
                if isinstance(s, ast.UnaryOp):
                    s = s.operand
                hit = not (isinstance(s, ast.Constant) and s.value in (
                    1, None))
            elif isinstance(n, ast.Call):
                c = n.func
                nm = c.attr if isinstance(c, ast.Attribute) else getattr(
                    c, 'id', '')
                hit = nm in ('decimate', 'resample')
            if hit:
                out.append(f)
                break
    return out


def callers(p, f):
    out = []
    for g in p.all_funcs():
        if g is f:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                c = n.func
                nm = c.attr if isinstance(c, ast.Attribute) else getattr(
                    c, 'id', '')
                if nm == f.name:
                    out.append(g)
                    break
    return out


def judge(i, st, v, f, ops, seq):
    """[(construct, rule, ok, message, where)] of one interpreted entry."""
    out = []
    rates = [(k, c, e) for k, (c, e) in seq.items() if k[0] == 'rate']
    for o in ops:
        if o.what == 'own':
            cs, new = [], None
            ok, msg = True, ''
        else:
            new = o.new
            if new is None:
                new = [x for k, c, e in rates for x in c]
            cs = corners(o.data) if o.data is not None else []
            if o.recv is not None:
                for k in o.must:
                    if k[0] == 'lp' and k in seq:
                        c, e = seq[k]
                        if e.recv is not None and e.recv.t == o.recv.t:
                            cs.append(c)
                # one of several branches filtered
                grp = {}
                for k, (c, e) in seq.items():
                    if k[0] == 'lp' and e.recv is not None and \
                            e.recv.t == o.recv.t and e.func is o.func:
                        grp.setdefault(k[1], []).append((c, e))
                if not cs and grp and covered(
                        [e for x in grp.values() for c, e in x], o.pc):
                    cs = [c for x in grp.values() for c, e in x]
            msg = ''
            if not cs:
                msg = 'samples are dropped from data that no low-pass ' \
                    'filter was applied to'
            elif not new:
                msg = 'the new rate is not recorded'
            else:
                for n in new:
                    vals = [ratio(c, n) for c in cs]
                    good = [x for x in vals if x is not None and x <= 0.5]
                    if o.recv is not None:
                        if len(good) != len(vals):
                            msg = 'corner %s for the new rate %s' % (
                                P.text(cs[0]), P.text(n))
                    elif not good:
                        msg = 'corner %s for the new rate %s' % (
                            P.text(cs[0]), P.text(n))
            ok = not msg
        out.append(('filter', '%s %s' % (short(o.func.qual), o.what), ok,
                    msg, o.where))
        if o.recv is not None and str(o.recv.typ).endswith('.Stream'):
            out.append(('mixed', '%s %s' % (short(o.func.qual), o.what),
                        any(many(c.t) or told(c, i) for c in o.pc),
                        'a stream is resampled as a whole although its '
                        'traces may have different rates', o.where))
    return out, rates


def many(t):
    """Does a condition look at the rates of all traces?"""
    if t.op == 'not':
        return many(t.args[0])
    if t.op == 'listof':
        return False
    for x in walk(t):
        if cname(x) == 'len' and pos(x) and pos(x)[0].op == 'listof' and \
                t.op == 'cmp' and x in t.args:
            return False
        if x.op in ('listof', 'setof', 'genof', 'dictof', 'gen', 'comp',
                    'elem') and any(
                y.op in ('attr', 'item') and y.args[1] in (
                    'sampling_rate', const('sampling_rate'), 'delta')
                for y in walk(x)):
            return True
    return False


def told(c, i):
    """Does a condition exclude the value that stands for data with
    different rates?"""
    t, pol = c.t, c.pol
    while t.op == 'not':
        t, pol = t.args[0], not pol
    if t.op == 'cmp' and t.args[0] in ('Is', 'IsNot', 'Eq', 'NotEq'):
        a, b = t.args[1:3]
        if a.op == 'const':
            a, b = b, a
        if b.op != 'const' or (t.args[0] in ('Is', 'Eq')) == pol:
            return False
        v = b
    elif t.op == 'phi':
        a = t
        v = next((x for x in t.args if x.op == 'const' and
                  bool(x.args[0]) != pol), None)
    else:
        return False
    return v is not None and a.op == 'phi' and v in a.args and \
        v in answers(i)


def answers(i):
    """Constants assigned because of the rates of all traces."""
    return {e.argts[0] for e in i.events if e.kind in ('return', 'setname')
            and e.argts and e.argts[0].op == 'const' and
            any(many(x.t) for x in e.pc)}


def covered(evs, base):
    """The branches of the events cover all paths."""
    base = {(c.t, c.pol) for c in base}
    pcs = [[(c.t, c.pol) for c in e.pc if (c.t, c.pol) not in base]
           for e in evs]

    def tot(ps):
        if any(not x for x in ps):
            return True
        if not ps:
            return False
        t = ps[0][0][0]
        yes = [[y for y in x if y[0] != t] for x in ps
               if (t, False) not in x]
        no = [[y for y in x if y[0] != t] for x in ps
              if (t, True) not in x]
        return len(yes) + len(no) and tot(yes) and tot(no)
    return tot(pcs)


def run(ctx):
    p = ctx.p
    ctx.rule('filter', 'the data samples are dropped from went through a '
             'low-pass filter with a corner at or below half the new rate')
    ctx.rule('rate', 'the header carries the new rate wherever samples '
             'were dropped from a matrix')
    ctx.rule('mixed', 'a stream is only resampled as a whole when the rates '
             'of all its traces were looked at')
    ctx.rule('refuse', 'no path returns when a higher rate is requested')
    ctx.rule('off', 'no call in the package switches the filter off')
    todo = entries(p)
    failed = {}
    cache = {}

    def result(f):
        if f.qual not in cache:
            res = []
            for typ in types(f):
                i, st, v, ops, seq = analyse(p, f, typ)
                ctx.saw(i)
                r, rates = judge(i, st, v, f, ops, seq)
                r += header(i, st, v, f, ops, rates)
                res += r
            cache[f.qual] = res
        return cache[f.qual]
    for f in todo:
        res = result(f)
        for rule, con, ok, msg, where in res:
            if not ok:
                # a helper may rely on its callers
                cs = callers(p, f)
                got = [x for g in cs for x in result(g)
                       if x[0] == rule and x[1] == con]
                if cs and got and all(x[2] for x in got):
                    ok = True
            ctx.ob(rule, con, ok, msg, where)
    for q, req, kind, typ in REFUSE:
        f = p.func(q, required=False)
        if f is None or req not in f.params:
            continue
        i, st, v, ops, seq = analyse(p, f, typ, (req, kind), -1)
        ctx.saw(i)
        bad = None
        if st is not None:
            rets = [e for e in i.events if e.kind == 'return'
                    and e.func is f]
            selfcall = [e for e in i.events if e.kind == 'call'
                        and e.name == 'seismic.' + short(f.qual)
                        or e.kind == 'call' and e.name == f.qual]
            for e in rets:
                base = [c.key() for c in e.pc]
                if any(all(c.key() in base for c in s.pc
                           if c.kind == 'if') for s in selfcall):
                    continue
                if empty(e):
                    continue
                bad = e
        ctx.ob('refuse', '%s %s' % (short(q), (typ or '').split('.')[-1]),
               bad is None, 'returns although a higher rate than that of '
               'the data was requested', bad.where() if bad else f.where())
    switched(ctx)
    ctx.atleast('filter', 3)
    ctx.atleast('refuse', 4)


def switched(ctx):
    """The filter argument of every call is true or the caller's own."""
    p = ctx.p
    g = p.func('utils.miic_utils.resample_or_decimate', required=False)
    if g is None or 'filter' not in g.params:
        return
    k = g.params.index('filter')
    for f in p.all_funcs():
        if not any(isinstance(n, (ast.Name, ast.Attribute)) and getattr(
                n, 'id', getattr(n, 'attr', '')) == g.name
                for n in ast.walk(f.node)):
            continue
        i = Interp(p, budget=60000, no_inline=[g.qual])
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None) \
            if f.cls is not None and not f.is_static else None
        i.run(f, {}, sv, st)
        for e in i.events:
            if e.kind != 'call' or e.name.split('.')[-1] != g.name:
                continue
            v = e.kwts.get('filter')
            if v is None and len(e.argts) > k:
                v = e.argts[k]
            bad = [a for a in alts(v) if not (
                a.op == 'param' or a.op == 'const' and a.args[0])] \
                if v is not None else []
            ctx.ob('off', short(f.qual), not bad,
                   'resampled without filter', e.where())


def types(f):
    a = f.node.args.args
    ann = ast.unparse(a[0].annotation) if a and a[0].annotation else ''
    if 'Stream' in ann and 'Trace' in ann:
        return ['obspy.core.trace.Trace', 'obspy.core.stream.Stream']
    return [None]


def empty(e):
    """The stream has no traces."""
    for c in e.pc:
        t, pol = c.t, c.pol
        if t.op == 'not':
            t, pol = t.args[0], not pol
        s = show(t)
        if not pol and (s.startswith('len(') or s.endswith('.count()')):
            return True
        if pol and t.op == 'cmp' and t.args[0] == 'Eq' and \
                const(0) in t.args[1:] and 'len(' in s:
            return True
    return False


def header(i, st, v, f, ops, rates):
    """The header of a returned matrix carries the new rate."""
    out = []
    drops = [o for o in ops if o.recv is None]
    if not drops:
        return out
    for e in i.events:
        if e.kind != 'return' or e.func is not f or not e.args:
            continue
        items = i.known_items(st, e.args[0]) if st is not None else None
        if not items or len(items) != 2:
            continue
        for o in drops:
            if o.data is None or not uses(e.argts[0], o):
                continue
            new = o.new
            good = False
            for k, c, s in rates:
                if k not in e.must or not (s.recv.locs & items[1].locs):
                    continue
                if new is None or all(x in new for x in c):
                    good = True
            out.append(('rate', '%s %s' % (short(f.qual), o.what), good,
                        'returned without the new sampling rate in its '
                        'header', e.where()))
    return out


def uses(t, o):
    for x in walk(t):
        if x.op == 'item' and o.what == 'slice' and step_of(
                x.args[1]) is not None:
            return True
        if cname(x) in ('resample', 'decimate', 'resample_poly') and \
                o.what != 'slice':
            return True
    return False
