"""C06: the lag axis (polynomial normal forms and dimensional analysis)."""
import ast
from fractions import Fraction
from sa.interp import Interp, State, Val, Obj, E
from sa.terms import T, const, mk, walk, show, alts, NONE
from sa.util import short
from sa.project import AnalysisBroken
from sa import poly as P

KEYS = ('delta', 'sampling_rate', 'npts', 'start_lag', 'corr_start',
        'corr_end')
DERIVED = ('delta', 'end_lag', 'starttime', 'endtime')
HDR = ('start_lag', 'end_lag', 'sampling_rate', 'delta', 'npts')
ROUND = ('int', 'numpy.floor', 'numpy.ceil', 'numpy.round', 'numpy.rint',
         'numpy.fix', 'numpy.around', 'round', 'math.floor', 'math.ceil',
         'numpy.int32', 'numpy.int64', 'numpy.trunc', 'numpy.abs')
SR = mk('hdr', 'sampling_rate')
SL = mk('hdr', 'start_lag')
NP = mk('hdr', 'npts')
DIM = {'start_lag': 1, 'sampling_rate': -1, 'npts': 0}


def ref(t):
    return str(t.args[0].args[0]) if t.op == 'call' and \
        t.args[0].op == 'ref' else ''


def leaf(rounding=False, header=True):
    """Header entries as symbols, length of any array as npts."""
    def f(t):
        if t.op == 'phi':
            al = [a for a in t.args if not (
                a.op == 'const' and a.args[0] in (0, 0.0, None))
                and a.op != 'absent']
            if not al:
                return None
            ps = [P.poly(a, f) for a in al]
            if all(x == ps[0] for x in ps):
                return ps[0]
            return None
        k = None
        if t.op == 'attr':
            k = t.args[1]
        elif t.op == 'item' and t.args[1].op == 'const':
            k = t.args[1].args[0]
        if header and k in HDR:
            if k == 'delta':
                return mk('bin', 'Div', const(1), SR)
            if k == 'end_lag':
                return mk('bin', 'Add', SL, mk('bin', 'Div', mk(
                    'bin', 'Sub', NP, const(1)), SR))
            return mk('hdr', k)
        r = ref(t)
        if r == 'float' and len(t.args) == 2:
            return t.args[1]
        if r == 'len' or (t.op == 'item' and t.args[0].op == 'attr'
                          and t.args[0].args[1] == 'shape') or (
                t.op == 'attr' and t.args[1] == 'size'):
            return NP
        if rounding and r in ROUND and len(t.args) >= 2:
            return t.args[1]
        if rounding and t.op == 'call' and t.args[0].op == 'attr' and \
                t.args[0].args[1] in ('astype', 'copy', 'round'):
            return t.args[0].args[0]
        return None
    return f


EXACT, LOOSE = leaf(), leaf(True)


def header(ctx, p):
    c = p.cls('CorrStats')
    f = p.method(c, '__setitem__')
    for k in KEYS:
        def label(i, st, ev):
            if ev.kind in ('setitem', 'setattr') and ev.recv is not None and \
                    '__dict__' in show(ev.recv.t) or \
                    ev.kind == 'setattr':
                return [ev.name]
            return ()

        def cmp(i, st, out):
            t = out.t
            if t.op == 'cmp' and t.args[0] in ('Eq', 'NotEq') and \
                    'npts' in show(t.args[1]) and t.args[2] == const(0):
                return Val(const(t.args[0] == 'NotEq'), out.tags, E, 'bool')
            return None
        i = Interp(p, label=label, on_cmp=cmp)
        st = State()
        sv = i.param(st, 'self', c.qual, None)
        st, _ = i.run(f, {f.params[1]: Val(const(k)),
                          f.params[2]: Val(mk('param', 'value'))}, sv, st)
        ctx.saw(i)
        name = 'setting %s' % k
        if st is None:
            raise AnalysisBroken('%s: setter not understood' % name)
        own = st.heap[next(iter(sv.locs))].fields
        last = {}
        for e in i.events:
            if e.kind in ('setitem', 'setattr') and e.name in DERIVED:
                last[e.name] = e
        new = {}
        val = mk('param', 'value')
        for q in ('sampling_rate', 'npts', 'start_lag', 'corr_start',
                  'corr_end'):
            new[q] = own[q].t if q in own else mk('attr', sv.t, q)
        src = 'sampling_rate' if k == 'delta' else k
        want = mk('bin', 'Div', const(1), val) if k == 'delta' else val
        lf = leaf(True, False)
        ctx.ob('derive', name, P.poly(new[src], lf) == P.poly(want, lf),
               '%s becomes %s' % (src, show(new[src])[:80]), f.where())
        delta = mk('bin', 'Div', const(1), new['sampling_rate'])
        wants = {
            'delta': delta,
            'end_lag': mk('bin', 'Add', new['start_lag'], mk(
                'bin', 'Mult', mk('bin', 'Sub', new['npts'], const(1)),
                delta)),
            'starttime': new['corr_start'], 'endtime': new['corr_end']}
        for d in DERIVED:
            e = last.get(d)
            con = '%s updates %s' % (name, d)
            if e is None or d not in st.must:
                ctx.ob('derive', con, False, '%s is not updated on every '
                       'path' % d, f.where())
                continue
            vals = [t for t in e.argts if t != const(d)]
            # without samples the last lag is the first one
            got = spread(vals[0]) if len(vals) == 1 else []
            got = [a for a in got if d != 'end_lag' or len(got) == 1 or
                   P.poly(a, lf) != P.poly(new['start_lag'], lf)]
            ok = len(vals) == 1 and got and all(
                P.poly(a, lf) == P.poly(wants[d], lf) for a in got)
            ctx.ob('derive', con, ok, '%s becomes %s' % (
                d, show(vals[0])[:120] if vals else '?'), e.where())
    ro = c.attrs.get('readonly')
    names = {x.value for x in ast.walk(ro) if isinstance(x, ast.Constant)} \
        if ro is not None else set()
    ctx.ob('derive', 'read-only entries', {'endtime', 'end_lag',
                                           'starttime'} <= names,
           'derived entries can be assigned', f.where())
    al = c.attrs.get('__setattr__')
    own = c.methods.get('__setattr__')
    ctx.ob('derive', 'attribute assignment', own is not None or (
        isinstance(al, ast.Name) and al.id == '__setitem__'),
        'assigning an attribute does not refresh', f.where())


def spread(t):
    """Alternatives without the guards against division by zero."""
    out = [a for a in alts(t) if not (a.op == 'const' and not a.args[0])]
    return out or [t]


# ------------------------------------------------------------ dimensions
def monodim(m):
    """Exponent of seconds of a monomial, None if unknown."""
    d = 0
    for a, k in m:
        x = P._atoms[a]
        if x.op == 'hdr':
            d += DIM[x.args[0]] * k
        elif x.op == 'inv':
            s = {monodim(n) for n, _ in x.args[0] if n}
            if len(s) != 1 or None in s:
                return None
            d -= s.pop() * k
        elif ref(x) in ('numpy.arange', 'range') and len(x.args) == 2 and \
                x.args[1] == NP:
            pass
        else:
            return None
    return d


def clash(t):
    """Do the summands have different known dimensions?"""
    pl = P.poly(t, LOOSE)
    ds = {}
    for m in pl:
        if m == ():
            continue
        d = monodim(m)
        if d is not None:
            ds.setdefault(d, m)
    return ds if len(ds) > 1 else None


INTEREST = ('start_lag', 'end_lag')


def interesting(t):
    return any(x.op == 'attr' and x.args[1] in INTEREST or x.op == 'item'
               and x.args[1].op == 'const' and x.args[1].args[0] in INTEREST
               for x in walk(t))


def users(p):
    """Functions that read a lag of a header."""
    out = []
    for f in p.all_funcs():
        if f.module.name.startswith('seismic.plot'):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in INTEREST and \
                    isinstance(n.ctx, ast.Load) or isinstance(
                        n, ast.Subscript) and isinstance(
                            n.slice, ast.Constant) and \
                    n.slice.value in INTEREST and isinstance(
                        n.ctx, ast.Load):
                out.append(f)
                break
    return out


def coeff_ok(t):
    """An index: -start_lag * sampling_rate at most."""
    pl = P.poly(t, LOOSE)
    for m, c in pl.items():
        names = {P._atoms[a]: k for a, k in m}
        if SL in names:
            if names != {SL: 1, SR: 1} or c != -1:
                return False
    return True


def inside(t):
    """Subterms of an index that carry the lag, below joins and arrays."""
    if t.op == 'phi':
        return [y for a in t.args for y in inside(a)]
    if t.op in ('slice', 'tuple', 'list'):
        return [y for a in t.args for y in inside(a)
                if isinstance(a, T)]
    return [t]


def lags(ctx, p):
    n = 0
    for f in users(p):
        if f.qual.endswith('CorrStats.__setitem__'):
            continue
        name = short(f.qual)

        def on_bin(i, st, op, a, b, node, f=f):
            nonlocal n
            if op in ('Add', 'Sub'):
                t = mk('bin', op, i.deep(st, a), i.deep(st, b))
                if interesting(t) and size(t) < 400:
                    for x in combos(t):
                        d = clash(x)
                        n += 1
                        ctx.ob('units', name, not d, 'adds %s' % show(x)[
                            :160] if d else '', '%s:%d' % (
                                i.frames[-1].func.module.relpath,
                                node.lineno))
            return None

        def on_cmp(i, st, out):
            t = out.t
            if t.op == 'cmp' and t.args[0] in ('Lt', 'LtE', 'Gt', 'GtE') \
                    and interesting(t) and size(t) < 400:
                for x in combos(mk('bin', 'Sub', t.args[1], t.args[2])):
                    d = clash(x)
                    ctx.ob('units', name + ' comparison', not d,
                           'compares %s' % show(x)[:160] if d else '',
                           f.where())
            return None

        def index(i, st, base, key, where):
            t = i.deep(st, key)
            if fresh(i.deep(st, base)):
                return
            if root(i.deep(st, base)) == 'data':
                for x in inside(t):
                    for y in combos(x) if size(x) < 600 else ():
                        a = absolute(y)
                        if a:
                            ctx.ob('index', name, False, 'the index of lag '
                                   '%s does not depend on the first lag' % a,
                                   where)
            if not interesting(t):
                return
            for x in inside(t):
                if x.op == 'cmp' or not interesting(x) or size(x) > 600:
                    continue
                if x.op == 'un' and x.args[0] == 'neg' and any(
                        c.pol and c.t == mk('cmp', 'Lt', x.args[1],
                                            const(0))
                        for c in st.pc) and x.args[1].op == 'call':
                    # so many samples lie in front of the data
                    x = x.args[1]
                for y in combos(x):
                    if interesting(y) and y.op not in ('cmp',):
                        ctx.ob('index', name, coeff_ok(y), 'the index is '
                               '%s' % show(y)[:160], where)

        def on_item(i, st, base, key, out, node, f=f):
            fn = i.frames[-1].func
            if fn.qual != f.qual and not fn.qual.startswith(f.qual + '.'):
                # analysed on its own
                return None
            index(i, st, base, key, '%s:%d' % (fn.module.relpath, node.lineno))
            return None
        i = Interp(p, on_bin=on_bin, on_cmp=on_cmp, on_item=on_item,
                   budget=150000)
        st = State()
        sv = None
        if f.cls is not None and not f.is_static:
            sv = i.param(st, 'self', f.cls.qual, None)
        st, v = i.run(f, None, sv, st)
        ctx.saw(i)
        for e in i.events:
            if e.kind == 'call' and e.name and e.name.split('.')[-1] == \
                    'linspace' and e.argts and e.func.qual == f.qual and \
                    interesting(e.argts[0]):
                axis(ctx, name, e)
            if e.kind == 'setitem' and e.args and e.name is None and \
                    e.func.qual == f.qual:
                index(i, st, e.recv, e.args[0], e.where())
            if e.kind == 'call' and e.kwts.get('indices') is not None:
                chk_ix(ctx, name, e.kwts['indices'], e)
            if e.kind == 'call' and e.name and e.name.endswith(
                    'compare_with_modified_reference') and len(e.argts) > 2:
                chk_ix(ctx, name, e.argts[2], e)
        if st is not None and f.name == 'times':
            for x in alts(i.deep(st, v)):
                ctx.ob('axis', name, is_axis(x), 'the lag axis is %s' %
                       show(x)[:160], f.where())
    ctx.notes.append('%d sums of lags' % n)


def root(t):
    while t.op in ('item', 'attr', 'phi', 'call'):
        if t.op == 'call' and len(t.args) < 2:
            return None
        t = t.args[1] if t.op == 'call' else t.args[0]
    return t.args[0] if t.op == 'param' else None


def absolute(t):
    """Lag given by the caller that is counted from zero."""
    pl = P.poly(t, LOOSE)
    out = None
    for m in pl:
        d = {P._atoms[a]: k for a, k in m}
        if SL in d:
            return None
        ps = [a for a in d if a.op == 'param' and 'time' in a.args[0]]
        if len(d) == 2 and d.get(SR) == 1 and ps:
            out = ps[0].args[0]
    return out


def fresh(t):
    """An array that was allocated with its own length."""
    while t.op == 'item':
        t = t.args[0]
    n = ref(t).split('.')[-1]
    if n in ('concatenate', 'hstack', 'append') and len(t.args) > 1:
        parts = t.args[1].args if t.args[1].op in ('tuple', 'list') \
            else t.args[1:]
        return any(fresh(a) for a in parts) and all(
            fresh(a) or not any(x.op == 'param' for x in walk(head(a)))
            for a in parts)
    return t.op == 'phi' and all(fresh(a) for a in t.args) or \
        n in ('zeros', 'ones', 'empty', 'full', 'cosine_taper', 'hanning',
              'hamming')


def head(t):
    while t.op == 'item':
        t = t.args[0]
    return t


def chk_ix(ctx, name, t, e):
    for x in combos(t):
        if interesting(x):
            ctx.ob('index', name, coeff_ok(x), 'the indices are %s' %
                   show(x)[:160], e.where())


def size(t):
    return sum(1 for _ in walk(t))


def combos(t, limit=12, rounding=True):
    """Alternatives of a term with the choices below sums expanded."""
    if t.op == 'phi':
        return [y for a in t.args
                for y in combos(a, limit, rounding)][:limit]
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub', 'Mult', 'Div'):
        return [mk('bin', t.args[0], a, b)
                for a in combos(t.args[1], limit, rounding)
                for b in combos(t.args[2], limit, rounding)][:limit]
    if t.op == 'call' and rounding:
        # rounding and conversion keep the alternatives apart
        r = ref(t)
        if r in ROUND and len(t.args) >= 2:
            return combos(t.args[1])
        if t.args[0].op == 'attr' and t.args[0].args[1] in (
                'astype', 'copy', 'round'):
            return combos(t.args[0].args[0])
    return [t]


def count(t):
    """Number of elements of arange(n)."""
    return t.args[1] if ref(t) == 'numpy.arange' and len(t.args) == 2 \
        else None


def is_axis(t):
    """start_lag + k / sampling_rate for the samples k."""
    if ref(t) == 'numpy.linspace':
        return axis_args(t.args[1:])
    pl = P.poly(t, EXACT)
    k = [m for m in pl if any(ref(P._atoms[a]) == 'numpy.arange'
                              for a, _ in m)]
    if len(k) != 1 or pl[k[0]] != 1:
        return False
    at = [(P._atoms[a], q) for a, q in k[0]]
    ar = [a for a, _ in at if ref(a) == 'numpy.arange']
    n = count(ar[0])
    rest = {m: c for m, c in pl.items() if m != k[0]}
    return n is not None and P.poly(n, EXACT) == P.poly(NP) and dict(
        at) == {ar[0]: 1, SR: -1} and rest == P.poly(SL)


def axis_args(args):
    pos = [a for a in args if a.op != 'kw']
    kw = {a.args[0]: a.args[1] for a in args if a.op == 'kw'}
    n = pos[2] if len(pos) > 2 else kw.get('num')
    stop = pos[1] if len(pos) > 1 else kw.get('stop')
    if n is None or stop is None or kw.get('endpoint', const(
            True)) != const(True) or len(pos) > 3:
        return False
    return P.same(pos[0], mk('attr', NONE, 'start_lag'), EXACT) and P.same(
        stop, mk('attr', NONE, 'end_lag'), EXACT) and P.poly(
            n, EXACT) == P.poly(NP)


def axis(ctx, name, e):
    args = list(e.argts) + [mk('kw', k, v) for k, v in e.kwts.items()]
    n = args[2] if len(args) > 2 else e.kwts.get('num')
    if all(P.poly(a, EXACT) != P.poly(SL) for a in alts(args[0])) and (
            n is None or P.poly(n, EXACT) != P.poly(NP)):
        # a grid of another kind
        return
    ctx.ob('axis', name, axis_args(args), 'lag axis from %s' % [
        show(a)[:60] for a in args], e.where())


# ------------------------------------------------------------- new headers
def cuts(t):
    """First sample kept along the lag axis, over all alternatives."""
    out = []
    for a in alts(t):
        if a.op == 'item':
            k = a.args[1]
            if k.op == 'tuple' and len(k.args) == 2:
                k = k.args[1]
            if k.op == 'slice':
                out.append((k.args[0], a))
    return out


def trims(ctx, p):
    n = 0
    for f in p.all_funcs():
        if not f.module.name.startswith('seismic.monitor') or \
                not any(isinstance(x, ast.Constant) and x.value ==
                        'start_lag' or isinstance(x, ast.Attribute)
                        and x.attr == 'start_lag' and isinstance(
                            x.ctx, ast.Store) for x in ast.walk(f.node)):
            continue
        i = Interp(p, budget=100000)
        st = State()
        sv = None
        if f.cls is not None:
            sv = i.param(st, 'self', f.cls.qual, None)
        st, v = i.run(f, None, sv, st)
        if st is None:
            continue
        sets = [e for e in i.events if e.kind in ('setitem', 'setattr')
                and e.name == 'start_lag' and e.func.qual == f.qual]
        if not sets:
            continue
        ctx.saw(i)
        items = i.known_items(st, v)
        pool = [i.deep(st, x) for x in items] if items else [
            i.deep(st, v)]
        pool += [t for a in alts(i.deep(st, v)) if a.op == 'tuple'
                 for t in a.args]
        lo = {c for t in pool for c, _ in cuts(t)}
        for e in sets:
            new = [t for t in e.argts if t != const('start_lag')]
            for c in lo:
                n += 1
                want = mk('bin', 'Add', SL, mk('bin', 'Div', c, SR))
                fits = P.same(new[-1], want, EXACT) or (
                    new[-1].op == 'const' and P.same(
                        new[-1], want, LOOSE))
                ctx.ob('cut', short(f.qual), fits, 'samples from %s on are '
                       'kept, the first lag becomes %s' % (
                           show(c)[:80], show(new[-1])[:80]), e.where())
    return n


def produced(ctx, p):
    """Lags of newly computed correlations."""
    inner = p.func('Correlator._pxcorr_inner')
    mat = p.func('Correlator._pxcorr_matrix')
    i = Interp(p, no_inline=[mat.qual], budget=150000)
    st = State()
    sv = i.param(st, 'self', inner.cls.qual, None)
    i.run(inner, None, sv, st)
    ctx.saw(i)
    ct = p.cls('CorrTrace')
    ps = p.method(ct, '__init__').params[1:]
    done = 0
    for e in i.events:
        if e.kind == 'new' and (e.name or '').endswith('CorrTrace'):
            got = dict(zip(ps, e.argts))
            got.update(e.kwts)
            if 'start_lag' not in got or 'end_lag' not in got:
                continue
            done += 1

            def lf(t):
                if t.op == 'item' and t.args[1] == const('sampling_rate') or \
                        t.op == 'attr' and t.args[1] == 'sampling_rate':
                    return SR
                if ref(t) == 'len' or t.op == 'item' and \
                        t.args[0].op == 'attr' and \
                        t.args[0].args[1] == 'shape' or \
                        t.op == 'attr' and t.args[1] == 'size':
                    return NP
                return None
            want = mk('bin', 'Add', got['start_lag'], mk(
                'bin', 'Div', mk('bin', 'Sub', NP, const(1)), SR))
            ctx.ob('produce', short(inner.qual) + ' last lag', P.same(
                got['end_lag'], want, lf), 'the last lag is %s' % show(
                    got['end_lag'])[:120], e.where())
    if not done:
        raise AnalysisBroken('construction of correlations not found')
    i = Interp(p, budget=200000)
    st = State()
    sv = i.param(st, 'self', mat.cls.qual, None)
    st, v = i.run(mat, None, sv, st)
    ctx.saw(i)
    neg = None
    for e in i.events:
        if e.kind != 'setitem':
            continue
        for t in e.argts:
            for x in walk(t):
                s = window(x)
                if s is not None:
                    neg = (s, e)
    if neg is None:
        raise AnalysisBroken('cutting of the correlation not found')
    (a, b), e0 = neg
    s = mk('un', 'neg', a)
    ctx.ob('produce', short(mat.qual) + ' window', P.same(
        mk('bin', 'Add', s, const(1)), b, EXACT),
        'samples from %s to %s are kept' % (show(a)[:60], show(b)[:60]),
        e0.where())
    n = 0
    sl = None
    res = i.known_items(st, v) if st is not None else None
    if res and len(res) == 2:
        for e in i.events:
            if e.kind == 'setitem' and e.recv is not None and \
                    e.recv.locs & res[1].locs:
                sl = (e.argts[0], e)
    if sl is None:
        raise AnalysisBroken('first lag of the correlation not found')
    t, e = sl
    sm = P.poly(mk('bin', 'Div', mk('un', 'neg', strip(a)), SR), EXACT)
    for x in combos(t, rounding=False):
        pl = P.poly(x, EXACT)
        rest = P.add(pl, sm, -1)
        ok = all(c == -1 and not any(
            P._atoms[q] == strip(a) for q, _ in m)
            for m, c in rest.items() if m != () or c)
        n += 1
        ctx.ob('produce', short(mat.qual) + ' first lag', ok,
               'the first lag is %s' % show(x)[:160], e.where())


def strip(t):
    """s of the bound -s."""
    if t.op == 'un' and t.args[0] == 'neg':
        return t.args[1]
    return mk('un', 'neg', t)


def window(x):
    """(lower, upper) of concatenate((tmp[lower:], tmp[:upper]))"""
    if ref(x) not in ('numpy.concatenate', 'numpy.hstack', 'numpy.append'):
        return None
    ps = [a for a in x.args[1:] if a.op != 'kw']
    if ps and ps[0].op in ('tuple', 'list'):
        ps = list(ps[0].args)
    if len(ps) != 2 or not all(y.op == 'item' and y.args[1].op == 'slice'
                               for y in ps):
        return None
    l, r = ps[0].args[1].args, ps[1].args[1].args
    if l[1] is not NONE or r[0] not in (NONE, const(0)):
        return None
    return l[0], r[1]


def run(ctx):
    p = ctx.p
    ctx.rule('derive', 'assigning any entry of the lag or time axis '
             'recomputes delta, end_lag, starttime and endtime from the '
             'current entries')
    ctx.rule('units', 'sums and comparisons of lags have one dimension '
             '(seconds or samples)')
    ctx.rule('index', 'a sample index depends on the first lag as '
             '-start_lag * sampling_rate')
    ctx.rule('axis', 'lag axes run from start_lag over npts samples in '
             'steps of 1 / sampling_rate')
    ctx.rule('cut', 'when the first samples are cut off, the first lag '
             'moves by as many samples')
    ctx.rule('produce', 'first and last lag of a computed correlation fit '
             'its samples')
    header(ctx, p)
    lags(ctx, p)
    trims(ctx, p)
    produced(ctx, p)
    ctx.atleast('derive', 20)
    ctx.atleast('units', 2)
    ctx.atleast('axis', 1)
    ctx.atleast('produce', 2)
