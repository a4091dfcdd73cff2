"""C12: missing data stays missing (NaN dataflow)."""
import ast
from sa.interp import Interp, State
from sa.terms import T, mk, const, walk, show, alts
from sa.util import short
from sa.project import AnalysisBroken

ARGMAX = ('argmax', 'nanargmax')
MAXES = ('max', 'nanmax', 'amax')
AVERAGES = ('mean', 'median', 'average', 'nanmean', 'nanmedian', 'sum',
            'nansum', 'percentile')
PLAIN = ('mean', 'median', 'average', 'sum')
# averages over correlations or results that may be undefined
TABLE = [
    'monitor.monitor.average_components',
    'monitor.monitor.average_components_mem_save',
    'monitor.monitor.average_components_wfc',
    'monitor.monitor.correct_dv_shift',
    'monitor.wfc.WFC.compute_average',
    'monitor.dv.DV.smooth_sim_mat',
    'monitor.post_corr_process.corr_mat_resample',
    'monitor.post_corr_process.corr_mat_extract_trace',
    'monitor.post_corr_process.corr_mat_correct_decay',
    'monitor.post_corr_process.measure_shift',
    'monitor.stretch_mod.estimate_reftr_shifts_from_dt_corr',
    'monitor.spatial.align_dv_curves',
    'correlate.stream.stack_st',
    'correlate.preprocessing_td.demean',
    'utils.miic_utils.nan_moving_av',
]


def cname(t):
    """Last part of the name of a called function or method."""
    if t.op != 'call':
        return ''
    h = t.args[0]
    if h.op == 'ref':
        return str(h.args[0]).split('.')[-1]
    if h.op == 'attr':
        return str(h.args[1])
    return ''


def carg(t):
    """First argument, or the receiver of a method."""
    if t.args[0].op == 'attr':
        return t.args[0].args[0]
    ps = [a for a in t.args[1:] if a.op != 'kw']
    return ps[0] if ps else None


def strip(t):
    """Without conversions that keep the undefined entries."""
    while t.op == 'call' and cname(t) in ('squeeze', 'array', 'asarray',
                                          'copy', 'filled', 'atleast_1d'):
        t = carg(t)
    return t


def is_nan(t):
    return t.op in ('ref', 'attr') and show(t).split('.')[-1].lower() in (
        'nan',) or t == const(float('nan')) or show(t) == "float('nan')"


def run_one(p, f):
    i = Interp(p, budget=120000)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    st, v = i.run(f, None, sv, st)
    return i, st, v, sv


# ----------------------------------------------------------------- argmax
def picks(t):
    """Values taken from an axis at the position of a maximum."""
    for x in walk(t):
        if x.op == 'item' and any(cname(y) in ARGMAX for y in [x.args[1]]):
            yield x


STORED = {}         # (array, place) -> what is written there


def undefined_of(t, s):
    """Is t the mask isnan(maximum of s) (or of the correlation)?"""
    for x in walk(t):
        if cname(x) != 'isnan':
            continue
        m = strip(carg(x))
        for a in [b for x in alts(m) for b in held(strip(x))]:
            if a.op == 'attr' and a.args[1] == 'corr':
                return True
            if a.op == 'call' and cname(a) in MAXES:
                arg = carg(a)
                if arg is not None and any(
                        c == d for c in alts(arg) for d in alts(s)):
                    return True
    return False


def place(k):
    """a[k] and a[k, :] are the same place."""
    if k.op == 'tuple' and len(k.args) > 1 and all(
            x.op == 'slice' and all(y == const(None) for y in x.args)
            for x in k.args[1:]):
        return k.args[0]
    return k


def held(a):
    if a.op == 'item':
        return [strip(t) for t in STORED.get(
            (a.args[0], place(a.args[1])), ())] or [a]
    return [a]


def stored(i):
    STORED.clear()
    for e in i.events:
        if e.kind == 'setitem' and e.recv is not None and \
                len(e.argts) > 1:
            # arrays made alike have the same term
            STORED.setdefault((e.recv.t, place(e.argts[1])), []).append(
                e.argts[0])


def negated(t):
    return t.op in ('inv',) or t.op == 'un' and t.args[0] in (
        'inv', 'Invert') or cname(t) in ('logical_not', 'isfinite')


def source(u):
    """Similarity a pick is the maximum of, before NaN is replaced."""
    s = carg(u.args[1])
    while s.op == 'call' and cname(s) == 'nan_to_num':
        s = carg(s)
    return s


def guarded(t, u):
    """All occurrences of u in t lie under where(isnan(...), nan, ...)."""
    if t == u:
        return False
    if t.op == 'call' and cname(t) == 'where' and len(t.args) == 4:
        c, a, b = t.args[1:4]
        if negated(c):
            a, b = b, a
        if is_nan(a) and undefined_of(c, source(u)):
            return True
    if t.op == 'call' and cname(t) in ARGMAX + MAXES + ('isnan',):
        return True
    return all(guarded(a, u) for a in t.args if isinstance(a, T))


def argmaxes(ctx, p):
    for f in p.all_funcs():
        if not f.module.name.startswith('seismic.monitor'):
            continue
        if not any(isinstance(n, (ast.Attribute, ast.Name)) and
                   (n.attr if isinstance(n, ast.Attribute) else n.id)
                   in ARGMAX for n in ast.walk(f.node)):
            continue
        i, st, v, sv = run_one(p, f)
        ctx.saw(i)
        stored(i)
        us = {}
        for e in i.events:
            if e.kind == 'return' and e.func.qual != f.qual:
                continue
            for t in e.argts:
                for u in picks(t):
                    us.setdefault(u, e)
        if st is not None:
            for u in picks(i.deep(st, v)):
                us.setdefault(u, None)
        for u in us:
            if any(u != w and u in set(walk(w)) for w in us):
                pass
            s = source(u)
            stores = [e for e in i.events if e.kind in (
                'setitem', 'setattr', 'new', 'return') and any(
                    u in set(walk(t)) and not guarded(t, u)
                    for t in e.argts)]
            masks = [e for e in i.events if e.kind == 'setitem' and any(
                is_nan(t) for t in e.argts) and any(
                    undefined_of(t, s) for t in e.argts)]
            ok = False
            bare = False
            for e in masks:
                if e.recv is not None and u in set(walk(e.recv.t)):
                    ok = own(e, us[u])
                for q in stores:
                    if q.kind == 'setitem' and q.recv is not None and \
                            e.recv is not None and \
                            q.recv.t == e.recv.t and own(e, q) and \
                            i.events.index(q) < i.events.index(e):
                        ok = True
            if not ok:
                bare = bool(stores)
                if st is not None and not bare:
                    bare = not guarded(i.deep(st, v), u)
            e = (stores or [us[u]])[0]
            ctx.ob('argmax', '%s %s' % (short(f.qual), axisname(u)),
                   ok or not bare, 'a value at the position of the maximum '
                   'is kept where the similarity is undefined (%s)' % show(
                       u)[:100], e.where() if e else f.where())


def axisname(u):
    t = u.args[0]
    while t.op in ('item', 'phi'):
        t = t.args[-1]
    return str(t.args[-1])[:30] if t.op in ('param', 'attr') else t.op


def own(e, q):
    """Is e executed whenever q is?"""
    have = {(c.t, c.pol) for c in q.pc} if q is not None else None
    return have is None or all((c.t, c.pol) in have for c in e.pc)


# ---------------------------------------------------------------- averages
def rowwise(t):
    """Reduction along the second axis only."""
    for a in t.args[1:]:
        if a.op == 'kw' and a.args[0] == 'axis':
            return a.args[1] in (const(1), const(-1))
    ps = [a for a in t.args[1:] if a.op != 'kw']
    k = 0 if t.args[0].op == 'attr' else 1
    return len(ps) > k and ps[k] in (const(1), const(-1))


def has_call(t, names):
    return any(cname(x) in names for x in walk(t))


def safe_arg(a):
    """Undefined entries are masked, counted or already excluded."""
    if zeroed(a) and not has_call(a, ('pinv', 'solve', 'lstsq')):
        return False
    if has_call(a, ('masked_array', 'masked_invalid', 'masked_where',
                    'filled')) or any(x.op == 'ref' and 'masked_array' in
                                      str(x.args[0]) for x in walk(a)):
        return True
    if has_call(a, ('pinv', 'solve', 'lstsq', 'inv')):
        # unknowns of a linear system, one per reference
        return True
    if a.op == 'listof' or a.op == 'list':
        return all(safe_arg(x) for x in a.args if isinstance(x, T))
    if a.op == 'phi':
        return all(safe_arg(x) for x in a.args)
    if a.op == 'item':
        # entries selected by a comparison of measured values
        k = a.args[1]
        return has_call(k, ('isnan', 'isfinite', 'percentile',
                            'nanpercentile', 'quantile', 'nanquantile'))
    return False


def has_data(a):
    """Does the averaged term come from data (not a count or a mask)?"""
    while a.op == 'item':
        a = a.args[0]
    if cname(a) in ('isnan', 'isfinite') or negated(a) or any(
            x.op == 'attr' and x.args[1] in ('avail', 'timestamp')
            for x in walk(a)):
        return False
    if a.op in ('cmp', 'const', 'bool'):
        return False
    return any(x.op in ('param', 'sym', 'heap', 'loc', 'elem')
               or x.op == 'attr' for x in walk(a))


def upright(x):
    """The first axis of the array counts the traces."""
    if x.op == 'bin':
        parts = [upright(y) for y in x.args[1:] if any(
            z == mk('param', 'data') for z in walk(y)) and
            cname(y) != 'tile']
        return bool(parts) and all(parts)
    return any(y == mk('param', 'data') for y in walk(x)) and not any(
        y.op == 'attr' and y.args[1] == 'T' or
        cname(y) in ('transpose', 'swapaxes', 'moveaxis')
        for y in walk(x))


def one_row(a):
    """Is it made of single rows of the matrix only?"""
    if a.op == 'elem':
        return upright(a.args[0])
    if a.op in ('bin', 'un', 'inv') or cname(a) in ('abs', 'square'):
        rows = [x for x in a.args[1:] if isinstance(x, T) and
                x.op != 'const']
        return bool(rows) and all(one_row(x) for x in rows)
    return False


def averages(ctx, p):
    n = 0
    for q in TABLE:
        f = p.func(q, required=False)
        if f is None:
            ctx.notes.append('not found: ' + q)
            continue
        i, st, v, sv = run_one(p, f)
        ctx.saw(i)
        seen = {}
        for e in i.events:
            if e.kind != 'call' or e.func.module.name.startswith(
                    'seismic.plot'):
                continue
            nm = (e.name or '').split('.')[-1]
            if nm == 'filled' and e.argts:
                seen.setdefault(('fill', nm), []).append(
                    (e, is_nan(e.argts[0])))
                continue
            if nm not in AVERAGES or e.func.qual != f.qual and \
                    'corr_mat_normalize' in e.func.qual:
                continue
            meth = not (e.name or '').startswith('numpy')
            if meth and e.recv is not None and e.name.startswith('.'):
                a = i_deep(e, e.recv.t)
                rest = list(e.argts)
            elif e.argts:
                a = e.argts[0]
                rest = list(e.argts[1:])
            else:
                continue
            ax = e.kwts.get('axis') or (rest[0] if rest else None)
            if ax in (const(1),) and nm not in ('nanmean',):
                continue
            if not has_data(a) or ax is None and one_row(a):
                continue
            n += 1
            key = ('mean', nm)
            if nm.startswith('nan'):
                ok = nm == 'nansum' or not zeroed(a)
                seen.setdefault(key, []).append((e, ok))
            elif nm in PLAIN and (nm != 'sum' or not zeroed(a)):
                seen.setdefault(key, []).append(
                    (e, safe_arg(a)))
        for (k, nm), es in seen.items():
            bad = [e for e, ok in es if not ok]
            if k == 'fill':
                ctx.ob('average', '%s fill' % short(f.qual), not bad,
                       'undefined averages are filled with a value',
                       bad[0].where() if bad else f.where())
                continue
            ctx.ob('average', '%s %s' % (short(f.qual), nm), not bad,
                   '%s over entries that may be undefined: %s' % (
                       nm, show((bad[0].argts or [bad[0].recv.t])[0])[:100])
                   if bad else '', bad[0].where() if bad else f.where())
        counts(ctx, f, i)
    if n < 5:
        raise AnalysisBroken('averages not found')


def i_deep(e, t):
    return t


def zeroed(a):
    """Undefined entries have been replaced by zero."""
    return has_call(a, ('nan_to_num',))


def counts(ctx, f, i):
    """Sums over zeroed entries are divided by the number of others."""
    acc = [e for e in i.events if e.kind in ('setname', 'setattr', 'setitem',
                                             'mutate') and any(
        t.op == 'bin' and t.args[0] == 'Add' and zeroed(t.args[2])
        for t in e.argts)]
    acc += [e for e in i.events if e.kind == 'mutate' and e.name == 'aug'
            and any(zeroed(t) for t in e.argts)]
    am = [t for e in i.events if e.kind == 'call' and
          (e.name or '').split('.')[-1] in ARGMAX
          for t in e.argts + ([e.recv.t] if e.recv is not None else [])]
    loop = [e for e in i.events if e.kind == 'call' and e.loops and
            (e.name or '').endswith('nan_to_num') and not any(
                zeroed(t) and carg(x) == e.argts[0] for t in am
                for x in walk(t) if cname(x) == 'nan_to_num')]
    if not acc and not loop:
        return
    masks = [e for e in i.events if e.kind == 'setitem' and e.loops and any(
        negated(x) and has_call(x, ('isnan',)) or cname(x) == 'isfinite'
        for t in e.argts[-1:] for x in walk(t))]
    masks += [e for e in i.events if e.kind in ('setname', 'mutate') and any(
        t.op == 'bin' and t.args[0] == 'Add' and has_call(
            t.args[2], ('isnan', 'isfinite')) for t in e.argts)]
    masks += [e for e in i.events if e.kind in ('aug', 'mutate') and e.loops
              and isinstance(e.node, ast.AugAssign)
              and isinstance(e.node.op, ast.Add) and any(
                  x.op in ('inv', 'not', 'un', 'call') and (
                      negated(x) and has_call(x, ('isnan',))
                      or cname(x) == 'isfinite')
                  for t in e.argts for x in walk(t))]
    ctx.ob('count', short(f.qual), bool(masks), 'the divisor does not '
           'count the defined entries only', (acc or loop)[0].where())


# -------------------------------------------------------------------- gaps
def gaps(ctx, p):
    inner = p.func('Correlator._pxcorr_inner')
    i = Interp(p, budget=200000)
    st = State()
    sv = i.param(st, 'self', inner.cls.qual, None)
    i.run(inner, None, sv, st)
    ctx.saw(i)
    zero = spec = mask = None
    for n, e in enumerate(i.events):
        if e.kind == 'call':
            nm = (e.name or '').split('.')[-1]
            if nm == 'nan_to_num' and zero is None and not e.loops:
                cp = e.kwts.get('copy') or (
                    e.argts[1] if len(e.argts) > 1 else None)
                if cp is not None and cp.op == 'const' and \
                        not cp.args[0] or used(i, n, e):
                    zero = (n, e)
            if spec is None and (nm in ('rfft', 'fft', 'rfftn') or
                                 dynamic(e)):
                spec = (n, e)
            if nm in ('getmaskarray', 'getmask', 'filled') or \
                    nm == 'is_masked':
                mask = mask or e
        for t in e.argts:
            if t.op == 'attr' and t.args[1] == 'mask':
                mask = mask or e
    if spec is None:
        raise AnalysisBroken('spectral processing not found')
    ok = zero is not None and zero[0] < spec[0] and not [
        c for c in zero[1].pc if (c.t, c.pol) not in {
            (d.t, d.pol) for d in spec[1].pc}]
    ctx.ob('gap', short(inner.qual), ok, 'undefined samples are not set to '
           'zero before %s' % spec[1].name, spec[1].where())
    ctx.ob('gap', short(inner.qual) + ' mask', mask is not None,
           'samples below a mask are used', inner.where())


def used(i, n, e):
    """nan_to_num with its result used afterwards."""
    return any('nan_to_num' in show(t) for q in i.events[n + 1:n + 40]
               if q.kind in ('call', 'setname', 'setitem')
               for t in q.argts)


def dynamic(e):
    """Call of a configured function on the matrix."""
    return e.name in (None, '?', '()') or 'func_from_str' in (e.name or '') \
        and False


# ------------------------------------------------------------ empty windows
def windows(ctx, p):
    f = p.func('monitor.post_corr_process.corr_mat_resample',
               required=False)
    if f is None:
        return
    i, st, v, sv = run_one(p, f)
    ctx.saw(i)
    stores = [e for e in i.events if e.kind == 'setitem' and e.loops
              and e.recv is not None and e.recv.locs and e.pc and any(
                  c.t.op != 'iter' for c in e.pc)]
    done = set()
    for e in stores:
        base = e.recv.t
        nm = cname(base)
        if base in done or nm not in ('empty', 'zeros', 'ones', 'full',
                                      'empty_like', 'zeros_like',
                                      'full_like'):
            continue
        done.add(base)
        ok = nm in ('full', 'full_like') and any(
            is_nan(a) or a.op == 'kw' and is_nan(a.args[1])
            for a in base.args[1:])
        for q in i.events:
            if q.kind == 'call' and q.name == '.fill' and q.recv is not \
                    None and q.recv.t == base and is_nan(q.argts[0]) \
                    and not q.loops:
                ok = True
            if q.kind == 'setitem' and q.recv is not None and \
                    q.recv.t == base and is_nan(q.argts[0]) and \
                    not q.loops:
                ok = True
            if nm != 'full' and q.kind in ('setname', 'return') and any(
                    t.op == 'bin' and t.args[0] == 'Mult' and
                    base in t.args and any(
                        is_nan(x) for x in t.args[1:]) for t in q.argts):
                ok = True
        ctx.ob('window', short(f.qual), ok, 'windows without correlations '
               'are not undefined', e.where())


# ------------------------------------------------------ what is reported
RESULT = ('corr', 'value', 'corrs', 'stretches', 'mean')
SHELL = ('squeeze', 'array', 'asarray', 'stack', 'hstack', 'vstack',
         'column_stack', 'concatenate', 'reshape', 'ravel', 'flatten',
         'astype', 'abs', 'copy', 'atleast_1d', 'atleast_2d', 'round',
         'around', 'clip', 'float')


def replaced(t):
    """Undefined entries of the term itself are replaced by numbers."""
    n = cname(t)
    if n == 'nan_to_num':
        return True
    if n == 'filled':
        a = [x for x in t.args[1:] if x.op != 'kw'] + [
            x.args[1] for x in t.args[1:] if x.op == 'kw']
        return bool(a) and a[0].op == 'const' and \
            a[0] != const(float('nan'))
    if n == 'where' and len(t.args) == 4:
        c, a, b = t.args[1:4]
        if negated(c):
            a, b = b, a
        if has_call(c, ('isnan', 'isfinite')) and a.op == 'const':
            return not is_nan(a)
        return replaced(a) or replaced(b)
    if t.op == 'item':
        return replaced(t.args[0])
    if t.op == 'attr' and t.args[1] != 'T':
        return False
    if t.op == 'call':
        return n in SHELL and (t.args[0].op == 'attr' and replaced(
            t.args[0].args[0]) or any(replaced(a) for a in t.args[1:]))
    return t.op in ('phi', 'ifexp', 'bin', 'un', 'elem', 'listof', 'list',
                    'tuple', 'attr', 'inv') and any(
        replaced(a) for a in t.args if isinstance(a, T))


def reported(ctx, p):
    for q in TABLE + [
            'monitor.stretch_mod.velocity_change_estimate',
            'monitor.stretch_mod.time_stretch_estimate',
            'monitor.stretch_mod.time_shift_estimate',
            'monitor.stretch_mod.compute_wfc']:
        f = p.func(q, required=False)
        if f is None:
            continue
        i, st, v, sv = run_one(p, f)
        vals = []
        for e in i.events:
            if e.kind in ('setattr', 'setitem') and e.name in RESULT and \
                    e.argts:
                vals.append((e.name, e.argts[0], e))
            elif e.kind in ('display', 'new', 'call') and e.kwts:
                if e.kind == 'call' and str(e.name).split('.')[-1] not in (
                        'update', 'dict'):
                    continue
                vals += [(k, t, e) for k, t in e.kwts.items()
                         if k in RESULT]
        bad = [(k, e) for k, t, e in vals if any(
            replaced(a) for a in alts(t))]
        if vals:
            ctx.ob('report', short(f.qual), not bad, bad and
                   '%s is reported with undefined entries replaced by '
                   'numbers' % bad[0][0],
                   bad[0][1].where() if bad else f.where())


def run(ctx):
    p = ctx.p
    ctx.rule('report', 'undefined similarities and values are not replaced '
             'by numbers before they are reported')
    ctx.rule('argmax', 'a value taken at the position of a maximum is '
             'undefined where the maximum is')
    ctx.rule('average', 'averages over correlations or results ignore '
             'undefined entries and are undefined without defined ones')
    ctx.rule('count', 'a sum over entries with undefined ones set to zero '
             'is divided by the number of defined ones')
    ctx.rule('gap', 'undefined and masked samples are set to zero before '
             'any spectral processing')
    ctx.rule('window', 'time windows without correlations are undefined')
    argmaxes(ctx, p)
    averages(ctx, p)
    reported(ctx, p)
    gaps(ctx, p)
    windows(ctx, p)
    ctx.atleast('argmax', 3)
    ctx.atleast('average', 5)
