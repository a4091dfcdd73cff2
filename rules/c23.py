"""C23: the spatial inversion uses only usable data, in matching order.

The conditions under which a measurement enters the inversion are extracted
and evaluated for every relation of time, value and coherence; the parts of a
measurement are traced by their role from the extraction to the kernels, the
data variance and the solution, whose matrix product is compared in a
non-commutative normal form; cached parts are compared with their keys.
"""
import ast
import itertools
import math
from sa.interp import Interp, State
from sa.terms import walk, show
from sa import model as MD
from sa import poly as PO
from rules.c04 import opt, quals, is_call

S = 'monitor.spatial.'
G = S + 'DVGrid.'
EXTRACT = G + '_extract_info_dvs'
KERN = G + '_compute_sensitivity_kernels'
CD = G + '_compute_cd'
DIST = G + '_compute_dist_matrix'
OUT = (EXTRACT, KERN, CD, DIST, S + 'compute_cm', S + 'sensitivity_kernel',
       S + 'probability', S + 'geo2cart', S + 'compute_grid_dist',
       S + 'data_variance')
NAN = float('nan')
UTCS = (-1, -.1, 0, 5, 10, 10.1, 11)
VALS = (NAN, .1)
CORRS = (NAN, -.5, 0, .0005, .001, .002, .01, .5, .999, 1, 1.2)


# the times of a series of five measurements
SERIES = {'corr_start': [0, 2, 4, 6, 8], 'corr_end': [2, 4, 6, 8, 10]}


def usable(u, v, c):
    return 0 <= u <= 10 and not math.isnan(v) and not math.isnan(c) \
        and 1e-3 < c < 1


def method(ctx, q, no=OUT, args=None, **kw):
    p = ctx.p
    f = opt(p, q)
    if f is None:
        return None, None
    i = Interp(p, budget=150000, no_inline=[x for x in quals(p, *no)
                                            if x != f.qual], **kw)
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None) if f.cls else None
    i.run(f, args or {}, sv, st)
    ctx.saw(i)
    return f, i


# ------------------------------------------------------- usable or not
def meas_leaf(utc, u, v, c):
    """Leaf for one measurement of one velocity change."""
    def leaf(t):
        if t.op == 'param' and t.args[0] == utc:
            return u
        if t.op == 'item' and t.args[0].op == 'attr':
            n, k = t.args[0].args[1], t.args[1]
            if n in SERIES and k.op == 'const' and \
                    isinstance(k.args[0], int) and -5 <= k.args[0] < 5:
                return SERIES[n][k.args[0]]
            if n == 'value':
                return v
            if n == 'corr':
                return c
        if t.op == 'call':
            n = MD.cname(t)
            pos = [x for x in t.args[1:] if x.op != 'kw']
            if n == 'isnan' and len(pos) == 1:
                return math.isnan(MD.ev(pos[0], leaf))
            if n == 'isfinite' and len(pos) == 1:
                return math.isfinite(MD.ev(pos[0], leaf))
            if n in ('all', 'any') and len(pos) == 1 and pos[0].op in (
                    'list', 'tuple'):
                vs = [bool(MD.ev(x, leaf)) for x in pos[0].args]
                return all(vs) if n == 'all' else any(vs)
            if n in ('min', 'max') and len(pos) == 1 and \
                    pos[0].op == 'attr':
                if (n, pos[0].args[1]) == ('min', 'corr_start'):
                    return 0
                if (n, pos[0].args[1]) == ('max', 'corr_end'):
                    return 10
        if t.op == 'cmp' and t.args[0] in ('Lt', 'LtE') and False:
            return None
        return None
    return leaf


def with_flags(leaf, flags):
    def both(t):
        if t.op == 'param' and t.args[0] in flags:
            return flags[t.args[0]]
        return leaf(t)
    return both


def holds(pc, leaf):
    out = True
    for c in pc:
        if c.kind in ('for', 'exc') or c.t.op == 'iter':
            continue
        try:
            v = bool(MD.ev(c.t, leaf))
        except (MD.Undecided, TypeError, ValueError):
            out = None
            continue
        if v != c.pol:
            return False
    return out


def cases():
    return [(u, v, c) for u in UTCS for v in VALS for c in CORRS]


def say(k):
    u, v, c = k
    return 'time %s, value %s and coherence %s' % (
        'before the series' if u < 0 else 'after the series' if u > 10
        else 'in the series', v, c)


def role(t):
    """What a term appended for one measurement is."""
    if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] in (
            'value', 'corr'):
        return t.args[0].args[1]
    if t.op == 'item' and t.args[1].op == 'const' and t.args[1].args[0] in (
            'stla', 'stlo', 'evla', 'evlo'):
        return t.args[1].args[0]
    if t.op == 'attr' and t.args[1] in ('stla', 'stlo', 'evla', 'evlo'):
        return t.args[1]
    return None


def collected(ctx):
    """Which measurements are collected; returns the roles of the result."""
    f, i = method(ctx, EXTRACT)
    if f is None or len(f.params) < 3:
        return None
    utc = f.params[2]
    evs = [(e, t) for e in i.events if e.kind == 'call' and
           e.name == '.append' and e.argts for t in (
               e.argts[-1].args if e.argts[-1].op in ('tuple', 'list')
               else e.argts[-1:]) if role(t)]
    idx = {}
    seen = set()
    for e, t in evs:
        r = role(t)
        seen.add(r)
        bad, und = [], False
        flags = sorted({x.args[0] for c in e.pc for x in walk(c.t)
                        if x.op == 'param' and x.args[0] in f.params[3:]})
        for k, *fl in itertools.product(cases(), *[(True, False)
                                                   for _ in flags]):
            h = holds(e.pc, with_flags(meas_leaf(utc, *k), dict(
                zip(flags, fl))))
            if h is None:
                und = True
                break
            if h != usable(*k):
                bad.append((k, h))
        if und:
            continue
        ctx.ob('usable', '%s of a measurement' % r, not bad,
               'the %s of a measurement with %s is %s' % (
                   r, say(bad[0][0]), 'taken' if bad[0][1] else 'left out')
               if bad else '', e.where())
        if t.op == 'item' and r in ('value', 'corr'):
            idx[r] = (t.args[1], e)
    asis(ctx, i)
    if len(idx) == 2:
        (a, e), (b, _) = idx['value'], idx['corr']
        ctx.ob('order', 'value and coherence of one time', a == b,
               'the coherence is taken at %s, the value at %s' % (
                   show(b)[:80], show(a)[:80]), e.where())
        names = {MD.cname(x) for x in walk(a) if x.op == 'call'}
        near = [x for x in walk(a) if x.op == 'attr' and x.args[1] in (
            'corr_start', 'corr_end')]
        if 'argmin' in names or 'argmax' in names:
            ctx.ob('order', 'the measurement closest to the time',
                   'argmin' in names and 'abs' in names and bool(near)
                   and any(x.op == 'param' and x.args[0] == utc
                           for x in walk(a)),
                   'the measurement is not the closest in time: %s' % show(
                       a)[:100], e.where())
    # roles of the returned tuple
    ret = [e for e in i.events if e.kind == 'return' and e.func is f]
    if len(ret) != 1 or not ret[0].argts or ret[0].argts[0].op != 'tuple':
        return None
    out = []
    for x in ret[0].argts[0].args:
        rs = {role(y) for y in walk(x) if y.op in ('item', 'attr')} - {None}
        ks = {y.args[1].args[0] for y in walk(x) if y.op == 'item'
              and y.args[1].op == 'const'} & {
                  'tw_start', 'tw_len', 'freq_min', 'freq_max'}
        if len(rs) == 1 and not ks:
            out.append(rs.pop())
        elif ks == {'tw_start', 'tw_len'}:
            out.append('tw')
            window(ctx, x, ret[0])
        elif len(ks) == 1 and not rs:
            out.append(ks.pop())
        else:
            out.append(None)
    # any transformation of one list that changes its order
    for n, x in enumerate(ret[0].argts[0].args):
        if out[n] in ('value', 'corr', 'stla', 'stlo', 'evla', 'evlo'):
            bad = [y for y in walk(x) if y.op == 'call' and MD.cname(y) in (
                'sorted', 'sort', 'unique', 'set', 'reversed', 'flip',
                'argsort', 'roll')]
            ctx.ob('order', '%s in the order of the measurements' % out[n],
                   not bad, '%s is reordered by %s' % (
                       out[n], MD.cname(bad[0]) if bad else ''),
                   ret[0].where())
    return out


def asis(ctx, i):
    """The measurements are collected as they are."""
    for e in i.events:
        if e.kind != 'call' or e.name != '.append' or not e.argts or role(
                e.argts[-1]) or e.argts[-1].op in ('tuple', 'list', 'dict'):
            continue
        t = e.argts[-1]
        rs = {role(x) for x in walk(t)} - {None}
        if len(rs) != 1:
            continue
        r = rs.pop()
        bad = False
        for mine, other, n in itertools.product(
                (.25, -.5), (.75, -.75, 0.), (0, 1, 2, 3, 40)):
            def leaf(x):
                if role(x):
                    return mine
                if x.op == 'call' and MD.cname(x) == 'len':
                    return n
                if x.op == 'item' and x.args[0].op in (
                        'listof', 'list', 'obj', 'sym', 'havoc') or x.op in (
                            'listof', 'sym', 'havoc'):
                    return other
                return None
            try:
                bad = bad or MD.ev(t, leaf) != mine
            except (MD.Undecided, TypeError):
                pass
        ctx.ob('order', '%s as it was measured' % r, not bad, 'not the %s '
               'of the measurement but %s is used' % (r, show(t)[:80]),
               e.where())


def window(ctx, t, e):
    def leaf(x):
        if x.op == 'item' and x.args[1].op == 'const':
            return {'tw_start': 2, 'tw_len': 5}.get(x.args[1].args[0])
        return None
    for x in walk(t):
        if x.op == 'tuple' and len(x.args) == 2:
            try:
                v = [MD.ev(y, leaf) for y in x.args]
            except (MD.Undecided, TypeError):
                continue
            ctx.ob('order', 'lapse time window of the measurements',
                   v == [2, 7], 'a window that starts at 2 s and is 5 s '
                   'long is used as %s' % v, e.where())


# ------------------------------------------------- roles at the call sites
def bound(ctx, e, q):
    f = opt(ctx.p, q)
    if f is None:
        return {}
    out = dict(zip(f.params, e.argts))
    out.update(e.kwts or {})
    return out


def part(t, roles):
    """Role of an item of what _extract_info_dvs returned."""
    while t.op == 'call' and MD.cname(t) in ('array', 'asarray', 'copy') \
            and len(t.args) > 1:
        t = t.args[1]
    if t.op == 'item' and is_call(t.args[0], '_extract_info_dvs') and \
            t.args[1].op == 'const':
        k = t.args[1].args[0]
        if isinstance(k, int) and -len(roles) <= k < len(roles):
            return roles[k]
    if t.op == 'phi':
        # given or extracted
        rs = {part(x, roles) for x in t.args} - {None}
        return rs.pop() if len(rs) == 1 else None
    return None


def either(t, roles):
    """Roles anywhere in `argument or extracted`."""
    return {part(x, roles) for x in walk(t) if x.op == 'item'} - {None}


USERS = ('compute_dv_grid', 'compute_dv_tsvd', 'compute_resolution',
         'compute_posterior_covariance', 'forward_model')


def sites(ctx, roles):
    for m in USERS:
        f, i = method(ctx, G + m)
        if f is None:
            continue
        for e in i.events:
            if e.kind != 'call':
                continue
            n = str(e.name).split('.')[-1]
            if n == '_compute_sensitivity_kernels':
                b = bound(ctx, e, KERN)
                g = opt(ctx.p, KERN)
                ps = g.params[1:5]
                r = [part(b[x], roles) if x in b else None for x in ps]
                if None not in r:
                    ctx.ob('order', '%s: stations of the kernels' % m, r in (
                        ['stla', 'stlo', 'evla', 'evlo'],
                        ['evla', 'evlo', 'stla', 'stlo']),
                        'the kernels are computed between %s' % ', '.join(
                            r), e.where())
                if len(g.params) > 5 and g.params[5] in b:
                    centre(ctx, m, b[g.params[5]], e)
            if n == '_compute_cd':
                b = bound(ctx, e, CD)
                g = opt(ctx.p, CD)
                for nm, want in (('corrs', 'corr'), ('freq0', 'freq_min'),
                                 ('freq1', 'freq_max'), ('tw', 'tw')):
                    if nm in b:
                        r = either(b[nm], roles)
                        if r:
                            ctx.ob('order', '%s: %s of the data variance' % (
                                m, nm), r == {want},
                                '%s is %s' % (nm, '/'.join(r)), e.where())
                        elif b[nm].op == 'param' and want != 'corr':
                            ctx.ob('order', '%s: %s of the data variance' % (
                                m, nm), False, '%s is not taken from the '
                                'measurements if it is not given' % nm,
                                e.where())
            if n in ('_compute_cd', '_compute_sensitivity_kernels') and \
                    m != 'forward_model':
                refused(ctx, m, e, n, roles)
        normal(ctx, m, f, i, roles)


def centre(ctx, m, t, e):
    def leaf(x):
        if x.op == 'item' and x.args[1].op == 'const' and \
                x.args[0].op in ('bool', 'param', 'union', 'phi', 'item',
                                 'ifexp'):
            return {0: 3, 1: 7, -1: 7}.get(x.args[1].args[0])
        return None
    try:
        v = MD.ev(t, leaf)
    except (MD.Undecided, TypeError):
        return
    ctx.ob('order', '%s: lapse time of the kernels' % m, v == 5,
           'the kernels of the window from 3 to 7 s are computed for %s s'
           % v, e.where())


def refused(ctx, m, e, n, roles):
    """With tw (freq0, freq1) missing, nothing is computed."""
    g = opt(ctx.p, CD if n == '_compute_cd' else KERN)
    b = bound(ctx, e, CD if n == '_compute_cd' else KERN)
    need = {}
    for k, t in b.items():
        r = either(t, roles) & {'tw', 'freq_min', 'freq_max'}
        for x in walk(t):
            rr = either(x, roles) if x.op in ('bool', 'ifexp') else set()
            if len(rr) == 1 and rr <= r:
                need.setdefault(rr.copy().pop(), x)
    del g
    for r, t in need.items():
        ok = any(excludes(c, t) for c in e.pc)
        ctx.ob('refused', '%s: %s before %s' % (m, r, n.strip('_')), ok,
               'nothing refuses a missing %s before %s is called' % (r, n),
               e.where())


def excludes(c, t):
    """The condition rules out that t is None."""
    def leaf(x):
        if x == t:
            return NONE
        if x.op == 'const' and x.args[0] is None:
            return NONE
        if x.op == 'cmp' and x.args[0] in ('In', 'NotIn'):
            a, b = x.args[1], x.args[2]
            if b.op in ('list', 'tuple', 'set') and \
                    a.op == 'const' and a.args[0] is None:
                if any(y == t for y in b.args):
                    return x.args[0] == 'In'
        if x.op == 'call' and MD.cname(x) in ('any', 'all') and \
                len(x.args) > 1 and x.args[1].op in ('list', 'tuple'):
            if MD.cname(x) == 'any' and any(
                    iszero(y, leaf) for y in x.args[1].args):
                return True
            if MD.cname(x) == 'all' and any(
                    iszero(y, leaf, False) for y in x.args[1].args):
                return False
        return None
    try:
        return bool(MD.ev(c.t, leaf)) != c.pol
    except (MD.Undecided, TypeError, AttributeError):
        return False


class _None:
    def __bool__(self):
        return False


NONE = _None()


def iszero(y, leaf, want=True):
    try:
        return bool(MD.ev(y, leaf)) == want
    except (MD.Undecided, TypeError):
        return False


# ------------------------------------------- the matrix product, normal form
def nf(t, roles):
    """Factors of a matrix product; Undecided if anything is unknown."""
    if is_call(t, '_compute_sensitivity_kernels'):
        return ('G',)
    if is_call(t, 'compute_cm'):
        return ('Cm',)
    if is_call(t, '_compute_cd'):
        return ('Cd',)
    r = part(t, roles)
    if r:
        return ({'value': 'd'}.get(r, r),)
    if t.op == 'param':
        return ('<%s>' % t.args[0],)
    if t.op == 'attr' and t.args[1] == 'T':
        return trans(nf(t.args[0], roles))
    if t.op == 'bin' and t.args[0] == 'MatMult':
        return nf(t.args[1], roles) + nf(t.args[2], roles)
    if t.op == 'bin' and t.args[0] == 'Add':
        return (('+',) + tuple(sorted(
            summands(t, roles), key=repr)),)
    if t.op == 'call':
        n, h = MD.cname(t), t.args[0]
        pos = [x for x in t.args[1:] if x.op != 'kw']
        if n in ('dot', 'matmul') and h.op == 'ref' and len(pos) == 2:
            return nf(pos[0], roles) + nf(pos[1], roles)
        if n == 'dot' and h.op == 'attr' and len(pos) == 1:
            return nf(h.args[0], roles) + nf(pos[0], roles)
        if n == 'multi_dot' and pos and pos[0].op in ('list', 'tuple'):
            return sum((nf(x, roles) for x in pos[0].args), ())
        if n == 'transpose' and len(pos) <= 1:
            return trans(nf(pos[0] if pos else h.args[0], roles))
        if n in ('inv', 'pinv') and pos:
            return ((n, nf(pos[0], roles)),)
        if n == 'solve' and len(pos) == 2:
            return (('inv', nf(pos[0], roles)),) + nf(pos[1], roles)
        if n in ('array', 'asarray', 'squeeze', 'ravel', 'copy') and pos:
            return nf(pos[0], roles)
        if n in ('reshape', 'flatten', 'ravel', 'copy') and h.op == 'attr':
            return nf(h.args[0], roles)
        if n == 'reshape' and h.op == 'ref' and pos:
            return nf(pos[0], roles)
        if n == 'sum' and pos:
            ax = [x.args[-1] for x in t.args if hasattr(x, 'op')
                  and x.op == 'kw' and x.args[0] == 'axis']
            return (('sum', show(ax[0]) if ax else '', nf(pos[0], roles)),)
    raise MD.Undecided(t)


def summands(t, roles):
    if t.op == 'bin' and t.args[0] == 'Add':
        return summands(t.args[1], roles) + summands(t.args[2], roles)
    return [nf(t, roles)]


SYM = ('Cm', 'Cd')


def trans(fs):
    out = []
    for x in reversed(fs):
        if x in SYM:
            out.append(x)
        elif isinstance(x, str):
            out.append(x[:-1] if x.endswith("'") else x + "'")
        elif x[0] in ('inv', 'pinv'):
            out.append((x[0], trans(x[1])))
        elif x[0] == '+':
            out.append(('+',) + tuple(sorted(
                (trans(y) for y in x[1:]), key=repr)))
        else:
            raise MD.Undecided(x)
    return tuple(out)


GAIN = ('Cm', "G'", ('inv', (('+', ('Cd',), ('G', 'Cm', "G'")),)))
WANT = {
    'compute_dv_grid': ('vel_change', [GAIN + ('d',)]),
    'compute_dv_tsvd': ('vel_change', [(('pinv', ('G',)), 'd')]),
    'compute_resolution': ('resolution', [
        (('sum', a, GAIN + ('G',)),) for a in ('-1', '1')]),
    'compute_posterior_covariance': (None, [
        (('inv', (('+', ("G'", ('inv', ('Cd',)), 'G'),
                   (('inv', ('Cm',)),)),)),)]),
    'forward_model': (None, [('G', '<dv_grid>')]),
}


def canon(x):
    """Sums in a fixed order."""
    if isinstance(x, tuple):
        if x and x[0] == '+':
            return ('+',) + tuple(sorted((canon(y) for y in x[1:]),
                                         key=repr))
        return tuple(canon(y) for y in x)
    return x


def normal(ctx, m, f, i, roles):
    attr, want = WANT[m]
    want = [canon(w) for w in want]
    ts = []
    for e in i.events:
        if attr and e.kind == 'setattr' and e.name == attr and e.argts:
            ts.append((e.argts[0], e))
        if e.kind == 'return' and e.func is f and e.argts:
            ts.append((e.argts[0], e))
        if m == 'compute_dv_grid' and e.kind == 'setattr' and \
                e.name == 'resolution' and e.argts:
            judge(ctx, m + ' (resolution)', e.argts[0], e, roles, [
                canon(w) for w in WANT['compute_resolution'][1]])
    for t, e in ts:
        judge(ctx, m, t, e, roles, want)


def judge(ctx, m, t, e, roles, want):
    try:
        got = canon(nf(t, roles))
    except (MD.Undecided, TypeError, ValueError):
        return
    ctx.ob('solution', m, got in want, 'the product is %s, expected %s' % (
        got, want[0]), e.where())


# ---------------------------------------------------------------- caches
def inputs(t, stop):
    """Parameters, elements and own attributes a value depends on."""
    if t in stop:
        return
    if t.op in ('elem', 'index', 'key'):
        yield t
        return
    if t.op == 'param':
        if t.args[0] != 'self':
            yield t
        return
    if t.op == 'attr' and t.args[0].op == 'param' and \
            t.args[0].args[0] == 'self':
        yield t
        return
    for a in t.args:
        if hasattr(a, 'op'):
            yield from inputs(a, stop)


def keyparts(k):
    """Components that determine the key one to one."""
    if k.op in ('tuple', 'list', 'fstr'):
        out = []
        for x in k.args:
            if hasattr(x, 'op'):
                out += keyparts(x)
        return out
    if k.op == 'call' and MD.cname(k) in ('str', 'tuple', 'repr') and \
            len(k.args) == 2:
        return keyparts(k.args[1])
    return [k]


def assigned(cls):
    """Own attributes that are set outside of __init__."""
    out = {}
    for f in cls.methods.values():
        if f.name == '__init__':
            continue
        for n in ast.walk(f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and x.value.id == 'self' \
                            and isinstance(x.ctx, ast.Store):
                        out.setdefault(x.attr, '%s:%d' % (f.qual, n.lineno))
    return out


def caches(ctx):
    p = ctx.p
    f, i = method(ctx, KERN)
    if f is None:
        return
    muts = assigned(f.cls)
    sets = [e for e in i.events if e.kind == 'setitem' and e.recv is not None
            and len(e.argts) == 2 and e.recv.t.op == 'attr'
            and e.recv.t.args[0].op == 'param']
    for e in sets:
        store = e.recv.t
        val, key = e.argts
        parts = set(keyparts(key))
        # what is read back is not an input
        reads = {x for x in walk(val) if x.op == 'item'
                 and x.args[0] == store}
        miss, late = [], []
        for x in inputs(val, parts | reads):
            if x.op == 'attr':
                if x == store:
                    continue
                if x.args[1] in muts:
                    late.append(x)
            else:
                miss.append(x)
        ctx.ob('cache', 'key of a kernel', not miss,
               'a kernel depends on %s, which is not part of the key it is '
               'kept under' % (show(miss[0])[:80] if miss else ''),
               e.where())
        ctx.ob('cache', 'settings of a kernel', not late,
               'a kernel depends on %s, which changes after the grid was '
               'made' % (show(late[0]) if late else ''), e.where())
        # looked up under the same key
        for ev in i.events:
            ts = list(ev.argts or ()) + [c.t for c in ev.pc]
            for t in ts:
                for x in walk(t):
                    k = None
                    if x.op == 'item' and x.args[0] == store:
                        k = x.args[1]
                    if x.op == 'cmp' and x.args[0] in ('In', 'NotIn') and \
                            x.args[2] == store:
                        k = x.args[1]
                    if k is not None and k.op != 'slice':
                        ctx.ob('cache', 'kernel looked up', k == key,
                               'a kernel is kept under another key than it '
                               'is looked up with', ev.where())
    # pairs and kernels in one order: each round adds one kernel
    f, i = method(ctx, DIST)
    if f is not None:
        for e in i.events:
            if e.kind == 'setitem' and len(e.argts) == 2:
                bad = [x for x in inputs(e.argts[0], set())
                       if x.op == 'attr' and x.args[1] in muts
                       and x.args[1] != 'dist' or x.op == 'param']
                ctx.ob('cache', 'distance matrix', not bad,
                       'the distance matrix depends on %s, which may '
                       'differ in the next call' % (
                           show(bad[0])[:60] if bad else ''), e.where())


def rounds(ctx):
    """Every station pair adds exactly one kernel."""
    f = opt(ctx.p, KERN)
    if f is None:
        return
    f, i = method(ctx, KERN)
    evs = [e for e in i.events if e.kind == 'call' and e.name == '.append'
           and any(c.kind == 'for' or c.t.op == 'iter' for c in e.pc)]
    if not evs:
        return
    conds = {}
    for e in evs:
        for c in e.pc:
            if c.t.op != 'iter' and c.kind != 'for':
                conds.setdefault(c.t, set())
    if len(conds) != 1:
        return
    t = next(iter(conds))
    for val in (True, False):
        n = 0
        for e in evs:
            ok = all(c.pol == val for c in e.pc if c.t == t)
            n += ok
        ctx.ob('order', 'one kernel for each pair (%s)' % (
            'cached' if val else 'computed'), n == 1,
            'a pair of stations adds %d kernels' % n, evs[0].where())


# ---------------------------------------------------------------- align
def aligned(ctx):
    p = ctx.p
    f, i = method(ctx, S + 'dv_starts')
    if f is not None and len(f.params) > 2:
        utc, thr = f.params[1], f.params[2]
        rets = [e for e in i.events if e.kind == 'return' and e.func is f
                and e.argts]
        bad, und, where = [], not rets, ''
        for k in cases():
            base = meas_leaf(utc, *k)

            def leaf(t, base=base):
                if t.op == 'param' and t.args[0] == thr:
                    return 0
                if is_call(t, 'len') or t.op == 'attr' and t.args[
                        1] == 'size' or is_call(t, 'sum') or is_call(
                            t, 'count_nonzero'):
                    return 50
                return base(t)
            for e in rets:
                h = holds(e.pc, leaf)
                if h is False:
                    continue
                try:
                    v = bool(MD.ev(e.argts[0], leaf))
                except (MD.Undecided, TypeError):
                    v = None
                if v is False:
                    continue
                if h is None or v is None:
                    und = True
                elif not usable(*k):
                    bad.append(k)
                    where = e.where()
        if not und:
            ctx.ob('align', 'only usable curves are aligned', not bad,
                   'a curve with %s is aligned, but the forward model '
                   'leaves it out: the values of the others are shifted' % (
                       say(bad[0]) if bad else ''), where)
    f, i = method(ctx, G + 'align_dvs_to_grid', OUT + (
        G + 'forward_model', S + 'dv_starts', S + 'align_dv_curves',
        'monitor.dv.DV.save'))
    if f is None:
        return
    fw = [e for e in i.events if e.kind == 'call'
          and str(e.name).endswith('forward_model')]
    ds = [e for e in i.events if e.kind == 'call'
          and str(e.name).endswith('dv_starts')]
    al = [e for e in i.events if e.kind == 'call'
          and str(e.name).endswith('align_dv_curves')]
    if fw and ds:
        ctx.ob('align', 'curves are chosen before the forward model',
               max(e.seq for e in ds) < min(e.seq for e in fw),
               'the forward model is computed for other curves than those '
               'that are aligned', fw[0].where())
    if fw and al:
        ctx.ob('align', 'curves are chosen at all', bool(ds) or any(
            e.kind == 'call' and 'usable' in str(e.name)
            for e in i.events), 'curves without data at the time are '
            'passed to the forward model', fw[0].where())
    for e in al:
        for c in e.pc:
            if c.t.op == 'iter' and is_call(c.t.args[0], 'zip'):
                bad = [x for a in c.t.args[0].args[1:] for x in walk(a)
                       if x.op == 'call' and MD.cname(x) in (
                           'sorted', 'reversed', 'set', 'flip')
                       or x.op == 'item' and x.args[1].op == 'slice']
                ctx.ob('align', 'curves and forward values in one order',
                       not bad, 'the curves are not in the order of their '
                       'forward values: %s' % (show(bad[0])[:60]
                                               if bad else ''), e.where())
        b = bound(ctx, e, S + 'align_dv_curves')
        g = opt(p, S + 'align_dv_curves')
        if g is not None and len(g.params) > 3:
            v = b.get(g.params[3])
            ctx.ob('align', 'curves are aligned to the forward value',
                   v is not None and (not fw or any(
                       is_call(x, 'forward_model') for x in walk(v))
                       or not any(x.op in ('call', 'elem')
                                  for x in walk(v))) and v.op != 'const',
                   'a curve is aligned to %s' % (
                       show(v)[:80] if v is not None else 'the default'),
                   e.where())
            u = b.get(g.params[1])
            if u is not None and fw:
                bf = bound(ctx, fw[0], G + 'forward_model')
                uf = bf.get('utc')
                if uf is not None:
                    ctx.ob('align', 'aligned at the time of the model',
                           u == uf, 'curves are aligned at %s, the model '
                           'is that of %s' % (show(u)[:40], show(uf)[:40]),
                           e.where())
    # the mark is kept with this curve only
    f, i = method(ctx, 'monitor.dv.DV.__init__')
    if f is not None:
        for e in i.events:
            if e.kind == 'setattr' and e.name == 'dv_processing' and \
                    e.argts:
                t = e.argts[0]
                ctx.ob('align', 'marking a curve as aligned marks no other',
                       t.op != 'param', 'velocity changes share the '
                       'dictionary that aligning one of them marks',
                       e.where())
    f, i = method(ctx, S + 'align_dv_curves')
    if f is not None:
        moved(ctx, f, i)
        mk = [e for e in i.events if e.kind == 'setitem'
              and len(e.argts) == 2 and show(e.argts[1]) == "'aligned'"]
        up = [e for e in i.events if e.kind == 'call'
              and str(e.name).endswith('.update')
              and 'aligned' in show(e.argts[-1] if e.argts else e.recv.t)
              or e.kind == 'call' and 'aligned' in (e.kwts or {})]
        ctx.ob('align', 'an aligned curve is marked', bool(mk or up),
               'an aligned curve is not marked and will be aligned again',
               '%s:%d' % (f.qual, f.node.lineno))


def moved(ctx, f, i):
    """The curve is shifted by the forward value minus its own mean."""
    if len(f.params) < 4:
        return
    dv, val = f.params[0], f.params[3]
    for e in i.events:
        if e.kind != 'setattr' or e.name != 'value' or not e.argts:
            continue
        p = PO.poly(e.argts[-1])
        lin = {}
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1:
                lin[show(PO._atoms[m[0][0]])] = c
        if '%s.value' % dv not in lin:
            continue
        rest = [k for k in lin if k not in ('%s.value' % dv, val)]
        if len(p) != 3 or len(rest) != 1:
            continue
        ctx.ob('align', 'shift to the forward value', lin.get(val) == lin[
            '%s.value' % dv] == 1 and lin[rest[0]] == -1,
            'the aligned curve is %s' % PO.text(p), e.where())


# ----------------------------------------------------------- outside of grid
AX = [0, 1, 2, 3]
XF = [x for y in AX for x in AX]
YF = [y for y in AX for x in AX]
PTS = [((1, 2), False), ((1, 8), True), ((8, 1), True), ((8, 8), True),
       ((3, 3), False), ((0, 0), False)]
ARR = [(([0, 1], [2, 3]), False), (([0, 1], [2, 8]), True),
       (([8, 1], [2, 3]), True), (([8, 9], [8, 9]), True),
       (([1, 2, 3], [9, 1, 1]), True)]


def vec(t, env):
    r = env(t)
    if r is not None:
        return r
    if t.op == 'const' and isinstance(t.args[0], (int, float)):
        return t.args[0]
    if t.op == 'bin' and t.args[0] in ('Sub', 'Add', 'Mult', 'Pow',
                                       'BitOr', 'BitAnd'):
        fn = {'Sub': lambda a, b: a - b, 'Add': lambda a, b: a + b,
              'Mult': lambda a, b: a * b, 'Pow': lambda a, b: a ** b,
              'BitOr': lambda a, b: a or b,
              'BitAnd': lambda a, b: a and b}[t.args[0]]
        return broad(fn, vec(t.args[1], env), vec(t.args[2], env))
    if t.op == 'cmp' and t.args[0] in MD.CMP:
        return broad(MD.CMP[t.args[0]], vec(t.args[1], env),
                     vec(t.args[2], env))
    if t.op == 'bool':
        vs = [truth(vec(x, env)) for x in t.args[1:]]
        return all(vs) if t.args[0] == 'and' else any(vs)
    if t.op in ('not', 'inv'):
        v = vec(t.args[-1], env)
        return broad(lambda a, b: not a, v, 0)
    if t.op in ('listof', 'genof'):
        es = [x for x in walk(t.args[0]) if x.op == 'elem']
        if not es:
            raise MD.Undecided(t)
        src = vec(es[0].args[0], env)
        if not isinstance(src, list):
            raise MD.Undecided(t)
        return [vec(t.args[0], lambda x, v=v: v if x == es[0] else env(x))
                for v in src]
    if t.op == 'call':
        n = MD.cname(t)
        pos = [x for x in t.args[1:] if x.op != 'kw']
        kw = [x for x in t.args[1:] if x.op == 'kw']
        if kw:
            raise MD.Undecided(t)
        if n in ('abs', 'fabs', 'absolute') and len(pos) == 1:
            return broad(lambda a, b: abs(a), vec(pos[0], env), 0)
        if n in ('all', 'any', 'min', 'max', 'amin', 'amax'):
            a = vec(pos[0] if pos else t.args[0].args[0], env)
            fl = flat(a)
            return {'all': all, 'any': any, 'min': min, 'max': max,
                    'amin': min, 'amax': max}[n](fl)
        if n in ('array', 'asarray', 'list') and len(pos) == 1:
            return vec(pos[0], env)
    raise MD.Undecided(t)


def flat(a):
    if isinstance(a, list):
        return [y for x in a for y in flat(x)]
    return [a]


def truth(v):
    if isinstance(v, list):
        raise MD.Undecided('truth of an array')
    return bool(v)


def broad(fn, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise MD.Undecided('shape')
        return [broad(fn, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [broad(fn, x, b) for x in a]
    if isinstance(b, list):
        return [broad(fn, a, x) for x in b]
    return fn(a, b)


def outside(ctx):
    f, i = method(ctx, G + '_find_coord')
    if f is None:
        return
    rs = [e for e in i.events if e.kind == 'raise' and (
        e.func is f or e.func.cls is f.cls)]
    if not rs:
        ctx.ob('outside', 'points outside of the grid', False,
               'a point outside of the grid is not refused',
               '%s:%d' % (f.qual, f.node.lineno))
        return
    for (x, y), out in PTS + ARR:
        def env(t):
            if t.op == 'attr' and t.args[0].op == 'param':
                return {'xf': XF, 'yf': YF, 'res': 1}.get(t.args[1])
            if t.op == 'item' and is_call(t.args[0], 'geo2cart') and \
                    t.args[1].op == 'const':
                return x if t.args[1].args[0] == 0 else y
            if is_call(t, 'isinstance') and 'ndarray' in show(t):
                return isinstance(x, list)
            return None
        hit, und = False, False
        for e in rs:
            # one after another: the points of a loop
            turns = [None]
            if any(c.t.op == 'iter' for c in e.pc):
                turns = range(len(x)) if isinstance(x, list) else [None]
            for k in turns:
                def env2(t, k=k):
                    if t.op == 'iter':
                        return True
                    if t.op == 'elem' and k is not None:
                        v = vec(t.args[0], env)
                        if isinstance(v, list) and len(v) == len(x):
                            return v[k]
                    return env(t)
                ok = True
                for c in e.pc:
                    try:
                        if truth(vec(c.t, env2)) != c.pol:
                            ok = False
                            break
                    except (MD.Undecided, TypeError, ValueError, KeyError):
                        ok = None
                        break
                if ok:
                    hit = True
                if ok is None:
                    und = True
        if und and not hit:
            continue
        ctx.ob('outside', 'point %s,%s of a grid from 0 to 3' % (x, y),
               hit == out, 'it is %s' % ('refused' if hit
                                         else 'moved onto the grid'),
               rs[0].where())


# ------------------------------------------------------------ lapse times
def lapse(ctx):
    f, i = method(ctx, S + 'sensitivity_kernel')
    if f is None or len(f.params) < 6:
        return
    s1, s2, x, y, t, dt = f.params[:6]
    ar = [e for e in i.events if e.kind == 'call'
          and str(e.name).endswith('.arange')]
    for e in ar:
        if len(e.argts) < 2:
            continue
        lo = e.argts[0] if len(e.argts) > 2 else None
        hi = e.argts[1]
        bad = None
        for tv, dv in ((1., .1), (1.04, .1), (1.05, .1), (1.07, .1),
                       (.98, .25), (7.3, .2), (3., .3)):
            def leaf(z):
                if z.op == 'param':
                    return {t: tv, dt: dv}.get(z.args[0])
                return None
            try:
                h = MD.ev(hi, leaf)
                a = MD.ev(lo, leaf) if lo is not None else 0
                st = MD.ev(e.argts[2], leaf) if len(e.argts) > 2 else dv
            except (MD.Undecided, TypeError):
                break
            if a != 0:
                bad = 'starts at %s s' % a
            if abs(st - dv) > 1e-12:
                bad = 'is sampled with %s s instead of %s s' % (st, dv)
            n = math.ceil((h - a) / st - 1e-9)
            last = a + (n - 1) * st
            if last > tv + dv / 2 + 1e-9:
                bad = 'reaches %.2f s beyond the lapse time %s s (dt ' \
                    '%s s), where the propagation time is negative' % (
                        last - tv, tv, dv)
            if last < tv - dv - 1e-9:
                bad = 'ends at %.2f s, before the lapse time %s s' % (
                    last, tv)
            if bad:
                break
        else:
            h = None
        ctx.ob('lapse', 'travel times of a kernel', not bad,
               'the integral over the travel time %s' % bad, e.where())
    pr = [e for e in i.events if e.kind == 'call'
          and str(e.name).endswith('.probability') and len(e.argts) > 1]

    def station(z):
        return {w.args[0] for w in walk(z) if w.op == 'param'} & {s1, s2}
    legs = [(station(e.argts[0]), e.argts[1], e) for e in pr]
    one = [(z, e) for s, z, e in legs if s == {s1}]
    two = [(z, e) for s, z, e in legs if s == {s2}]
    both = [(z, e) for s, z, e in legs if s == {s1, s2}]
    if one and two:
        def leaf2(z):
            if z.op == 'param' and z.args[0] == t:
                return 10
            if z.op == 'elem':
                return 3
            return None
        try:
            a, b = MD.ev(one[0][0], leaf2), MD.ev(two[0][0], leaf2)
            ctx.ob('lapse', 'travel times add up to the lapse time',
                   {a, b} == {3, 7}, 'the legs to the two stations take '
                   '%s and %s s of 10 s' % (a, b), one[0][1].where())
        except (MD.Undecided, TypeError):
            pass
        if pr and not both:
            return
        for z, e in both:
            ctx.ob('lapse', 'normalised by the direct path', z.op ==
                   'param' and z.args[0] == t, 'the kernel is normalised '
                   'by the probability at %s' % show(z)[:60], e.where())


def run(ctx):
    ctx.rule('usable', 'a measurement enters with all its parts if, and '
             'only if, it is usable at the time')
    ctx.rule('order', 'values, coherences and coordinates belong to the '
             'same measurement')
    ctx.rule('solution', 'kernels, covariances and data are combined as '
             'defined')
    ctx.rule('refused', 'missing settings are refused before computing')
    ctx.rule('cache', 'a cached part is kept under all it depends on')
    ctx.rule('align', 'each curve is aligned to its own forward value')
    ctx.rule('outside', 'points outside of the grid are refused')
    ctx.rule('lapse', 'kernels integrate from 0 to the lapse time')
    roles = collected(ctx)
    if roles:
        sites(ctx, roles)
    caches(ctx)
    rounds(ctx)
    aligned(ctx)
    outside(ctx)
    lapse(ctx)
    ctx.atleast('usable', 2)
    ctx.atleast('cache', 1)
