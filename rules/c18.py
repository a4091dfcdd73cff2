"""C18: spectra, frequency axes and inverse transforms share one length."""
import ast
from sa.interp import Interp, State, Val
from sa.terms import T, const, mk, walk, show, alts, NONE
from sa.util import short
from sa import poly as P
from sa import model as MD
from rules.c17 import cname, kws, pos

E = frozenset()
FWD = ('rfft',)
INV = ('irfft', 'hfft')
AXIS = ('rfftfreq', 'fftfreq')
I1 = mk('const', 1j)
DRIVER = 'correlate.correlate.Correlator'


def leaf(t):
    if t.op == 'const' and isinstance(t.args[0], complex) and \
            t.args[0].real == 0 and t.args[0] != 1j:
        return mk('bin', 'Mult', const(t.args[0].imag), mk('const', 1j))
    if t.op == 'item' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'shape' and t.args[1] in (
                const(1), const(-1)):
        return length(t.args[0].args[0])
    if cname(t) == 'len' and pos(t) and pos(t)[0].op == 'item' and \
            rows(pos(t)[0]) != pos(t)[0]:
        return length(pos(t)[0])
    if cname(t) == 'size' and len(pos(t)) == 2 and pos(t)[1] in (
            const(1), const(-1)):
        return length(pos(t)[0])
    if cname(t) in ('float', 'int') and len(pos(t)) == 1 and \
            cname(pos(t)[0]) in ('float', 'int', 'next_fast_len'):
        return pos(t)[0]
    if t.op == 'attr' and t.args[1] == 'delta':
        return mk('bin', 'Div', const(1), mk('attr', t.args[0],
                                            'sampling_rate'))
    return None


def poly(t):
    return P.poly(t, leaf)


def whole(t):
    return t.op == 'slice' and all(a == NONE for a in t.args)


def rows(t):
    """Array of which the term is a selection of rows."""
    while True:
        if t.op == 'item' and not (t.args[1].op == 'const' and isinstance(
                t.args[1].args[0], str)):
            k = t.args[1]
            if k.op == 'tuple' and len(k.args) == 2 and whole(k.args[1]):
                t = t.args[0]
                continue
            if k.op == 'tuple':
                return t
            if k.op in ('elem', 'const', 'index', 'cmp') or k.op == 'item' \
                    or cname(k) in ('flatnonzero', 'where', 'argwhere'):
                t = t.args[0]
                continue
        if cname(t) in ('array', 'asarray', 'copy', 'sign', 'real', 'abs',
                        'nan_to_num', 'float32', 'astype', 'conj',
                        'ascontiguousarray'):
            a = pos(t)
            t = a[0] if t.args[0].op == 'ref' and a else t.args[0].args[0]
            continue
        return t


def length(t):
    """Normal form of the length of the last axis."""
    t = rows(t)
    n = cname(t)
    if n in ('concatenate', 'hstack') and pos(t) and pos(t)[0].op in (
            'tuple', 'list'):
        out = {}
        for a in pos(t)[0].args:
            out = P.add(out, length(a))
        return out
    if n in ('zeros', 'ones', 'empty', 'full') and pos(t):
        s = pos(t)[0]
        if s.op in ('tuple', 'list') and s.args:
            return poly(s.args[-1])
        return poly(s)
    if n in ('zeros_like', 'ones_like', 'empty_like') and pos(t):
        return length(pos(t)[0])
    if n in FWD and pos(t):
        full = nlen(t)
        return half(full)
    if n in INV:
        k = kws(t).get('n', pos(t)[1] if len(pos(t)) > 1 else None)
        if k is not None:
            return poly(k)
    return P.atom(mk('item', mk('attr', t, 'shape'), const(1)))


def nlen(t):
    """Record length of a forward transform."""
    k = kws(t).get('n', pos(t)[1] if len(pos(t)) > 1 else None)
    if k is not None and k != NONE:
        return poly(k)
    return length(pos(t)[0])


def half(full):
    return P.add(P.atom(mk('floordiv2', tuple(sorted(full.items())))),
                 {(): 1})


def halves(t):
    """n // 2 + 1 in any spelling, as half(n)."""
    q = {}

    def lf(x):
        if x.op == 'bin' and x.args[0] == 'FloorDiv' and \
                x.args[2] == const(2):
            return P.atom(mk('floordiv2', tuple(sorted(
                poly(x.args[1]).items()))))
        if cname(x) == 'int' and pos(x) and pos(x)[0].op == 'bin' and \
                pos(x)[0].args[0] == 'Div' and pos(x)[0].args[2] == \
                const(2):
            return P.atom(mk('floordiv2', tuple(sorted(
                poly(pos(x)[0].args[1]).items()))))
        return leaf(x)
    return P.poly(t, lf)


def factors(t):
    if t.op == 'bin' and t.args[0] == 'Mult':
        return factors(t.args[1]) + factors(t.args[2])
    return [t]


def conj_of(t):
    """(argument, True) of a conjugate, (t, False) otherwise."""
    if cname(t) in ('conj', 'conjugate'):
        if t.args[0].op == 'attr':
            return t.args[0].args[0], True
        return pos(t)[0], True
    return t, False


def which(t):
    """0 or 1: member of the pair whose row is taken."""
    if t.op != 'item':
        return None
    k = t.args[1]
    k = k.args[0] if k.op == 'tuple' and k.args else k
    if k.op == 'item' and k.args[1] in (const(0), const(1)):
        return k.args[1].args[0]
    return None


def entry(p, f, c):
    i = Interp(p, budget=120000)
    st = State()
    sv = None
    if f.cls is not None and not f.is_static:
        sv = i.param(st, 'self', f.cls.qual, None)
    st, v = i.run(f, None, sv, st)
    return i, st, v


def uses_fft(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in FWD + INV + AXIS + (
                'ifft', 'fft2') or isinstance(n, ast.Name) and \
                n.id in FWD + INV + AXIS:
            return True
    return False


def is_axis(t, n, sr=None):
    """Frequencies of a record of length n (normal form)."""
    if cname(t) != 'rfftfreq' or not pos(t):
        return False
    d = kws(t).get('d', pos(t)[1] if len(pos(t)) > 1 else const(1.))
    got = poly(pos(t)[0])
    if n is not None and got != n:
        return False
    return sr is None or poly(d) == P.inv(poly(sr))


def driver(ctx, p):
    c = p.cls(DRIVER)
    # the method that transforms and correlates
    fs = [m for m in c.methods.values() if uses_fft(m)]
    called = set()
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == 'self':
                called.add((m.name, n.attr))
    # helpers of another transforming method are interpreted inside it
    top = []
    names = {f.name for f in fs}
    for m in c.methods.values():
        reach, todo = set(), [m.name]
        while todo:
            x = todo.pop()
            for a, b in called:
                if a == x and b not in reach:
                    reach.add(b)
                    todo.append(b)
        if m.name in names or reach & names:
            top.append((m, reach))
    both = [(m, r) for m, r in top
            if has(p, c, m, r, FWD) and has(p, c, m, r, INV)]
    low = [m for m, r in both if not any(
        n.name in r for n, _ in both)]
    for f in low:
        i, st, v = entry(p, f, c)
        ctx.saw(i)
        check(ctx, p, f, i, st, v)


def has(p, c, m, reach, names):
    for n in {m.name} | reach:
        g = c.methods.get(n)
        if g is None:
            continue
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr in names or \
                    isinstance(x, ast.Name) and x.id in names:
                return True
    return False


def term_of(e):
    """The call as a term."""
    return mk('call', mk('ref', e.name), *(list(e.argts) + [
        mk('kw', k, v) for k, v in e.kwts.items()]))


def check(ctx, p, f, i, st, v):
    name = short(f.qual)
    sr = mk('attr', mk('param', 'self'), 'sampling_rate')
    fwd = [e for e in i.events if e.kind == 'call'
           and e.name.split('.')[-1] in FWD]
    inv = [e for e in i.events if e.kind == 'call'
           and e.name.split('.')[-1] in INV]
    axes = [e for e in i.events if e.kind == 'call'
            and e.name.split('.')[-1] in AXIS]
    ls = [nlen(term_of(e)) for e in fwd]
    full = ls[0] if ls and all(x == ls[0] for x in ls) else None
    ctx.ob('forward', name, full is not None,
           'records of different lengths are transformed', f.where())
    if full is None:
        return
    for e in axes:
        ctx.ob('axis', '%s %s' % (name, e.name.split('.')[-1]), is_axis(
            term_of(e), full, sr), 'frequency axis %s for spectra of a '
            'record of length %s' % (show(term_of(e))[-90:], P.text(full)),
            e.where())
    # parameters handed to the spectral steps
    for e in i.events:
        if e.kind != 'setitem' or e.name not in ('freqs', 'npts'):
            continue
        t = e.argts[0]
        if e.name == 'npts':
            ok = poly(t) == full
        else:
            ok = is_axis(t, full, sr)
        ctx.ob('params', '%s %s' % (name, e.name), ok, 'the spectral steps '
               'are given %s = %s' % (e.name, show(t)[:90]), e.where())
    # storage for the spectra
    for e in i.events:
        if e.kind == 'setitem' and e.recv is not None and any(
                cname(a) in FWD for a in e.argts[:1]):
            dst = rows(e.recv.t)
            if cname(dst) in ('zeros', 'empty', 'ones') and pos(dst):
                s = pos(dst)[0]
                s = s.args[-1] if s.op in ('tuple', 'list') else s
                ctx.ob('storage', name, halves(s) == half(full),
                       'spectra of %s values' % show(s)[:60], e.where())
    for e in inv:
        t = term_of(e)
        k = kws(t).get('n', pos(t)[1] if len(pos(t)) > 1 else None)
        ctx.ob('inverse', name, k is not None and poly(k) == full,
               'inverse transform of length %s' % (
                   show(k)[:80] if k is not None else 'not given'),
               e.where())
        pair(ctx, i, name, e, full, sr)
    # lengths recovered from the number of frequencies
    for e in i.events:
        for t in e.argts:
            for x in walk(t):
                if x.op == 'bin' and x.args[0] == 'Mult' and \
                        recovered(x, full):
                    ctx.ob('recovered', name, False, 'a record length is '
                           'computed from the number of frequencies, which '
                           'is wrong for odd lengths: %s' % show(x)[:60],
                           e.where())
    ctx.ob('recovered', name, True)


def recovered(x, full):
    h = P.add(half(full), {(): 1}, -1)
    return halves(x) == P.mul({(): 2}, h)


def pair(ctx, i, name, e, full, sr):
    """first-conjugate times second, shifted by the residual offset."""
    fs = factors(e.argts[0])
    plain, conj, phase, other = [], [], [], []
    for x in fs:
        a, c = conj_of(x)
        w = which(a)
        if w is not None:
            (conj if c else plain).append((w, a))
        elif cname(a) == 'exp':
            phase.append((a, c))
        else:
            other.append(x)
    if not plain and not conj and not phase:
        # not a correlation
        return
    ok = [w for w, a in conj] == [0] and [w for w, a in plain] == [1] and \
        not other
    ctx.ob('pair', name, ok, 'the spectrum of a correlation is %s' %
           show(e.argts[0])[:120], e.where())
    ctx.ob('pair', name + ' spectra', len({
        a.args[0] for w, a in plain + conj}) == 1, 'spectra from different '
        'matrices are combined', e.where())
    # start time difference, lag and phase
    lag = None
    for s in i.events:
        if s.kind == 'setitem' and s.argts and s.seq > e.seq and \
                s.name is None and any(
                    x == sr for x in walk(s.argts[0])) and not any(
                    cname(x) in INV for x in walk(s.argts[0])):
            lag = s
    ok = len(phase) == 1 and not phase[0][1]
    rest = None
    if ok:
        arg = pos(phase[0][0])[0]
        q = poly(arg)
        pi = [a for x in walk(arg) for a in [x]
              if x.op == 'ref' and str(x.args[0]).endswith('.pi')]
        fr = [x for x in walk(arg) if cname(x) == 'rfftfreq']
        ok = bool(pi) and bool(fr) and is_axis(fr[0], full, sr)
        if ok:
            k = P.mul(P.mul(poly(mk('const', 1j)), P.mul(
                {(): 2}, poly(pi[0]))), poly(fr[0]))
            rest = P.mul(q, P.inv(k))
    if ok:
        # start(first) - start(second) - rest
        pos_, neg, oth = [], [], {}
        for m, c in rest.items():
            t = P._atoms.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 \
                else None
            w = which(t) if t is not None else None
            if w is not None and c == 1:
                pos_.append(w)
            elif w is not None and c == -1:
                neg.append(w)
            else:
                oth[m] = c
        ok = pos_ == [0] and neg == [1]
        rest = oth
    ctx.ob('shift', name + ' phase', ok, 'the phase of a correlation does '
           'not compensate start(first) - start(second): %s' % (
               show(pos(phase[0][0])[0])[:120] if phase else 'none'),
           e.where())
    if not ok or lag is None:
        ctx.ob('shift', name + ' lag', not ok or lag is not None,
               'no first lag is stored', e.where())
        return
    # first lag = -samples / rate + (residual of the phase)
    q = poly(lag.argts[0])
    neg = P.add(q, rest, -1)
    k = P.mul(neg, poly(sr))
    cut = None
    for x in walk_all(i, e):
        if x.op == 'slice' and len(x.args) == 3 and x.args[0].op != 'const' \
                and x.args[1] == NONE:
            cut = poly(x.args[0])
    ctx.ob('shift', name + ' lag', cut is not None and k == cut,
           'the first lag is %s but the correlation starts at sample %s and '
           'is shifted by %s' % (P.text(q)[:80], P.text(cut or {}),
                                 P.text(rest)[:60]), lag.where())


def walk_all(i, e):
    """Terms stored after the inverse transform that contain it."""
    for s in i.events:
        if s.kind == 'setitem' and s.seq > e.seq and s.argts:
            for x in walk(s.argts[0]):
                if x.op == 'item' and any(cname(y) in INV
                                          for y in walk(x.args[0])):
                    for y in walk(x.args[1]):
                        yield y


def given(k):
    """The length is the number of samples the caller gave."""
    for n in (100, 101, 3, 86400):
        def leaf(t, n=n):
            if t.op == 'item' and t.args[1] == const('npts') or \
                    cname(t) == 'get' and const('npts') in pos(t):
                return n
            return None
        try:
            if MD.ev(k, leaf) != n:
                return False
        except MD.Undecided:
            return True
    return True


def steps(ctx, p):
    """Spectral steps that leave and re-enter the frequency domain."""
    for f in p.all_funcs():
        if f.module.name == 'seismic.correlate.correlate' or \
                not uses_fft(f):
            continue
        i, st, v = entry(p, f, None)
        ctx.saw(i)
        for e in i.events:
            if e.kind != 'call' or e.name.split('.')[-1] not in INV:
                continue
            t = term_of(e)
            k = kws(t).get('n', pos(t)[1] if len(pos(t)) > 1 else None)
            src = e.argts[0] if e.argts else NONE
            ok = k is not None and k != NONE
            if ok and any(x.op == 'param' for x in walk(src)) and not any(
                    cname(x) in FWD for x in walk(src)):
                # the spectrum came from the caller: length from params
                ok = any(x.op == 'item' and x.args[1] == const('npts') or
                         cname(x) == 'get' and const('npts') in pos(x)
                         for x in walk(k))
                ok = ok and given(k)
            elif ok:
                f2 = [nlen(x) for x in walk(src) if cname(x) in FWD]
                ok = bool(f2) and all(x == poly(k) for x in f2)
            ctx.ob('inverse', short(f.qual), ok, 'inverse transform of '
                   'length %s' % (show(k)[:60] if k is not None
                                  else 'not given'), e.where())
        for e in i.events:
            if e.kind == 'call' and e.name.split('.')[-1] in AXIS:
                ctx.ob('axis', short(f.qual), False, 'frequency axis of an '
                       'unknown record', e.where())


def run(ctx):
    p = ctx.p
    ctx.rule('forward', 'all records of a correlation have one length')
    ctx.rule('axis', 'frequency axes are built for the record length and '
             'sampling rate of the spectra')
    ctx.rule('params', 'frequencies and record length handed to spectral '
             'steps are those of the spectra')
    ctx.rule('storage', 'the storage for spectra has length // 2 + 1 values')
    ctx.rule('inverse', 'inverse transforms are given the length of the '
             'forward transform')
    ctx.rule('recovered', 'no record length is recovered from the number of '
             'frequencies')
    ctx.rule('pair', 'correlation = conj(first) * second')
    ctx.rule('shift', 'phase and first lag together account for the '
             'difference of the start times, first minus second')
    driver(ctx, p)
    steps(ctx, p)
    ctx.atleast('inverse', 2)
    ctx.atleast('pair', 1)
