"""C25: exactly the requested combinations are correlated.

The conditions under which a pair of traces, stations or codes is taken are
extracted from the source and evaluated for every pair of a small set of
traces that covers equal and different networks, stations and components,
against the definition of each method.  A typestate analysis shows that the
indices of the pairs are those of the traces they are applied to.
"""
import ast
import fnmatch
import itertools
from sa.interp import Interp, State, Val
from sa.terms import const, walk, show
from sa import model as MD
from rules import pairs as P
from rules.c04 import opt, quals, is_call, CMPF, K, SORT

INX = K + 'is_in_xcombis'
METHODS = ('betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations')
TRACES = sorted([
    ('A', 'S1', 'HHE', ''), ('A', 'S1', 'HHZ', ''), ('A', 'S2', 'HHZ', ''),
    ('A', 'S20', 'HHZ', ''), ('B', 'S1', 'BHZ', ''), ('B', 'S1', 'HHE', ''),
    ('B', 'S1', 'HHZ', '')])
LISTS = [None, ['A-A.S1-S2'], ['A-A.S2-S1'], ['A-B.S1-S1.HHE-HHZ'],
         ['B-A.S1-S2.HHZ-HHZ'], ['A-A.S1-S2', 'A-B.S2-S1.HHZ-HHE'],
         ['B-A.S1-S1']]


def requested(a, b, lst):
    """Definition: Net1-Net2.Sta1-Sta2[.Cha1-Cha2] in either order."""
    for c in lst:
        k = c.split('.')
        n, s = k[0].split('-'), k[1].split('-')
        h = k[2].split('-') if len(k) > 2 else None
        for x, y in ((a, b), (b, a)):
            if (n[0], n[1], s[0], s[1]) == (x[0], y[0], x[1], y[1]) and (
                    h is None or h == [x[2], y[2]]):
                return True
    return False


def wanted(method, trs, lst):
    out = []
    for i, j in itertools.product(range(len(trs)), repeat=2):
        a, b = trs[i], trs[j]
        other = a[:2] != b[:2]
        if method == 'betweenStations' and i < j and other and (
                lst is None or requested(a, b, lst)):
            out.append((i, j))
        if method == 'betweenComponents' and i < j and not other and \
                a[2][-1] != b[2][-1]:
            out.append((i, j))
        if method == 'autoComponents' and i == j:
            out.append((i, j))
        if method == 'allSimpleCombinations' and i <= j:
            out.append((i, j))
        if method == 'allCombinations':
            out.append((i, j))
    return out


def unsort(t):
    """enumerate(x), list(x) -> x"""
    while t.op == 'call' and MD.cname(t) in ('enumerate', 'list', 'tuple',
                                             'iter') and len(t.args) > 1:
        t = t.args[1]
    return t


def span(t, n, leaf, isseq):
    """Values of the index of a loop over t."""
    t = unsort(t)
    if isseq(t):
        return range(n)
    if is_call(t, 'zip'):
        return range(n)
    if is_call(t, 'range'):
        a = [MD.ev(x, leaf) for x in t.args[1:]]
        if all(isinstance(x, int) for x in a):
            return range(*a)
    if t.op == 'item' and t.args[1].op == 'slice' and isseq(t.args[0]):
        lo = t.args[1].args[0]
        if (lo.op == 'const' and lo.args[0] is None):
            lo = 0
        else:
            lo = MD.ev(lo, leaf)
        hi = t.args[1].args[1]
        if not (hi.op == 'const' and hi.args[0] is None):
            raise MD.Undecided(t)
        return range(max(0, n - lo))
    raise MD.Undecided(t)


def start(t, leaf):
    """First index of a slice."""
    lo = t.args[1].args[0]
    return 0 if lo.op == 'const' and lo.args[0] is None else MD.ev(lo, leaf)


def assignments(syms, n, mk, isseq):
    """Every assignment of the loops (nested) to indices."""
    # one index per loop; loops whose bounds need others come later
    ids = {}
    for x in syms:
        ids.setdefault(x.args[1], x)
    order = sorted(ids, key=lambda k: loopno(k))

    def go(k, cur):
        if k == len(order):
            yield dict(cur)
            return
        x = ids[order[k]]
        leaf = mk(cur)
        for v in span(x.args[0], n, leaf, isseq):
            cur[order[k]] = v
            yield from go(k + 1, cur)
            del cur[order[k]]
    yield from go(0, {})


def loopno(k):
    a, b = str(k)[1:].split('.')[:2]
    return int(a), int(b)


def with_none(par, lst):
    """Leaf for a parameter that may be None."""
    def leaf(t):
        if t.op == 'cmp' and t.args[0] in ('Is', 'IsNot', 'Eq', 'NotEq'):
            x, y = t.args[1], t.args[2]
            if par(x) and y.op == 'const' and y.args[0] is None:
                return (lst is None) == (t.args[0] in ('Is', 'Eq'))
        if par(t):
            return list(lst) if lst is not None else False
        return None
    return leaf


# --------------------------------------------------------- pairs of traces
def cross(ctx):
    p = ctx.p
    f = opt(p, K + 'calc_cross_combis')
    if f is None or len(f.params) < 4:
        return
    src, ex, meth, req = f.params[:4]

    def isseq(t):
        t = unsort(t)
        return t.op == 'param' and t.args[0] == src
    for m in METHODS:
        i = Interp(p, budget=120000, no_inline=quals(p, CMPF, INX),
                   guards=True,
                   distinct=lambda t: isseq(t) or t.op == 'item'
                   and isseq(t.args[0]))
        r, v = i.run(f, {meth: Val(const(m))}, None, State())
        ctx.saw(i)
        obj = {x for x in walk(v.t)} if v is not None else set()
        evs = [e for e in i.events if e.kind == 'call'
               and e.name == '.append' and e.argts
               and e.argts[-1].op == 'tuple'
               and len(e.argts[-1].args) == 2]
        if not evs:
            rais = [e for e in i.events if e.kind == 'raise'
                    and e.func is f]
            if rais and not any(e.kind == 'call' for e in i.events
                                if str(e.name).startswith('.')
                                and e.name != '.sort'):
                ctx.ob('pairs', m, False, 'the documented method %s is '
                       'refused' % m, rais[0].where())
            continue
        del obj
        for lst in (LISTS if m == 'betweenStations' else [None]):
            got, where = collect(evs, TRACES, lst, req, ex, isseq)
            if got is None:
                continue
            want = wanted(m, TRACES, lst)
            key = (lambda x: x) if m == 'allCombinations' else (
                lambda x: tuple(sorted(x)))
            g = [key(x) for x in got]
            w = [key(x) for x in want]
            miss = [x for x in w if x not in g]
            more = [x for x in g if x not in w]
            dup = [x for x in set(g) if g.count(x) > 1]
            ctx.ob('pairs', '%s of %s' % (m, 'all' if lst is None else
                                          ' '.join(lst)),
                   not (miss or more or dup),
                   '; '.join(['%s-%s %s' % (
                       '.'.join(TRACES[x[0]][:3]), '.'.join(
                           TRACES[x[1]][:3]), t)
                       for s, t in ((miss, 'is not correlated'),
                                    (more, 'is correlated'),
                                    (dup, 'is correlated twice'))
                       for x in s[:1]]), where)
    # leaving the loop early drops the pairs after it
    for lp in [n for n in ast.walk(f.node) if isinstance(n, ast.If)]:
        t = ast.unparse(lp.test)
        if (CMPF.split('.')[-1] in t or INX.split('.')[-1] in t) and any(
                isinstance(x, (ast.Break, ast.Return))
                for b in lp.body + lp.orelse for x in ast.walk(b)):
            ctx.ob('pairs', 'all pairs are looked at', False,
                   'the first stored or unrequested pair ends the search',
                   '%s:%d' % (f.qual, lp.lineno))


def collect(evs, trs, lst, req, ex, isseq):
    n = len(trs)

    def mk(cur):
        none = with_none(lambda t: t.op == 'param' and t.args[0] == req,
                         lst)

        def leaf(t):
            if t.op == 'index' and len(t.args) > 1 and t.args[1] in cur:
                return cur[t.args[1]]
            if t.op == 'elem' and len(t.args) > 1 and t.args[1] in cur:
                if isseq(t.args[0]):
                    return P.Tr((trs[cur[t.args[1]]], 0))
                d = unsort(t.args[0])
                if is_call(d, 'range'):
                    return cur[t.args[1]]
                if d.op == 'item' and isseq(d.args[0]):
                    return P.Tr((trs[cur[t.args[1]] + start(d, leaf)], 0))
            if t.op == 'item' and isseq(t.args[0]):
                k = MD.ev(t.args[1], leaf)
                if isinstance(k, int):
                    return P.Tr((trs[k], 0))
            if is_call(t, 'len') and isseq(t.args[1]):
                return n
            if is_call(t, CMPF.split('.')[-1]):
                return False
            if is_call(t, INX.split('.')[-1]) and len(t.args) > 3:
                ids = [MD.ev(x, leaf) for x in t.args[1:3]]
                if lst is None:
                    raise MD.Undecided(t)
                third = t.args[3]
                if not (third.op == 'param' and third.args[0] == req):
                    raise MD.Undecided(t)
                k = [x.split('.') for x in ids]
                return requested(*[(x[0], x[1], x[3]) for x in k], lst)
            x = none(t)
            if x is not None:
                return x
            return P.text_leaf(t, leaf)
        return leaf
    got, where = [], ''
    for e in evs:
        pair = e.argts[-1].args
        syms = [x for t in list(pair) + [c.t for c in e.pc]
                for x in walk(t) if x.op in ('index', 'elem')
                and len(x.args) > 1]
        where = e.where()
        try:
            for cur in assignments(syms, n, mk, isseq):
                leaf = mk(cur)
                d = P.decided(e.pc, leaf)
                if d is None:
                    return None, where
                if d:
                    got.append((MD.ev(pair[0], leaf),
                                MD.ev(pair[1], leaf)))
        except (MD.Undecided, TypeError, IndexError, ValueError):
            return None, where
    return got, where


# ------------------------------------------------------------- is requested
def text(t, leaf):
    """Calls of fnmatch, split and any on top of pairs.text_leaf."""
    if t.op == 'call':
        n, h = MD.cname(t), t.args[0]
        pos = [a for a in t.args[1:] if a.op != 'kw']
        if h.op == 'attr' and n == 'split' and len(pos) == 1:
            v, s = MD.ev(h.args[0], leaf), MD.ev(pos[0], leaf)
            if isinstance(v, str) and isinstance(s, str):
                return v.split(s)
        if h.op == 'attr' and n in ('startswith',) and len(pos) == 1:
            v, s = MD.ev(h.args[0], leaf), MD.ev(pos[0], leaf)
            if isinstance(v, str) and isinstance(s, str):
                return v.startswith(s)
        if h.op == 'ref' and n in ('fnmatch', 'fnmatchcase') and \
                len(pos) == 2:
            v, s = MD.ev(pos[0], leaf), MD.ev(pos[1], leaf)
            if isinstance(v, str) and isinstance(s, str):
                return fnmatch.fnmatchcase(v, s)
        if h.op == 'ref' and n == 'filter' and len(pos) == 2 and \
                'fnmatch' in str(h.args[0]):
            v, s = MD.ev(pos[0], leaf), MD.ev(pos[1], leaf)
            if isinstance(v, list) and isinstance(s, str):
                return fnmatch.filter(v, s)
        if h.op == 'attr' and n == 'filter' and len(pos) == 2 and show(
                h.args[0]) == 'fnmatch':
            v, s = MD.ev(pos[0], leaf), MD.ev(pos[1], leaf)
            if isinstance(v, list) and isinstance(s, str):
                return fnmatch.filter(v, s)
    if t.op == 'item' and t.args[1].op == 'slice':
        try:
            b = MD.ev(t.args[0], leaf)
        except MD.Undecided:
            return None
        if isinstance(b, (str, list, tuple)) and not isinstance(b, P.Tr):
            k = [None if x.op == 'const' and x.args[0] is None
                 else MD.ev(x, leaf) for x in t.args[1].args]
            return b[slice(*k)]
    return P.text_leaf(t, leaf)


def over(t, par, lst, mk):
    """any(... for c in list) and [... for c in list] over a parameter."""
    if t.op == 'call' and MD.cname(t) in ('any', 'all') and len(t.args) > 1:
        x = t.args[1]
        body = None
        if x.op in ('listof', 'comp', 'genof', 'gen'):
            body = x.args[0]
        if body is not None:
            if x.op == 'comp' and len(x.args) > 2 and x.args[2].args:
                raise MD.Undecided(t)
            vals = [bool(MD.ev(body, mk(c))) for c in lst]
            return any(vals) if MD.cname(t) == 'any' else all(vals)
    if t.op in ('listof', 'comp') and any(
            x.op == 'elem' and par(unsort(x.args[0]))
            for x in walk(t.args[0])):
        if t.op == 'comp' and len(t.args) > 2 and t.args[2].args:
            raise MD.Undecided(t)
        return [MD.ev(t.args[0], mk(c)) for c in lst]
    return None


def is_requested(ctx):
    p = ctx.p
    f = opt(p, INX)
    if f is None or len(f.params) < 3:
        return
    a, b, req = f.params[:3]
    i = Interp(p, budget=60000, distinct=lambda t: t.op == 'param'
               and t.args[0] == req)
    i.run(f, {}, None, State())
    ctx.saw(i)
    rets = [e for e in i.events if e.kind == 'return' and e.func is f
            and e.argts]

    def par(t):
        return t.op == 'param' and t.args[0] == req
    for x, y in itertools.product(TRACES, repeat=2):
        if x[:2] == y[:2]:
            continue
        for lst in LISTS[1:] + [['A-A.S1-S20.HHE-HHZ']]:
            ids = {a: '%s.%s.00.%s' % x[:3], b: '%s.%s.00.%s' % y[:3]}

            def mk(c):
                def leaf(t):
                    if t.op == 'param' and t.args[0] in ids:
                        return ids[t.args[0]]
                    if t.op == 'elem' and par(unsort(t.args[0])):
                        if c is None:
                            raise MD.Undecided(t)
                        return c
                    if par(t):
                        return list(lst)
                    v = over(t, par, lst, mk)
                    if v is not None:
                        return v
                    return text(t, leaf)
                return leaf
            got, und = False, False
            where = rets[0].where() if rets else ''
            for e in rets:
                for c in lst:
                    leaf = mk(c)
                    d = P.decided(e.pc, leaf)
                    if d is False:
                        continue
                    try:
                        v = bool(MD.ev(e.argts[0], leaf))
                    except (MD.Undecided, TypeError, ValueError):
                        und = True
                        continue
                    if d is None:
                        und = und or v
                    elif v:
                        got = True
                        where = e.where()
            if und and not got:
                continue
            want = requested(x, y, lst)
            ctx.ob('requested', '%s %s in %s' % (
                ids[a], ids[b], ' '.join(lst)), got == want,
                'the pair %s, %s counts as %srequested by %s' % (
                    ids[a], ids[b], '' if got else 'not ', ' '.join(lst)),
                where)


# ------------------------------------------------------------------ look-up
STATIONS = [('A', 'S1'), ('A', 'S2'), ('A', 'S20'), ('B', 'S1')]


def combos(ctx):
    p = ctx.p
    f = opt(p, K + 'compute_network_station_combinations')
    if f is None or len(f.params) < 4:
        return
    nl, sl, meth, req = f.params[:4]
    n = len(STATIONS)

    def isseq(t):
        t = unsort(t)
        return t.op == 'param' and t.args[0] in (nl, sl) or is_call(
            t, 'zip')
    for m in METHODS:
        i = Interp(p, budget=120000, no_inline=quals(p, SORT, INX),
                   guards=True,
                   distinct=lambda t: isseq(t) or t.op == 'item'
                   and isseq(t.args[0]))
        r, v = i.run(f, {meth: Val(const(m))}, None, State())
        ctx.saw(i)
        if v is None or v.t.op != 'tuple' or len(v.t.args) != 2:
            continue
        for lst in (LISTS if m == 'betweenStations' else [None]):
            def mk(cur, c=None):
                par = (lambda t: t.op == 'param' and t.args[0] == req)
                none = with_none(par, lst)

                def leaf(t):
                    if t.op == 'index' and len(t.args) > 1 and \
                            t.args[1] in cur:
                        return cur[t.args[1]]
                    if t.op == 'elem' and len(t.args) > 1 and \
                            t.args[1] in cur:
                        d, k = unsort(t.args[0]), cur[t.args[1]]
                        if d.op == 'param' and d.args[0] in (nl, sl):
                            return STATIONS[k][d.args[0] == sl]
                        if d.op == 'item' and d.args[0].op == 'param':
                            return STATIONS[k + start(d, leaf)][
                                d.args[0].args[0] == sl]
                        if d.op == 'item' and is_call(
                                unsort(d.args[0]), 'zip'):
                            return tuple(
                                STATIONS[k + start(d, leaf)][
                                    y.args[0] == sl]
                                for y in unsort(d.args[0]).args[1:])
                        if is_call(d, 'range'):
                            return k
                        if is_call(d, 'zip'):
                            return tuple(
                                STATIONS[k][y.args[0] == sl]
                                for y in d.args[1:])
                    if t.op == 'item' and t.args[0].op == 'param' and \
                            t.args[0].args[0] in (nl, sl) and \
                            t.args[1].op != 'slice':
                        k = MD.ev(t.args[1], leaf)
                        return STATIONS[k][t.args[0].args[0] == sl]
                    if is_call(t, 'len') and isseq(t.args[1]):
                        return n
                    if t.op == 'elem' and par(unsort(t.args[0])):
                        if c is None:
                            raise MD.Undecided(t)
                        return c
                    if is_call(t, SORT.split('.')[-1]):
                        v = [MD.ev(x, leaf) for x in t.args[1:]
                             if x.op != 'kw'] + ['', '']
                        return P.canonical((v[0], v[1], v[4]),
                                           (v[2], v[3], v[5]))
                    if is_call(t, INX.split('.')[-1]) and len(t.args) > 3:
                        ids = [MD.ev(x, leaf).split('.')
                               for x in t.args[1:3]]
                        ll = MD.ev(t.args[3], leaf)
                        if not isinstance(ll, list):
                            raise MD.Undecided(t)
                        return requested(*[(x[0], x[1], x[-1])
                                           for x in ids], ll)
                    v = over(t, par, lst or [], lambda c: mk(cur, c))
                    if v is not None:
                        return v
                    x = none(t)
                    if x is not None:
                        return x
                    return text(t, leaf)
                return leaf
            parts, where = [], ''
            for x in v.t.args:
                g, where = listed(i, x, n, mk, isseq, where)
                parts.append(g)
            if None in parts:
                continue
            ctx.ob('look-up', '%s lists' % m, len(parts[0]) == len(
                parts[1]), 'networks and stations are lists of '
                'different length', where)
            got = set(zip(*parts))
            want = set()
            for k, l in itertools.product(range(n), repeat=2):
                x, y = STATIONS[k], STATIONS[l]
                if m in ('betweenComponents', 'autoComponents') and k != l:
                    continue
                if m == 'betweenStations':
                    if k >= l or lst is not None and not any(
                            requested(x + ('',), y + ('',), [
                                '.'.join(q.split('.')[:2])])
                            for q in lst):
                        continue
                u = sorted([x, y])
                want.add(('%s-%s' % (u[0][0], u[1][0]),
                          '%s-%s' % (u[0][1], u[1][1])))
            miss, more = sorted(want - got), sorted(got - want)
            ctx.ob('look-up', '%s of %s' % (m, 'all' if lst is None
                                            else ' '.join(lst)),
                   not (miss or more),
                   '; '.join(['%s.%s %s' % (x[0] + (t,))
                              for x, t in ((miss, 'is left out'),
                                           (more, 'is not of the run'))
                              if x]), where)


def listed(i, t, n, mk, isseq, where):
    """Values a list of the result is filled with."""
    out = []
    try:
        if t.op == 'comp':
            syms = [x for x in walk(t) if x.op in ('elem', 'index')
                    and len(x.args) > 1]
            for cur in assignments(syms, n, mk, isseq):
                leaf = mk(cur)
                if all(MD.ev(c, leaf) for c in t.args[2].args):
                    out.append(MD.ev(t.args[0], leaf))
            return out, where
        if t.op != 'obj':
            return None, where
        for e in i.events:
            if e.kind == 'call' and e.recv is not None and \
                    e.recv.t == t and e.name in ('.extend', '.insert'):
                return None, where
            if e.kind != 'call' or e.name != '.append' or \
                    e.recv is None or e.recv.t != t:
                continue
            where = e.where()
            syms = [x for y in [e.argts[-1]] + [c.t for c in e.pc]
                    for x in walk(y) if x.op in ('index', 'elem')
                    and len(x.args) > 1 and isdom(x.args[0], isseq)]
            for c in e.pc:
                if c.t.op == 'iter' and isdom(c.t.args[0], isseq) and not \
                        any(unsort(x.args[0]) == unsort(c.t.args[0])
                            for x in syms):
                    return None, where
            for cur in assignments(syms, n, mk, isseq):
                leaf = mk(cur)
                d = P.decided(e.pc, leaf)
                if d is None:
                    return None, where
                if d:
                    out.append(MD.ev(e.argts[-1], leaf))
    except (MD.Undecided, TypeError, IndexError, ValueError):
        return None, where
    return out, where


def isdom(t, isseq):
    t = unsort(t)
    return isseq(t) or is_call(t, 'range') or t.op == 'item' and isseq(
        t.args[0])


# -------------------------------------------------------- stations of a run
def stations(ctx):
    p = ctx.p
    f = opt(p, K + 'Correlator._filter_by_rcombis')
    if f is None:
        return
    i = Interp(p, budget=60000, distinct=lambda t: show(t) in (
        'self.station', 'self.avail_raw_data'))
    st = State()
    i.run(f, {}, i.param(st, 'self', f.cls.qual, None), st)
    ctx.saw(i)

    def par(t):
        return show(unsort(t)) == 'self.rcombis'
    for e in i.events:
        if e.kind != 'setattr' or e.name not in (
                'station', 'avail_raw_data') or not e.args:
            continue
        t = e.args[-1].t
        if t.op != 'comp' or not isinstance(e.name, str):
            continue
        syms = {x for x in walk(t) if x.op == 'elem'
                and len(x.args) > 1 and show(x.args[0]) == 'self.%s'
                % e.name}
        if len(syms) != 1:
            continue
        for lst in LISTS[1:]:
            for tr in TRACES:
                def mk(c):
                    def leaf(x):
                        if x in syms:
                            return [tr[0], tr[1], tr[2]]
                        if x.op == 'elem' and par(x.args[0]):
                            if c is None:
                                raise MD.Undecided(x)
                            return c
                        if par(x):
                            return list(lst)
                        v = over(x, par, lst, mk)
                        if v is not None:
                            return v
                        return text(x, leaf)
                    return leaf
                try:
                    kept = all(bool(MD.ev(c, mk(None)))
                               for c in t.args[2].args)
                except (MD.Undecided, TypeError, ValueError, IndexError):
                    continue
                need = any(requested(tr, o, lst) for o in TRACES
                           if o[:2] != tr[:2])
                if need:
                    ctx.ob('stations', '%s.%s for %s in %s' % (
                        tr[0], tr[1], ' '.join(lst), e.name), kept,
                        'the data of a station of a requested combination '
                        'is not read', e.where())
    for c in ast.walk(f.node):
        if isinstance(c, ast.If) and any(isinstance(x, ast.Return)
                                         for x in c.body):
            break
    else:
        if not any(isinstance(c, ast.If) for c in ast.walk(f.node)):
            ctx.ob('stations', 'other methods', False,
                   'stations are removed without a list of requested '
                   'combinations', '%s:%d' % (f.qual, f.node.lineno))


def distance(ctx):
    """Pairs selected by their distance."""
    p = ctx.p
    f = opt(p, K + 'Correlator.find_interstat_dist')
    if f is None:
        return

    def isseq(t):
        return show(unsort(t)) == 'self.station'
    i = Interp(p, budget=60000, no_inline=quals(
        p, 'utils.miic_utils.filter_stat_dist'), distinct=lambda t: isseq(
            t) or t.op == 'item' and isseq(t.args[0]))
    st = State()
    i.run(f, {}, i.param(st, 'self', f.cls.qual, None), st)
    ctx.saw(i)
    n = len(STATIONS)

    def mk(cur, near=True):
        def leaf(t):
            if t.op == 'elem' and len(t.args) > 1 and t.args[1] in cur:
                if is_call(unsort(t.args[0]), 'range'):
                    return cur[t.args[1]]
                d = unsort(t.args[0])
                return list(STATIONS[cur[t.args[1]] + (
                    start(d, leaf) if d.op == 'item' else 0)])
            if t.op == 'index' and len(t.args) > 1 and t.args[1] in cur:
                return cur[t.args[1]]
            if t.op == 'item' and isseq(t.args[0]) and \
                    t.args[1].op != 'slice':
                return list(STATIONS[MD.ev(t.args[1], leaf)])
            if is_call(t, 'len') and isseq(t.args[1]):
                return n
            if is_call(t, 'filter_stat_dist'):
                who = [{tuple(MD.ev(y, leaf) for y in x.args[1:3])
                        for x in walk(a) if is_call(
                            x, 'select_inventory_or_load_remote')}
                       for a in t.args[1:3]]
                leaf.asked = who
                return near
            return text(t, leaf)
        leaf.asked = None
        return leaf
    for e in i.events:
        if e.kind != 'call' or e.name != '.append' or not e.argts:
            continue
        syms = [x for y in [e.argts[-1]] + [c.t for c in e.pc]
                for x in walk(y) if x.op in ('index', 'elem')
                and len(x.args) > 1]
        pc = [c for c in e.pc if 'station' in show(c.t, 20)
              and c.t.op != 'iter']
        got = []
        try:
            for cur in assignments(syms, n, mk, isseq):
                leaf, far = mk(cur), mk(cur, False)
                d, d2 = P.decided(pc, leaf), P.decided(pc, far)
                if d is None:
                    raise MD.Undecided(e.argts[-1])
                s = MD.ev(e.argts[-1], leaf)
                if d:
                    got.append(s)
                if d and d2:
                    ctx.ob('distance', 'limit', False, 'a pair is taken '
                           'whatever its distance', e.where())
                if leaf.asked and all(len(x) == 1 for x in leaf.asked):
                    ab = {next(iter(x)) for x in leaf.asked}
                    k = s.split('.')
                    ns = zip(k[0].split('-'), k[1].split('-'))
                    ctx.ob('distance', 'names', ab == set(ns),
                           'the pair %s is named by the distance of other '
                           'stations' % s, e.where())
        except (MD.Undecided, TypeError, ValueError, IndexError):
            continue
        for x, y in itertools.combinations(STATIONS, 2):
            ctx.ob('distance', '%s.%s and %s.%s' % (x + y), any(
                requested(x + ('',), y + ('',), [s]) for s in got
                if s.count('.') == 1),
                'two stations within the distance are not correlated',
                e.where())


# ---------------------------------------------------------- indices in step
def reordered(e):
    """The list that is gone through, in whatever order."""
    while True:
        if isinstance(e, ast.Call) and e.args and (
                e.func.attr if isinstance(e.func, ast.Attribute) else
                getattr(e.func, 'id', '')) in (
                    'flip', 'reversed', 'sorted', 'list', 'tuple', 'sort',
                    'enumerate', 'asarray', 'array'):
            e = e.args[0]
        elif isinstance(e, ast.Call) and not e.args and isinstance(
                e.func, ast.Attribute) and e.func.attr in (
                    'tolist', 'copy'):
            e = e.func.value
        elif isinstance(e, ast.Subscript) and isinstance(
                e.slice, ast.Slice) and e.slice.lower is None and \
                e.slice.upper is None:
            e = e.value
        else:
            return e


class Step:
    """Whether the pairs belong to the traces as they are now.

    (fresh | stale, name of the list whose emptiness kept it fresh)
    """
    def __init__(self, p, f, g):
        self.p, self.f, self.g = p, f, g
        self.bad = []
        self.win = set()
        self.seen = False
        self.depth = 0

    def computes(self, e, depth=0):
        """A call that computes the combinations."""
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Name) and n.func.id == self.g.name:
                return True
            if depth < 3:
                h = self.target(n)
                if h is not None and h is not self.f and any(
                        self.computes(s, depth + 1) for s in h.node.body):
                    return True
        return False

    def target(self, c):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and fn.value.id == 'self' and \
                self.f.cls is not None:
            return self.p.method(self.f.cls, fn.attr)
        if isinstance(fn, ast.Name):
            return self.f.module.funcs.get(fn.id)
        return None

    def mentions(self, e):
        return any(isinstance(n, ast.Name) and n.id in self.win
                   for n in ast.walk(e))

    @staticmethod
    def counted(t):
        """(name, truth if not empty) of a test of a list."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = Step.counted(t.operand)
            return r and (r[0], not r[1])
        pol = True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.comparators[0], ast.Constant):
            k = (type(t.ops[0]).__name__, t.comparators[0].value)
            if k in (('Gt', 0), ('NotEq', 0), ('GtE', 1)):
                pass
            elif k in (('Eq', 0), ('Lt', 1), ('LtE', 0)):
                pol = False
            else:
                return None
            t = t.left
        if isinstance(t, ast.Call) and isinstance(
                t.func, ast.Name) and t.func.id in (
                    'len', 'any', 'bool') and t.args:
            t = t.args[0]
        elif isinstance(t, ast.Attribute) and t.attr == 'size':
            t = t.value
        elif not isinstance(t, ast.Name):
            return None
        return (t.id, pol) if isinstance(t, ast.Name) else None

    def drops(self, e):
        """A helper removes traces of the window: which result says so?

        None: no;  (): it may have;  (True,): it has if the result is true
        """
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            h = self.target(n)
            if h is None or h is self.f or h is self.g:
                continue
            ps = h.params[1:] if h.cls is not None and not h.is_static \
                else h.params
            for a, q in zip(n.args, ps):
                if not (isinstance(a, ast.Name) and a.id in self.win):
                    continue
                w = Step(self.p, h, self.g)
                w.win = {q}
                w.depth = self.depth + 1
                if w.depth > 3 or self.computes(
                        ast.Module(h.node.body, [])):
                    continue
                r = w.block(h.node.body, {('fresh', ())})
                outs = r['return'] | r['next']
                if all(y[0] == 'fresh' for y in outs):
                    continue
                told = all(dict(y[1]).get('?') == (y[0] == 'stale')
                           for y in outs)
                return (True,) if told else ()
        return None

    def change(self, s):
        return ('stale', s[1])

    def acts(self, t):
        """(first operand that does something, (is `and`, True, rest))"""
        if isinstance(t, ast.BoolOp):
            a = t.values[0]
            r = t.values[1] if len(t.values) == 2 else ast.copy_location(
                ast.BoolOp(t.op, t.values[1:]), t)
            if self.computes(a) or self.drops(a) is not None or any(
                    self.computes(v) or self.drops(v) is not None
                    for v in t.values[1:]):
                return a, (isinstance(t.op, ast.And), True, r)
            return None, None
        if self.computes(t) or self.drops(t) is not None:
            return t, None
        return None, None

    def act(self, t, x):
        """[(truth, state)] after the operand was evaluated."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(not k, y) for k, y in self.act(t.operand, x)]
        if self.computes(t):
            return [(k, ('fresh', x[1])) for k in (True, False)]
        d = self.drops(t)
        if d is not None:
            if d and isinstance(t, ast.Call):
                return [(True, self.change(x)), (False, x)]
            return [(k, self.change(x)) for k in (True, False)]
        c = self.counted(t)
        if c is None:
            return [(k, x) for k in (True, False)]
        known = dict(x[1]).get(c[0])
        return [(k, (x[0], put(x[1], c[0], k == c[1])))
                for k in (True, False) if known in (None, k == c[1])]

    def block(self, body, states):
        o = {k: set() for k in ('next', 'break', 'continue', 'return')}
        o['next'] = set(states)
        for s in body:
            cur, o['next'] = o['next'], set()
            for x in cur:
                for k, v in self.stmt(s, x).items():
                    o[k] |= v
        return o

    def stmt(self, s, x):
        o = {k: set() for k in ('next', 'break', 'continue', 'return')}
        if isinstance(s, ast.If):
            first, rest = self.acts(s.test)
            if first is not None:
                # the test itself changes or computes something
                for k, y in self.act(first, x):
                    t = ast.Constant(k)
                    if rest is not None and rest[0] is (k == rest[1]):
                        t = rest[2]
                    if isinstance(t, ast.Constant):
                        bs = s.body if t.value else s.orelse
                        rr = self.block(bs, {y})
                    else:
                        rr = self.stmt(ast.copy_location(
                            ast.If(t, s.body, s.orelse), s), y)
                    for kk, v in rr.items():
                        o[kk] |= v
                return o
            rank = 'rank' in ast.unparse(s.test)
            comp = [any(self.computes(y) for y in b)
                    for b in (s.body, s.orelse)]
            c = self.counted(s.test)
            for k, b in ((True, s.body), (False, s.orelse)):
                if rank and any(comp) and not comp[0 if k else 1]:
                    continue
                y = x
                if c is not None:
                    known = dict(x[1]).get(c[0])
                    if known is not None and known != (k == c[1]):
                        continue
                for kk, v in self.block(b, {y}).items():
                    o[kk] |= v
            return o
        if isinstance(s, (ast.For, ast.While)):
            it = reordered(s.iter) if isinstance(s, ast.For) else None
            if isinstance(it, ast.Name):
                nm = it.id
                seen, work, out = set(), {(x[0], put(x[1], nm, True))}, set()
                while work:
                    y = work.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    r = self.block(s.body, {y})
                    work |= r['next'] | r['continue']
                    out |= r['next'] | r['continue'] | r['break']
                    o['return'] |= r['return']
                o['next'] = out | {(x[0], put(x[1], nm, False))}
                return o
            seen, work, out = set(), {x}, {x}
            while work:
                y = work.pop()
                if y in seen:
                    continue
                seen.add(y)
                r = self.block(s.body, {y})
                work |= r['next'] | r['continue']
                out |= r['next'] | r['continue'] | r['break']
                o['return'] |= r['return']
            o['next'] = out
            return o
        if isinstance(s, ast.Try):
            r = self.block(s.body, {x})
            for k, v in r.items():
                o[k] |= v
            for h in s.handlers:
                for k, v in self.block(h.body, {x} | r['next']).items():
                    o[k] |= v
            if s.orelse:
                q = self.block(s.orelse, o['next'])
                o['next'] = q.pop('next')
                for k, v in q.items():
                    o[k] |= v
            if s.finalbody:
                o['next'] = self.block(s.finalbody, o['next'])['next']
            return o
        if isinstance(s, ast.With):
            return self.block(s.body, {x})
        if isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return):
                c = s.value
                if isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Name) and c.func.id == 'bool' and c.args:
                    c = c.args[0]
                if isinstance(c, ast.Constant):
                    x = (x[0], put(x[1], '?', bool(c.value)))
                    o['return'] = {x}
                    return o
                c = c is not None and self.counted(c)
                for k in (True, False):
                    if c and dict(x[1]).get(c[0]) in (None, k):
                        o['return'] |= {(x[0], put(
                            x[1], '?', k == c[1]))}
                    elif not c:
                        o['return'] = {x}
            return o
        if isinstance(s, ast.Continue):
            o['continue'] = {x}
            return o
        if isinstance(s, ast.Break):
            o['break'] = {x}
            return o
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and isinstance(
                    s.value, ast.Call) and s.targets[0].id not in self.win:
            d = self.drops(s.value)
            if d is not None and not self.computes(s.value):
                n = s.targets[0].id
                y = self.change(x)
                o['next'] = {
                    (y[0], put(x[1], n, True)), (x[0], put(x[1], n, False))
                } if d else {(y[0], put(x[1], n, None))}
                return o
        o['next'] = {self.simple(s, x)}
        return o

    def simple(self, s, x):
        for y in ast.walk(s):
            if isinstance(y, ast.Yield):
                if y.value is not None and self.mentions(y.value):
                    self.seen = True
                    if x[0] == 'stale':
                        self.bad.append(('%s:%d' % (
                            self.f.qual, s.lineno), x))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return x
        if self.computes(s):
            return ('fresh', x[1])
        if isinstance(s, ast.Expr) and self.drops(s) is not None:
            x = self.change(x)
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    x = (x[0], put(x[1], t.id, None))
                    if t.id in self.win and not keeps(s.value):
                        x = self.change(x)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and self.mentions(t.value):
                    x = self.change(x)
        if isinstance(s, ast.Expr) and isinstance(
                s.value, ast.Call) and isinstance(
                s.value.func, ast.Attribute) and isinstance(
                s.value.func.value, ast.Name) and \
                s.value.func.value.id in self.win and \
                s.value.func.attr in ('pop', 'remove', 'append', 'extend',
                                      'insert', 'reverse', 'clear'):
            x = self.change(x)
        return x


KEEP = ('merge', 'trim', 'detrend', 'taper', 'filter', 'copy', 'sort')


def keeps(e):
    """The traces keep their number and order."""
    return isinstance(e, ast.Call) and isinstance(
        e.func, ast.Attribute) and e.func.attr in KEEP


def put(facts, k, v):
    d = {a: b for a, b in facts if a != k}
    if v is not None:
        d[k] = v
    return tuple(sorted(d.items()))


def in_step(ctx):
    p = ctx.p
    f = opt(p, K + 'Correlator._generate_data')
    g = opt(p, K + 'calc_cross_combis')
    if f is None or g is None:
        return
    w = Step(p, f, g)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == g.name:
                a = n.args[0] if n.args else None
                if isinstance(a, ast.Name):
                    w.win.add(a.id)
            elif w.target(n) is not None and w.computes(n):
                w.win |= {a.id for a in n.args if isinstance(a, ast.Name)}
    if not w.win:
        return
    w.block(f.node.body, {('stale', ())})
    ctx.funcs.add(f.qual)
    if w.seen:
        ctx.ob('indices', f.qual, not w.bad,
               'the pairs are those of the traces before some of them were '
               'removed or processed', w.bad[0][0] if w.bad else
               '%s:%d' % (f.qual, f.node.lineno))
    # the same method and the same requested list everywhere
    for h in p.all_funcs():
        if h.module is not f.module:
            continue
        for n in ast.walk(h.node):
            if not (isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == g.name):
                continue
            a = dict(zip(g.params, n.args))
            a.update({k.arg: k.value for k in n.keywords})
            where = '%s:%d' % (h.qual, n.lineno)
            if None in a:
                continue
            m, r = a.get(g.params[2]), a.get(g.params[3])
            ctx.ob('requested', 'method', m is not None and not isinstance(
                m, ast.Constant), 'the pairs are those of a fixed method',
                where)
            ctx.ob('requested', 'list', r is not None and not isinstance(
                r, ast.Constant), 'the requested combinations are not '
                'passed on', where)


def run(ctx):
    ctx.rule('pairs', 'each method takes exactly the pairs that define it, '
             'each once, restricted to the requested ones')
    ctx.rule('requested', 'a requested combination names exactly its own '
             'pair, in either order, with or without channels')
    ctx.rule('look-up', 'existing correlations are looked up for exactly '
             'the combinations of the run')
    ctx.rule('stations', 'the data of every station of a requested '
             'combination is read')
    ctx.rule('distance', 'a pair within the distance is requested under '
             'its own name')
    ctx.rule('indices', 'pairs are computed again whenever the traces '
             'change')
    cross(ctx)
    is_requested(ctx)
    combos(ctx)
    stations(ctx)
    distance(ctx)
    in_step(ctx)
