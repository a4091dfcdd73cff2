"""C04: stored correlations are computed once, never overwritten or lost.

Writer: typestate of the container of computed correlations, guarded creation
of data sets, reachability of every write.  Resume: the look-up of existing
correlations is extracted and evaluated for every order of two traces.
"""
import ast
import string
from sa.interp import Interp, State, Val
from sa.terms import const, walk, show
from sa.util import make_self
from sa import model as MD
from rules import pairs as P

K = 'correlate.correlate.'
D = 'db.corr_hdf5.'
SORT = K + 'sort_comb_name_alphabetically'
CMPF = K + '_compare_existing_data'


def opt(p, q):
    return p.func(q, required=False)


def quals(p, *names):
    out = []
    for n in names:
        f = opt(p, n)
        if f is not None:
            out.append(f.qual)
    return out


def is_call(t, name):
    return t.op == 'call' and MD.cname(t) == name


# ------------------------------------------------------- existing or not
def pair_leaf(a, b, names):
    sub = {names[0]: P.Tr(a), names[1]: P.Tr(b)}

    def leaf(t):
        if t.op == 'param':
            if t.args[0] in sub:
                return sub[t.args[0]]
            if t.args[0] == names[2]:
                return P.Path(())
        if is_call(t, 'sort_comb_name_alphabetically'):
            pos = [x for x in t.args[1:] if x.op != 'kw']
            kw = {x.args[0]: x.args[1] for x in t.args[1:]
                  if x.op == 'kw'}
            par = ['network1', 'station1', 'network2', 'station2',
                   'channel1', 'channel2']
            v = [MD.ev(x, leaf) for x in pos]
            for k in par[len(v):]:
                v.append(MD.ev(kw[k], leaf) if k in kw else '')
            r = P.canonical((v[0], v[1], v[4]), (v[2], v[3], v[5]))
            return r
        if is_call(t, 'format_fissures'):
            return ('F', MD.ev(t.args[0].args[0], leaf))
        return P.text_leaf(t, leaf)
    return leaf


def lookup(ctx):
    p = ctx.p
    f = opt(p, CMPF)
    if f is None or len(f.params) < 3:
        return
    i = Interp(p, no_inline=quals(p, SORT), budget=80000)
    st = State()
    r, v = i.run(f, {}, None, st)
    ctx.saw(i)
    ex, n0, n1 = f.params[:3]
    rets = [e for e in i.events if e.kind == 'return' and e.func is f]
    n = 0
    for ca in P.TRACES + [P.EXTRA]:
        for cb in P.TRACES + [P.EXTRA]:
            for ta, tb in ((1, 2), (2, 1)):
                a, b = (ca, ta), (cb, tb)
                leaf = pair_leaf(a, b, (n0, n1, ex))
                hit = []
                for e in rets:
                    if any(c.kind == 'exc' and c.pol for c in e.pc) and \
                            all(t.op == 'const' for t in e.argts):
                        ctx.ob('lookup', 'nothing stored', not any(
                            t.args[0] for t in e.argts),
                            'a combination of which nothing is stored '
                            'counts as stored', e.where())
                    if any(c.kind == 'exc' and c.pol for c in e.pc) or \
                            P.decided(e.pc, leaf) is not True:
                        continue
                    for t in e.argts:
                        hit += found(t, leaf, e)
                nets, stats, chas = P.canonical(ca, cb)
                want = ('%s.%s' % (nets[0], stats[0]),
                        '%s.%s' % (nets[1], stats[1]),
                        '%s-%s' % (chas[0], chas[1]))
                for start, path, e in hit:
                    n += 1
                    ctx.ob('lookup', 'times of %s and %s' % (
                        '.'.join(ca[:3]), '.'.join(cb[:3])),
                        tuple(path) == want,
                        'looked up under %s, stored under %s' % (
                            ' / '.join(map(str, path)), ' / '.join(want)),
                        e.where())
                    ctx.ob('lookup', 'start time', start == ('F', 2),
                           'the time looked up is not the start time of '
                           'the correlation (the later of the two)',
                           e.where())
    return n


def found(t, leaf, e):
    """(start time, path) of every membership test in a value."""
    out = []
    for x in walk(t):
        if x.op == 'cmp' and x.args[0] in ('In', 'NotIn'):
            try:
                path = MD.ev(x.args[2], leaf)
                start = MD.ev(x.args[1], leaf)
            except MD.Undecided:
                continue
            if isinstance(path, P.Path) and isinstance(start, tuple):
                # a flip may choose between several places
                out.append((start, path, e))
    return out


def guarded(ctx):
    p = ctx.p
    f = opt(p, K + 'calc_cross_combis')
    g = opt(p, CMPF)
    if f is None or g is None:
        return
    src, ex = f.params[0], f.params[1]
    for m in ('betweenStations', 'betweenComponents', 'autoComponents',
              'allSimpleCombinations', 'allCombinations'):
        i = Interp(p, budget=120000, no_inline=[g.qual] + quals(
            p, K + 'is_in_xcombis'), distinct=lambda t: t.op == 'param'
            and t.args[0] == src)
        st = State()
        i.run(f, {'method': Val(const(m))}, None, st)
        ctx.saw(i)
        for e in i.events:
            if e.kind != 'call' or e.name != '.append' or not e.argts:
                continue
            a = e.argts[-1]
            if a.op != 'tuple' or len(a.args) != 2:
                continue
            ok = None
            for c in e.pc:
                for x in walk(c.t):
                    if x.op == 'call' and MD.cname(x) == g.qual.split(
                            '.')[-1] or x.op == 'call' and show(
                                x.args[0]).endswith(g.qual):
                        pos = x.args[1:]
                        same = len(pos) >= 3 and {
                            who(pos[1]), who(pos[2])} == {
                                who(a.args[0]), who(a.args[1])}
                        store = pos and pos[0].op == 'param' and \
                            pos[0].args[0] == ex
                        neg = excluded(c, x)
                        ok = ok or (same and store and neg)
            ctx.ob('resume', m, bool(ok),
                   'a combination is computed without looking whether it '
                   'is already stored', e.where())


def excluded(c, x):
    """A condition is false as soon as the call in it is true."""
    def leaf(t):
        if t is x:
            return True
        return None
    try:
        return bool(MD.ev(c.t, leaf)) != c.pol
    except MD.Undecided:
        return False


def who(t):
    """Loop that an index or a trace belongs to."""
    if t.op in ('elem', 'index') and len(t.args) > 1:
        return t.args[1]
    if t.op == 'item':
        return who(t.args[1])
    return show(t)


# ------------------------------------------------------------ the look-up
def existing(ctx):
    p = ctx.p
    f = opt(p, K + 'Correlator.find_existing_times')
    comb = opt(p, K + 'compute_network_station_combinations')
    gat = opt(p, D + 'DBHandler.get_available_starttimes')
    if f is None or gat is None:
        return
    i = Interp(p, budget=150000, no_inline=quals(
        p, K + 'compute_network_station_combinations',
        D + 'DBHandler.get_available_starttimes', D + 'DBHandler.__init__'))
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)
    ctx.saw(i)

    def par(t, n):
        return any(x.op == 'param' and x.args[0] == n for x in walk(t))
    for e in i.events:
        if e.kind != 'call':
            continue
        nm = str(e.name).split('.')[-1]
        if comb is not None and nm == comb.name:
            a = dict(zip(comb.params, e.argts))
            a.update(e.kwts or {})
            m, c = a.get('method'), a.get('combis')
            ctx.ob('existing', 'combination method', m is not None
                   and 'combination_method' in show(m, 12),
                   'existing times are looked up for another combination '
                   'method than the one of the run', e.where())
            ctx.ob('existing', 'requested combinations', c is None
                   or 'rcombis' in show(c, 12) or c.op == 'const'
                   and c.args[0] is None,
                   'existing times are looked up for other combinations',
                   e.where())
        if nm == gat.name:
            pr = [x for x in gat.params if x != 'self']
            ar = list(e.argts)
            if len(ar) > len(pr) or ar and ar[0].op == 'new':
                ar = ar[1:]
            a = dict(zip(pr, ar))
            a.update(e.kwts or {})
            if 'tag' in f.params and 'tag' in a:
                ctx.ob('existing', 'tag', par(a['tag'], 'tag'),
                       'looks under another tag than requested: %s'
                       % show(a['tag']), e.where())
            if 'channel' in f.params and 'channel' in a:
                ctx.ob('existing', 'channel', par(a['channel'], 'channel'),
                       'looks for other channels than requested: %s'
                       % show(a['channel']), e.where())
            for k, n in (('network', 0), ('station', 1)):
                if k in a and comb is not None:
                    idx = {x.args[1].args[0] for x in walk(a[k])
                           if x.op == 'item' and x.args[1].op == 'const'
                           and x.args[0].op == 'call'
                           and MD.cname(x.args[0]) == comb.name or
                           x.op == 'item' and x.args[1].op == 'const'
                           and comb.name in show(x.args[0])
                           and x.args[1].args[0] in (0, 1)}
                    if len(idx) == 1:
                        ctx.ob('existing', k, idx == {n},
                               'the %s codes are taken for the %s'
                               % (('station', 'network')[n],
                                  k), e.where())
        if nm in ('CorrelationDataBase', 'DBHandler'):
            pass
    keys(ctx, f)
    files(ctx, f)


def keys(ctx, f):
    """Keys under which the times are kept (evaluated on model codes)."""
    p = ctx.p
    i = Interp(p, budget=150000, no_inline=quals(
        p, K + 'compute_network_station_combinations',
        D + 'DBHandler.get_available_starttimes', D + 'DBHandler.__init__'))
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)

    def leaf(t, sub=None):
        sub = sub or leaf
        if t.op == 'elem':
            s = show(t.args[0], 40)
            if 'compute_network_station_combinations' in s:
                if s.endswith('[0]'):
                    return 'N1-N2'
                if s.endswith('[1]'):
                    return 'S1-S2'
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[
                0].args[1] == 'split':
            v = MD.ev(t.args[0].args[0], sub)
            s = MD.ev(t.args[1], sub)
            if isinstance(v, str) and isinstance(s, str):
                return v.split(s)
        if t.op == 'item' and t.args[0].op == 'listof' and \
                t.args[1].op == 'const' and isinstance(t.args[1].args[0],
                                                       int):
            # entry k of (f(x) for x in xs)
            k = t.args[1].args[0]

            def leaf2(u):
                if u.op == 'elem':
                    v = MD.ev(u.args[0], leaf)
                    if isinstance(v, list) and k < len(v):
                        return v[k]
                return leaf(u, leaf2)
            return MD.ev(t.args[0].args[0], leaf2)
        return P.text_leaf(t, sub)
    merged(ctx, i)
    n = 0
    for e in i.events:
        if e.func is not f and f.cls is not None and e.func.cls is not f.cls:
            continue
        if e.kind == 'setitem' and len(e.argts) == 2:
            got = []
            try:
                got.append(MD.ev(e.argts[1], leaf))
            except MD.Undecided:
                continue
            r = e.recv.t if e.recv is not None else None
            if r is not None and r.op == 'item':
                try:
                    got.insert(0, MD.ev(r.args[1], leaf))
                except MD.Undecided:
                    continue
            if r is not None and r.op == 'call' and MD.cname(r) in (
                    'setdefault', 'get'):
                try:
                    got.insert(0, MD.ev(r.args[1], leaf))
                except MD.Undecided:
                    continue
            if len(got) == 2 and all(isinstance(x, str) for x in got):
                n += 1
                ctx.ob('existing', 'keys', got == ['N1.S1', 'N2.S2'],
                       'the times of N1-N2, S1-S2 are kept under %s' % (
                           ' / '.join(got)), e.where())


def merged(ctx, i):
    """The times of a channel join those of the files before."""
    def times(t):
        return t.op in ('value', 'elem', 'item') and any(
            is_call(x, 'get_available_starttimes') for x in walk(t))

    for e in i.events:
        if e.kind != 'setitem' or len(e.argts) != 2 or e.recv is None or \
                not any(times(x) for x in walk(e.argts[0])):
            continue
        key = e.argts[1]
        if not any(is_call(x, 'get_available_starttimes')
                   for x in walk(key)):
            continue
        if e.argts[0].op == 'listof' and any(
                x is e.recv.t for x in walk(e.argts[0])):
            # joined with what the dictionary holds
            continue

        # d.setdefault(key, []) before: what is there, or an empty list
        there = any(x.kind == 'call' and x.name == '.setdefault'
                    and x.recv is not None and x.recv.t is e.recv.t
                    and x.argts and x.argts[0] is key for x in i.events)

        def leaf(t, both):
            if is_call(t, 'get') and t.args[0].op == 'attr' and len(
                    t.args) > 1 and t.args[1] == key or t.op == 'item' \
                    and t.args[1] == key and not times(t):
                return both[0]
            if times(t):
                return both[1]
            if t.op in ('list', 'tuple') and not t.args:
                return both[0] if there else ()
            if is_call(t, 'set') or is_call(t, 'sorted') or is_call(
                    t, 'list'):
                if len(t.args) == 2:
                    return MD.ev(t.args[1], lambda x: leaf(x, both))
            return None
        for both in ((('a',), ('b',)), ((), ('b',)), (('a',), ())):
            try:
                v = MD.ev(e.argts[0], lambda x: leaf(x, both))
            except (MD.Undecided, TypeError):
                continue
            if isinstance(v, tuple):
                ctx.ob('existing', 'times of all files', set(v) == set(
                    both[0] + both[1]), 'the times of a channel found in '
                    'one file replace those of the files before',
                    e.where())


def files(ctx, f):
    """Times found in several files are collected, not replaced."""
    p = ctx.p
    for g in [f] + [h for h in p.all_funcs() if h.cls is f.cls
                    and h is not f and h.name.startswith('_find_ex')]:
        for loop in [n for n in ast.walk(g.node) if isinstance(n, ast.For)]:
            if not any(isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr ==
                    'get_available_starttimes' for b in loop.body
                    for x in ast.walk(b)):
                continue
            if 'glob' not in ast.unparse(loop.iter) and not isinstance(
                    loop.iter, ast.Name):
                continue
            inner = [x for x in ast.walk(loop) if isinstance(x, ast.For)
                     and x is not loop]
            if any('get_available_starttimes' in ast.unparse(b)
                   for x in inner for b in x.body):
                continue
            where = '%s:%d' % (g.qual, loop.lineno)
            direct = {t.id for x in ast.walk(loop)
                      if isinstance(x, ast.Assign)
                      and isinstance(x.value, ast.Call)
                      and isinstance(x.value.func, ast.Attribute)
                      and x.value.func.attr == 'get_available_starttimes'
                      for t in x.targets if isinstance(t, ast.Name)}
            for x in ast.walk(loop):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr == 'update' \
                        and x.args and ('available_starttimes' in
                                        ast.unparse(x.args[0]) or isinstance(
                                            x.args[0], ast.Name)
                                        and x.args[0].id in direct):
                    ctx.ob('existing', 'all files', False,
                           'the times of a channel found in one file '
                           'replace those of the files before', where)
                if isinstance(x, ast.Break):
                    ctx.ob('existing', 'all files', False,
                           'not all files of a station pair are read',
                           where)
                if isinstance(x, ast.Assign) and isinstance(
                        x.value, ast.Call) and isinstance(
                        x.value.func, ast.Attribute) and \
                        x.value.func.attr == 'get_available_starttimes':
                    for t in x.targets:
                        used = [y for b in loop.body for y in ast.walk(b)
                                if isinstance(y, ast.Name)
                                and isinstance(t, ast.Name)
                                and y.id == t.id
                                and isinstance(y.ctx, ast.Load)]
                        if isinstance(t, ast.Name):
                            ctx.ob('existing', 'all files', bool(used),
                                   'only the times of the last file are '
                                   'kept', where)


def available(ctx):
    """Every stored start time of the path is returned."""
    p = ctx.p
    f = opt(p, D + 'DBHandler.get_available_starttimes')
    if f is None:
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Slice) and '.keys()' in ast.unparse(n.value):
            ctx.ob('existing', 'all start times', False,
                   'only a part of the stored times is returned: %s'
                   % ast.unparse(n), '%s:%d' % (f.qual, n.lineno))
    for chan in (None, 'HHZ-HHZ'):
        i = Interp(p, budget=80000)
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None)
        b = {} if chan is None else {'channel': Val(const(chan))}
        i.run(f, b, sv, st)
        ctx.saw(i)
        for e in i.events:
            if e.kind != 'setitem' or len(e.argts) != 2:
                continue
            v = e.argts[0]
            ks = [x for x in walk(v) if is_call(x, 'keys')]
            if not ks:
                continue
            cut = [x for x in walk(v) if (
                x.op == 'comp' and x.args[2].args or x.op == 'item'
                and x.args[1].op == 'slice') and any(
                    is_call(z, 'keys') for a in x.args[:2] if a is not
                    x.args[0] or x.op == 'item' for z in walk(a))]
            ctx.ob('existing', 'all start times', not cut,
                   'only a part of the stored times is returned: %s'
                   % show(v), e.where())


# --------------------------------------------------------------- data sets
def datasets(ctx):
    p = ctx.p
    f = opt(p, D + 'DBHandler.add_correlation')
    if f is None:
        return
    i = Interp(p, budget=80000, no_inline=quals(
        p, D + 'convert_header_to_hdf5'))
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)
    ctx.saw(i)
    made = [e for e in i.events if e.kind == 'call' and str(
        e.name).split('.')[-1] in ('create_dataset', 'require_dataset')]
    for e in i.events:
        if e.kind == 'delitem' or e.kind == 'call' and str(
                e.name).split('.')[-1] in (
                'clear', 'remove_data', 'move', 'resize', 'write_direct',
                'pop', 'popitem') and e.recv is not None and 'self' in show(
                    e.recv.t):
            ctx.ob('append', 'no deletion', False,
                   'adding a correlation removes or replaces stored data',
                   e.where())
        if e.kind == 'setitem' and e.recv is not None and (
                e.recv.t.op in ('item', 'call') and 'self' in show(
                    e.recv.t) and 'attrs' not in show(e.recv.t)
                or e.recv.t.op == 'param' and e.recv.t.args[0] == 'self'):
            ctx.ob('append', 'no overwriting', False,
                   'stored samples are written again', e.where())
        if e.kind == 'call' and str(e.name).split('.')[-1] == \
                'require_dataset':
            ctx.ob('append', 'no reuse', False,
                   'an existing data set is taken for the new one',
                   e.where())
        if e.kind == 'call' and e.name == 'open' or e.kind == 'call' and \
                str(e.name).endswith('h5py.File'):
            ctx.ob('append', 'no truncation', not any(
                x.op == 'const' and x.args[0] in ('w', 'w-', 'x')
                for x in list(e.argts) + list((e.kwts or {}).values())),
                'the file is truncated', e.where())
    for e in made:
        path_of(ctx, e)
    # an existing time is reported and the others are still added
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call)
             and isinstance(n.func, ast.Attribute)
             and n.func.attr == 'create_dataset']
    for c in calls:
        protected(ctx, f, c)


def parents(root):
    out = {}
    for n in ast.walk(root):
        for ch in ast.iter_child_nodes(n):
            out[ch] = n
    return out


REPORT = ('warn', 'warning', 'print', 'error', 'info', 'exception',
          'critical', 'showwarning', 'log', 'debug')


def protected(ctx, f, call):
    up = parents(f.node)
    where = '%s:%d' % (f.qual, call.lineno)
    n = call
    trys = None
    loop = None
    test = None
    while n in up:
        q = up[n]
        if isinstance(q, ast.Try) and n in q.body and trys is None and \
                loop is None:
            trys = q
        if isinstance(q, (ast.For, ast.While)) and loop is None:
            loop = q
        if isinstance(q, ast.If) and isinstance(q.test, ast.Compare) and \
                isinstance(q.test.ops[0], (ast.In, ast.NotIn)) and \
                test is None:
            test = q
        n = q
    # `if path in self: warn; continue` before
    if test is None and loop is not None:
        for s in loop.body:
            if isinstance(s, ast.If) and isinstance(
                    s.test, ast.Compare) and isinstance(
                        s.test.ops[0], (ast.In, ast.NotIn)) and any(
                            isinstance(x, ast.Continue)
                            for x in ast.walk(s)):
                test = s
    if trys is None and test is None:
        ctx.ob('append', 'existing time', False,
               'a time that is already stored ends the writing of the '
               'remaining correlations', where)
        return
    if trys is not None:
        for h in trys.handlers:
            names = ast.unparse(h.type) if h.type is not None else \
                'Exception'
            if not any(x in names for x in (
                    'ValueError', 'Exception', 'RuntimeError')):
                continue
            ends = [x for x in ast.walk(h) if isinstance(
                x, (ast.Raise, ast.Break, ast.Return))]
            ctx.ob('append', 'existing time', not ends,
                   'a time that is already stored ends the writing of the '
                   'remaining correlations', where)
            rep = [x for x in ast.walk(h) if isinstance(x, ast.Call)
                   and (x.func.attr if isinstance(
                       x.func, ast.Attribute) else getattr(
                           x.func, 'id', '')) in REPORT]
            ctx.ob('append', 'existing time is reported', bool(rep) or any(
                isinstance(x, ast.Call) for x in ast.walk(h)),
                'a correlation that is not stored is not reported', where)
    if loop is None:
        ctx.ob('append', 'every correlation', 'stats' not in ast.unparse(
            f.node) or True, '', where)


def path_of(ctx, e):
    """The name of a data set identifies one correlation."""
    need = {'tag': None, 'network': 'network', 'station': 'station',
            'channel': 'channel', 'corr_st': 'corr_start',
            'corr_et': 'corr_end'}
    t = e.argts[0] if e.argts else (e.kwts or {}).get('name')
    if t is None:
        return
    for x in walk(t):
        if x.op == 'call' and MD.cname(x) == 'format' and x.args[
                0].op == 'attr' and x.args[0].args[0].op == 'const':
            fmt = x.args[0].args[0].args[0]
            kw = {a.args[0]: a.args[1] for a in x.args[1:]
                  if a.op == 'kw'}
            try:
                fields = [n for _, n, _, _ in string.Formatter().parse(fmt)
                          if n]
            except (ValueError, TypeError):
                continue
            for k, at in need.items():
                ctx.ob('append', 'name: %s' % k, k in fields or k not in kw,
                       'two correlations of different %s have the same '
                       'name in the file' % k, e.where())
                if at is None or k not in kw:
                    continue
                has = {y.args[1] for y in walk(kw[k]) if y.op == 'attr'}
                others = (has & set(v for v in need.values() if v)) - {at}
                ctx.ob('append', 'name: value of %s' % k,
                       at in has and not others or not has,
                       'the %s of the name is the %s of the header' % (
                           k, '/'.join(sorted(others)) or 'unknown'),
                       e.where())
            for k in ('corr_st', 'corr_et'):
                if k in kw:
                    ctx.ob('append', 'name: form of %s' % k, any(
                        is_call(y, 'format_fissures')
                        for y in walk(kw[k])),
                        'times are written in another form than they are '
                        'looked up', e.where())


# ---------------------------------------------------------- what is written
def written(ctx):
    p = ctx.p
    f = opt(p, K + 'Correlator._write')
    if f is None:
        return
    i = Interp(p, budget=200000, no_inline=quals(
        p, D + 'DBHandler.add_correlation', D + 'DBHandler.__init__',
        'correlate.stream.CorrStream.stack'))
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, {}, sv, st)
    ctx.saw(i)
    adds = [e for e in i.events if e.kind == 'call' and str(
        e.name).split('.')[-1] == 'add_correlation']
    clears = [e for e in i.events if e.kind == 'call' and str(
        e.name).split('.')[-1] == 'clear']
    stacks = [e for e in i.events if e.kind == 'call' and str(
        e.name).split('.')[-1] == 'stack']
    if not adds:
        return
    where = adds[0].where()
    for rec in (True, False):
        for dele in (True, False):
            for sep in (True, False):
                case(ctx, adds, clears, stacks, rec, dele, sep, where)
    selects(ctx, i)
    for e in stacks:
        if clears:
            cl = [c for c in clears if c.recv is not None
                  and e.recv is not None and c.recv.t is e.recv.t]
            ctx.ob('written', 'stack of the data', all(
                e.seq < c.seq for c in cl),
                'the data are removed before they are stacked', e.where())


def is_stack(t):
    return any(is_call(x, 'stack') for x in walk(t))


def case(ctx, adds, clears, stacks, rec, dele, sep, where):
    cleared = [False]

    def leaf(t):
        if t.op == 'item' and t.args[1].op == 'const':
            k = t.args[1].args[0]
            if k == 'recombine_subdivision':
                return rec
            if k == 'delete_subdivision':
                return dele
        if is_call(t, 'get') and len(t.args) > 1 and t.args[1].op == \
                'const':
            k = t.args[1].args[0]
            if k == 'recombine_subdivision':
                return rec
            if k == 'delete_subdivision':
                return dele
        if t.op == 'attr' and t.args[1] == 'save_comps_separately':
            return sep
        if t.op == 'cmp' and t.args[0] in ('Is', 'IsNot', 'Eq', 'NotEq') \
                and t.args[2].op == 'const' and t.args[2].args[0] is None:
            if is_stack(t.args[1]):
                return rec == (t.args[0] in ('IsNot', 'NotEq'))
        if is_call(t, 'count') or is_call(t, 'len'):
            if 'select' in show(t, 12):
                return not cleared[0]
            return True
        if is_stack(t) and t.op in ('phi', 'call') and not is_call(
                t, 'len') and MD.cname(t) in ('stack', ''):
            return rec
        return None
    cl = [c for c in clears if c.recv is not None and 'select' in show(
        c.recv.t, 12) and P.holds(c.pc, leaf)]
    sub = []
    for a in adds:
        data = a.argts[1] if len(a.argts) > 2 or a.argts and a.argts[
            0].op == 'new' else a.argts[0]
        stack = is_stack(data)
        # the last clear before this write decides
        cleared[0] = any(c.seq < a.seq for c in cl)
        if P.holds(a.pc, leaf) and (stack or not cleared[0]):
            sub.append((stack, a))
    tag = 'recombine %s, delete %s' % (rec, dele)
    if rec:
        ctx.ob('written', tag + ': stack', any(s for s, _ in sub),
               'the stack is not written', where)
    if not (rec and dele):
        ctx.ob('written', tag + ': correlations', any(
            not s for s, _ in sub),
            'the computed correlations are not written%s' % (
                ' and there is no stack of them' if dele else ''), where)
    elif dele:
        ctx.ob('written', tag + ': any', bool(sub),
               'nothing is written', where)


def selects(ctx, i):
    """Groups are selected by the codes they were listed under."""
    for e in i.events:
        if e.kind != 'call' or e.name != '.select' or not e.kwts:
            continue
        for k, t in e.kwts.items():
            if k not in ('network', 'station', 'channel'):
                continue
            for x in walk(t):
                if x.op == 'item' and x.args[1].op == 'const' and \
                        isinstance(x.args[1].args[0], int) and is_call(
                            x.args[0], 'split'):
                    n = x.args[1].args[0]
                    for y in walk(x.args[0]):
                        if y.op == 'fstr':
                            at = [z.args[1] for z in y.args
                                  if z.op == 'attr']
                            if n < len(at):
                                ctx.ob('written', 'selection: %s' % k,
                                       at[n] == k,
                                       'the %s is used as %s' % (at[n], k),
                                       e.where())


# ----------------------------------------------------- nothing is forgotten
class Flush:
    """Typestate of the container that collects the correlations.

    clean (empty), dirty (not yet written), written (written, not cleared)
    """
    def __init__(self, p, f, writer, ctx):
        self.p, self.f, self.w, self.ctx = p, f, writer, ctx
        self.bad = {}
        self.depth = 0
        self.grown = False
        self.unsure = False

    def fail(self, what, node, func):
        self.bad.setdefault(what, '%s:%d' % (func.qual, node.lineno))

    # a state is (typestate, flag of the loop: True/False/None)
    def expr(self, e, s, names, func, flag):
        if e is None:
            return {s}
        out = {s}
        for c in ordered(e):
            nxt = set()
            for x in out:
                nxt |= self.call(c, x, names, func, flag)
            out = nxt
        return out

    def call(self, c, s, names, func, flag):
        ts, fl = s
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and fn.value.id in names:
            if fn.attr in ('extend', 'append', 'insert'):
                self.grown = True
                if ts == 'dirty' and fl is True:
                    self.fail('mixed', c, func)
                return {('dirty', fl)}
            if fn.attr == 'clear':
                if ts == 'dirty':
                    self.fail('lost', c, func)
                return {('clean', fl)}
        args = [a for a in list(c.args) + [k.value for k in c.keywords]
                if isinstance(a, ast.Name) and a.id in names]
        if not args:
            return {s}
        g = self.target(c, func)
        if g is None:
            return {s}
        if g is self.w:
            return {('written' if ts == 'dirty' else ts, fl)}
        if self.depth > 3:
            return {s}
        ps = [x for x in g.params]
        if g.cls is not None and ps and ps[0] == 'self':
            ps = ps[1:]
        inner = {n for n, a in zip(ps, c.args) if a in args} | {
            k.arg for k in c.keywords if k.value in args}
        fin = {n for n, a in zip(ps, c.args) if self.isflag(a, flag)} | {
            k.arg for k in c.keywords if self.isflag(k.value, flag)}
        self.depth += 1
        r = self.block(g.node.body, {s}, inner, g, fin or None)
        self.depth -= 1
        return r['next'] | r['return'] or {s}

    def target(self, c, func):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and fn.value.id == 'self' and \
                func.cls is not None:
            return self.p.method(func.cls, fn.attr)
        if isinstance(fn, ast.Name):
            return func.module.funcs.get(fn.id)
        return None

    def cond(self, t, s, names, func, flag):
        """[(state, truth)]"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(a, not b) for a, b in self.cond(
                t.operand, s, names, func, flag)]
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            cur, out = [s], []
            for v in t.values:
                nxt = []
                for c in cur:
                    for a, b in self.cond(v, c, names, func, flag):
                        (nxt if b == conj else out).append(
                            a if b == conj else (a, b))
                cur = nxt
            return out + [(c, conj) for c in cur]
        if self.isflag(t, flag) and s[1] is not None:
            return [(s, s[1])]
        if s[1] is not None and isinstance(t, ast.Compare) and len(
                t.ops) == 1 and self.isflag(t.left, flag) and isinstance(
                t.comparators[0], ast.Constant) and isinstance(
                t.comparators[0].value, bool):
            op, v = type(t.ops[0]).__name__, t.comparators[0].value
            if op in ('Is', 'Eq'):
                return [(s, s[1] is v)]
            if op in ('IsNot', 'NotEq'):
                return [(s, s[1] is not v)]
        if any(isinstance(n, ast.Name) and n.id in (flag or ())
               for n in ast.walk(t)) and not isinstance(t, ast.Name):
            self.unsure = True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.comparators[0], ast.Constant):
            v = t.comparators[0].value
            l0 = t.left
            if self.counts(l0, names) and v in (0, 1):
                # a container with something in it, or an empty one
                op = type(t.ops[0]).__name__
                full = {('Gt', 0): True, ('NotEq', 0): True,
                        ('GtE', 1): True, ('Eq', 0): False,
                        ('Lt', 1): False, ('LtE', 0): False}.get((op, v))
                if full is not None:
                    return [(a, b == full) for a, b in self.full(s)]
        if self.counts(t, names) or isinstance(
                t, ast.Name) and t.id in names:
            return self.full(s)
        return [(x, b) for x in self.expr(t, s, names, func, flag)
                for b in (True, False)]

    @staticmethod
    def isflag(t, flag):
        if isinstance(t, ast.Call) and isinstance(
                t.func, ast.Name) and t.func.id == 'bool' and t.args:
            t = t.args[0]
        return isinstance(t, ast.Name) and t.id in (flag or ())

    @staticmethod
    def full(s):
        if s[0] == 'clean':
            return [(s, False)]
        return [(s, True), (('clean', s[1]), False)]

    @staticmethod
    def counts(t, names):
        return isinstance(t, ast.Call) and (
            isinstance(t.func, ast.Attribute) and t.func.attr == 'count'
            and isinstance(t.func.value, ast.Name)
            and t.func.value.id in names or isinstance(
                t.func, ast.Name) and t.func.id == 'len' and t.args
            and isinstance(t.args[0], ast.Name)
            and t.args[0].id in names)

    def block(self, body, states, names, func, flag):
        o = {k: set() for k in ('next', 'break', 'continue', 'return')}
        o['next'] = set(states)
        for s in body:
            cur, o['next'] = o['next'], set()
            for x in cur:
                for k, v in self.stmt(s, x, names, func, flag).items():
                    o[k] |= v
        return o

    def stmt(self, s, x, names, func, flag):
        o = {k: set() for k in ('next', 'break', 'continue', 'return')}
        if isinstance(s, ast.If):
            for a, b in self.cond(s.test, x, names, func, flag):
                for k, v in self.block(s.body if b else s.orelse, {a},
                                       names, func, flag).items():
                    o[k] |= v
            return o
        if isinstance(s, (ast.For, ast.While)):
            fl = flag
            heads = None
            if isinstance(s, ast.For) and isinstance(
                    s.target, ast.Tuple) and len(s.target.elts) == 2 and \
                    isinstance(s.target.elts[1], ast.Name) and \
                    'generate_data' in ast.unparse(s.iter):
                fl = {s.target.elts[1].id}
                while True:
                    new = {t.id for n in ast.walk(s)
                           if isinstance(n, ast.Assign)
                           and self.isflag(n.value, fl)
                           for t in n.targets if isinstance(t, ast.Name)}
                    if new <= fl:
                        break
                    fl |= new
                heads = (True, False)
            seen, work = set(), {x}
            exits = set()
            while work:
                nxt = set()
                for y in work:
                    if y in seen:
                        continue
                    seen.add(y)
                    exits.add((y[0], x[1]))
                    for h in (heads or (y[1],)):
                        r = self.block(s.body, {(y[0], h)}, names, func,
                                       fl)
                        nxt |= r['next'] | r['continue']
                        exits |= {(z[0], x[1]) for z in r['break']}
                        o['return'] |= r['return']
                work = nxt - seen
            o['next'] = exits
            return o
        if isinstance(s, ast.Return):
            o['return'] = self.expr(s.value, x, names, func, flag)
            return o
        if isinstance(s, ast.Raise):
            return o
        if isinstance(s, ast.Continue):
            o['continue'] = {x}
            return o
        if isinstance(s, ast.Break):
            o['break'] = {x}
            return o
        if isinstance(s, ast.With):
            return self.block(s.body, {x}, names, func, flag)
        if isinstance(s, ast.Try):
            r = self.block(s.body, {x}, names, func, flag)
            for k, v in r.items():
                o[k] |= v
            for h in s.handlers:
                for k, v in self.block(h.body, {x} | r['next'], names,
                                       func, flag).items():
                    o[k] |= v
            if s.finalbody:
                r = self.block(s.finalbody, o['next'], names, func, flag)
                o['next'] = r['next']
            return o
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            out = self.expr(s.value, x, names, func, flag)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name) and t.id in names:
                    if isinstance(s, ast.AugAssign):
                        self.grown = True
                        for y in out:
                            if y[0] == 'dirty' and y[1] is True:
                                self.fail('mixed', s, func)
                        out = {('dirty', y[1]) for y in out}
                    elif isinstance(s.value, ast.Call) and not s.value.args:
                        for y in out:
                            if y[0] == 'dirty':
                                self.fail('lost', s, func)
                        out = {('clean', y[1]) for y in out}
                    elif s.value is not None:
                        own = any(isinstance(n, ast.Name) and n.id in names
                                  for n in ast.walk(s.value))
                        self.grown = True
                        for y in out:
                            if y[0] == 'dirty' and not own:
                                self.fail('lost', s, func)
                            if y[0] == 'dirty' and own and y[1] is True:
                                self.fail('mixed', s, func)
                        out = {('dirty', y[1]) for y in out}
            o['next'] = out
            return o
        if isinstance(s, ast.Expr):
            o['next'] = self.expr(s.value, x, names, func, flag)
            return o
        o['next'] = {x}
        return o


def ordered(e):
    """Calls of an expression, innermost first."""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, ast.Lambda):
                go(c)
        if isinstance(n, ast.Call):
            out.append(n)
    go(e)
    return out


def flush_of(ctx):
    p = ctx.p
    f = opt(p, K + 'Correlator.pxcorr')
    w = opt(p, K + 'Correlator._write')
    if f is None or w is None:
        return None
    names = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign)
             for t in n.targets if isinstance(t, ast.Name)
             and isinstance(n.value, ast.Call)
             and ast.unparse(n.value.func).endswith('CorrStream')}
    if not names:
        return None
    fl = Flush(p, f, w, ctx)
    r = fl.block(f.node.body, {('clean', None)}, names, f, None)
    for s in r['next'] | r['return']:
        if s[0] == 'dirty':
            fl.fail('end', f.node, f)
    return fl


def collected(ctx):
    fl = flush_of(ctx)
    if fl is None or not fl.grown:
        return
    f = fl.f
    ctx.funcs.add(f.qual)
    where = '%s:%d' % (f.qual, f.node.lineno)
    ctx.ob('flush', 'end of the run', 'end' not in fl.bad,
           'the run can end with computed correlations that are not '
           'written', fl.bad.get('end', where))
    ctx.ob('flush', 'cleared after writing', 'lost' not in fl.bad,
           'computed correlations are dropped without being written',
           fl.bad.get('lost', where))


def tags(ctx):
    """What is looked up when resuming is what is written."""
    p = ctx.p
    look, wrote = {}, set()
    f = opt(p, K + 'Correlator.find_existing_times')
    if f is None:
        return
    for g in p.all_funcs():
        if g.module is not f.module:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                if n.func.attr == 'find_existing_times':
                    a = n.args[0] if n.args else next(
                        (k.value for k in n.keywords if k.arg == 'tag'),
                        None)
                    if isinstance(a, ast.Constant):
                        look[a.value] = '%s:%d' % (g.qual, n.lineno)
                if n.func.attr == 'add_correlation':
                    a = n.args[1] if len(n.args) > 1 else next(
                        (k.value for k in n.keywords if k.arg == 'tag'),
                        None)
                    if a is None:
                        wrote.add('subdivision')
                    if isinstance(a, ast.Constant):
                        wrote.add(a.value)
    for k, where in look.items():
        if wrote:
            ctx.ob('existing', 'tag of the look-up', k in wrote,
                   'existing times are looked up under %s, correlations '
                   'are written under %s' % (k, ', '.join(sorted(wrote))),
                   where)


def passed(ctx):
    """The times found are those every window is checked against."""
    p = ctx.p
    f = opt(p, K + 'calc_cross_combis')
    if f is None:
        return
    for g in p.all_funcs():
        if g.module is not f.module:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Name) and n.func.id == f.name):
                a = n.args[1] if len(n.args) > 1 else next(
                    (k.value for k in n.keywords if k.arg == f.params[1]),
                    None)
                where = '%s:%d' % (g.qual, n.lineno)
                ctx.ob('resume', 'stored times are passed on',
                       a is not None and not isinstance(
                           a, (ast.Dict, ast.Constant)),
                       'combinations are computed without the stored '
                       'times', where)


def run(ctx):
    ctx.rule('lookup', 'an existing correlation is looked up under the '
             'canonical order of its two traces and its own start time')
    ctx.rule('resume', 'every combination is computed only if it is not '
             'stored')
    ctx.rule('existing', 'the stored times of every combination of the run '
             'are found, in all files, under the tag that is written')
    ctx.rule('append', 'adding never deletes or replaces; an existing time '
             'is reported and does not stop the others; names are unique')
    ctx.rule('written', 'for every setting of the subdivision switches '
             'something is written')
    ctx.rule('flush', 'computed correlations are written before they are '
             'dropped and before the run ends')
    lookup(ctx)
    guarded(ctx)
    passed(ctx)
    existing(ctx)
    available(ctx)
    tags(ctx)
    datasets(ctx)
    written(ctx)
    collected(ctx)
    ctx.atleast('append', 1)
