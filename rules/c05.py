"""C05: one canonical order of station pairs (symbolic code algebra).

Codes are symbols; every site that orders, names or looks up a pair is
interpreted twice, once for each possible order of the two sides, with the
comparison answered by an oracle that also records the key it compared.
"""
from sa.interp import Interp, State, Val, Obj, E
from sa.terms import const, mk, walk, show, alts, NONE
from sa.util import short
from sa.project import AnalysisBroken
from sa import codes
from sa.codes import Codes, code, cat, canonical, sides, has_code, parts
from sa.poly import same

KINDS = (('network', 'n'), ('station', 's'), ('channel', 'c'))


def header(st, name, side, cls='Stats'):
    loc = ('hdr', name)
    st.heap[loc] = Obj('ext', cls, {
        k: Val(code(c, side), E, E, 'str') for k, c in KINDS}, None, E,
        (name,), open=True)
    return Val(mk('param', name), E, frozenset([loc]), cls)


def trace(st, name, side):
    h = header(st, name + '.stats', side)
    loc = ('tr', name)
    st.heap[loc] = Obj('ext', 'Trace', {'stats': h}, None, E, (name,),
                       open=True)
    return Val(mk('param', name), E, frozenset([loc]), 'Trace')


def pair(k, a, b):
    return cat([code(k, a), const('-'), code(k, b)])


def fields(st, v, key):
    out = []
    for loc in v.locs:
        o = st.heap.get(loc)
        if o is not None and key in o.fields:
            out += alts(o.fields[key].t)
    return out


def keys_ok(ctx, cd, con, channels, f):
    seen = set()
    for a, b, fn, node in cd.decided:
        swap = a
        nb = mk_swap(b)
        k = (short(fn.qual), channels)
        ok = swap == nb and canonical(a, channels)
        if (k, ok) in seen:
            continue
        seen.add((k, ok))
        ctx.ob('key', '%s in %s' % (con, short(fn.qual)), ok,
               'the pair is ordered by %s' % show(a)[:120] if swap == nb
               else 'unlike keys %s and %s are compared' % (
                   show(a)[:80], show(b)[:80]), fn.where())


def mk_swap(t):
    from sa.terms import subst
    return subst(t, lambda x: mk('code', x.args[0], 1 - x.args[1])
                 if x.op == 'code' and x.args[1] != '=' else None)


def settle(cd, con):
    if cd.undecided:
        a, b, fn, _ = cd.undecided[0]
        raise AnalysisBroken('%s: comparison of %s and %s in %s not '
                             'understood' % (con, show(a)[:80], show(b)[:80],
                                             fn.qual))


def flipped(t, base):
    """1 if t is base reversed along its only axis, 0 if it is base."""
    n = 0
    while t != base:
        if t.op == 'call' and t.args[0].op == 'ref' and str(
                t.args[0].args[0]).split('.')[-1] in (
                    'array', 'asarray', 'copy', 'ascontiguousarray',
                    'deepcopy', 'require'):
            t = t.args[1]
        elif t.op == 'call' and t.args[0].op == 'attr' and \
                t.args[0].args[1] in ('copy', 'astype'):
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0].op == 'ref' and str(
                t.args[0].args[0]).split('.')[-1] in (
                    'flip', 'flipud', 'fliplr'):
            ax = [a for a in t.args[2:]]
            if any(a not in (const(0), const(-1), NONE, mk(
                    'kw', 'axis', const(0)), mk('kw', 'axis', const(-1)),
                    mk('kw', 'axis', NONE)) for a in ax):
                return None
            n += 1
            t = t.args[1]
        elif t.op == 'item' and t.args[1] == mk(
                'slice', NONE, NONE, const(-1)):
            n += 1
            t = t.args[0]
        else:
            return None
    return n % 2


def given(c):
    """Truth of a condition when both headers are given."""
    if c in (mk('param', 'header1'), mk('param', 'header2')):
        return True
    if c.op == 'un' and c.args[0] == 'not':
        r = given(c.args[1])
        return None if r is None else not r
    if c.op == 'bool':
        rs = [given(x) for x in c.args[1:]]
        if c.args[0] == 'and':
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if c.op == 'cmp' and c.args[0] in ('Is', 'IsNot', 'Eq', 'NotEq') and \
            c.args[2] == NONE and given(c.args[1]):
        return c.args[0] in ('IsNot', 'NotEq')
    return None


def tabled(e, key):
    """Written with a key that is compared to a table with this one."""
    for c in e.pc:
        if c.t.op == 'cmp' and c.t.args[0] == 'In' and c.pol and const(
                key) in set(walk(c.t.args[2])):
            return True
    return False


def construct(ctx, p):
    """CorrTrace(data, header1, header2, ...)"""
    ct = p.cls('CorrTrace')
    init = p.method(ct, '__init__')
    name = 'CorrTrace'
    for first in (0, 1):
        cd = Codes(first)
        i = Interp(p, **cd.hooks())
        st = State()
        sv = i.param(st, 'self', ct.qual, None)
        data = i.param(st, 'data', 'ndarray', None)
        lags = {k: Val(mk('param', k), E, E, 'float')
                for k in ('start_lag', 'end_lag')}
        args = {'data': data, 'header1': header(st, 'header1', 0),
                'header2': header(st, 'header2', 1), '_header': Val(NONE)}
        args.update(lags)

        i.on_cond = lambda i2, s2, c, s: given(c)
        st, _ = i.run(init, args, sv, st)
        ctx.saw(i)
        if st is None:
            raise AnalysisBroken('construction of a correlation not '
                                 'understood')
        settle(cd, name)
        if not cd.decided:
            ctx.ob('key', name, False, 'the order of the pair is not '
                   'decided', init.where())
            continue
        keys_ok(ctx, cd, name, True, init)
        a, b = (0, 1) if first == 0 else (1, 0)
        stats = None
        for e in i.events:
            if e.kind == 'setattr' and e.name == 'stats' and e.recv is not \
                    None and e.recv.locs & sv.locs:
                stats = e.args[-1]
        if stats is None:
            raise AnalysisBroken('header of the new correlation not found')
        con = '%s %s' % (name, 'swapped' if first else 'in order')
        for key, k in KINDS:
            got = fields(st, stats, key)
            got = [x for x in got if x.op != 'absent' and has_code(x)]
            if not got and any(
                    e.kind == 'setitem' and e.name is None and
                    tabled(e, key) for e in i.events):
                continue        # written with a key from a table
            ctx.ob('swap', con + ' ' + key, got and all(
                x == pair(k, a, b) for x in got),
                '%s is %s' % (key, [show(x)[:60] for x in got]),
                init.where())
        want = mk('un', 'neg', mk('param', 'end_lag')) if first else mk(
            'param', 'start_lag')
        got = fields(st, stats, 'start_lag')
        ctx.ob('mirror', con + ' first lag', got and all(
            same(x, want) for x in got), 'the first lag is %s' % [
                show(x)[:60] for x in got], init.where())
        dat = [e.kwargs.get('data') or (e.args[0] if e.args else None)
               for e in i.events if e.kind == 'call'
               and e.name == 'super.__init__' and e.func is init]
        dat += [e.args[-1] for e in i.events if e.kind == 'setattr'
                and e.name == 'data' and e.recv is not None
                and e.recv.locs & sv.locs]
        if not dat:
            raise AnalysisBroken('samples of the new correlation not found')
        for d in dat:
            fl = [flipped(x, data.t) for x in alts(d.t)]
            ctx.ob('mirror', con + ' samples', all(x == first for x in fl),
                   'the samples are %s' % show(d.t)[:80], init.where())
        for key, side in (('stla', a), ('stlo', a), ('stel', a),
                          ('evla', b), ('evlo', b), ('evel', b)):
            for x in fields(st, stats, key):
                got = sides(x) | {int(y.args[0][-1]) - 1 for y in walk(x)
                                  if y.op == 'param' and y.args[0] in (
                                      'header1', 'header2')}
                if got:
                    ctx.ob('swap', con + ' ' + key, got == {side},
                           '%s comes from %s' % (key, show(x)[:80]),
                           init.where())


def in_path(t):
    """Order of the codes in a path, or None."""
    if t.op != 'cat':
        return None
    cs = [x for x in parts(t) if x.op == 'code']
    return cs if len(cs) >= 4 else None


def database(ctx, p):
    hd = p.cls('DBHandler')
    for mname in ('get_data', 'remove_data'):
        f = p.method(hd, mname)
        for first in (0, 1):
            for wild in (False, True):
                one(ctx, p, hd, f, first, wild)
    # what is stored under the codes of the header
    f = p.method(hd, 'add_correlation')
    cd = Codes(0)
    hooks = cd.hooks()

    def on_call(i, st, name, recv, args, kwargs, node):
        if name == 'isinstance' and args[0].locs == {('t',)}:
            return Val(const('CorrTrace' in show(i.deep(st, args[1]))))
        return cd.on_call(i, st, name, recv, args, kwargs, node)
    hooks['on_call'] = on_call
    i = Interp(p, **hooks)
    st = State()
    sv = i.param(st, 'self', hd.qual, None)
    h = Obj('ext', 'CorrStats', {k: Val(pair(c, 0, 1), E, E, 'str')
                                 for k, c in KINDS}, None, E, ('h',),
            open=True)
    st.heap[('h',)] = h
    st.heap[('t',)] = Obj('inst', p.cls('CorrTrace').qual, {
        'stats': Val(mk('param', 'h'), E, frozenset([('h',)]),
                     'CorrStats')}, None, E, ('tr',), open=True)
    tr = Val(mk('param', 'tr'), E, frozenset([('t',)]),
             p.cls('CorrTrace').qual)
    i.run(f, {f.params[1]: tr}, sv, st)
    ctx.saw(i)
    n = 0
    for e in i.events:
        if e.kind == 'call' and e.name in ('.create_dataset',
                                           '.require_dataset'):
            t = e.argts[0] if e.argts else e.kwts.get('name')
            n += 1
            for x in alts(t):
                ctx.ob('layout', short(f.qual), layout(x, 0),
                       'stored under %s' % show(x)[:120], e.where())
    settle(cd, short(f.qual))
    keys_ok(ctx, cd, short(f.qual), True, f)
    if not n:
        raise AnalysisBroken('storing of a correlation not found')


def layout(t, first):
    """/tag/Na-Nb/Sa-Sb/Ca-Cb/..."""
    a, b = (0, 1) if first == 0 else (1, 0)
    want = []
    for _, k in KINDS:
        want += [code(k, a), const('-'), code(k, b), const('/')]
    ps = parts(t)
    cs = [n for n, x in enumerate(ps) if x.op == 'code']
    if not cs:
        return False
    k = cs[0]
    got = ps[k:k + len(want)]
    n = min(len(got), len(want) - 1)
    if got[:n] != want[:n]:
        # the last constant of a prefix may be longer or shorter
        return got[:n - 1] == want[:n - 1] and n == len(got) and \
            got[-1].op == 'const' == want[n - 1].op and \
            got[-1].args[0][:1] == want[n - 1].args[0]
    if len(got) == len(want):
        return got[-1].op == 'const' and got[-1].args[0][:1] == '/'
    return True


def one(ctx, p, hd, f, first, wild):
    cd = Codes(first)
    used = []

    def on_item(i, st, base, key, out, node):
        if base.locs & sv.locs or base.t == sv.t:
            used.append((i.deep(st, key), i.frames[-1].func))
        return None
    i = Interp(p, on_item=on_item, **cd.hooks())
    st = State()
    sv = i.param(st, 'self', hd.qual, None)
    args = {}
    for k, c in KINDS:
        args[k] = Val(pair(c, 0, 1), E, E, 'str')
    tm = [x for x in f.params if x in ('corr_start', 'corr_end')]
    for x in tm:
        args[x] = Val(NONE) if f.name == 'get_data' and wild else Val(
            const('*')) if wild else Val(mk('param', x), E, E,
                                         'UTCDateTime')
    args['tag'] = Val(const('sub'))
    i.run(f, args, sv, st)
    ctx.saw(i)
    for e in i.events:
        if e.kind == 'delitem' or e.kind == 'call' and (
                e.name or '').endswith('all_traces_recursive'):
            for t in e.argts:
                used.append((t, e.func))
        if e.kind == 'call' and e.name in ('.get', '.pop', 'fnmatch.fnmatch'):
            for t in e.argts:
                used.append((t, e.func))
    con = short(f.qual)
    settle(cd, con)
    paths = []
    for t, fn in used:
        for x in walk(t):
            if in_path(x) is not None and fn.cls is hd:
                paths.append((x, fn))
    if not paths:
        raise AnalysisBroken('%s: path of the data not found' % f.qual)
    for x, fn in paths:
        ctx.ob('layout', '%s %s%s' % (
            con, 'swapped' if first else 'in order',
            ' wildcard' if wild else ''), layout(x, first),
            'the data are sought under %s' % show(x)[:160], fn.where())
    keys_ok(ctx, cd, con, True, f)
    ctx.notes.append('%s: %d paths' % (con, len(paths)))


def existing(ctx, p):
    f = p.func('correlate.correlate._compare_existing_data')
    for first in (0, 1):
        cd = Codes(first)
        used = []

        def on_item(i, st, base, key, out, node):
            t = i.deep(st, key)
            b = base.t
            n = 0
            while b.op == 'item':
                b = b.args[0]
                n += 1
            if b == mk('param', f.params[0]):
                used.append((n, t))
            return None
        i = Interp(p, on_item=on_item, **cd.hooks())
        st = State()
        args = {f.params[0]: Val(mk('param', f.params[0])),
                f.params[1]: trace(st, f.params[1], 0),
                f.params[2]: trace(st, f.params[2], 1)}
        i.run(f, args, None, st)
        ctx.saw(i)
        for e in i.events:
            if e.kind == 'call' and e.name == '.get' and e.recv is not None:
                b, n = e.recv.t, 0
                while b.op == 'item' or b.op == 'call' and \
                        b.args[0].op == 'attr' and b.args[0].args[1] == 'get':
                    b = b.args[0] if b.op == 'item' else b.args[0].args[0]
                    n += 1
                if b == mk('param', f.params[0]):
                    used.append((n, e.argts[0]))
        con = short(f.qual)
        settle(cd, con)
        a, b = (0, 1) if first == 0 else (1, 0)
        want = [cat([code('n', a), const('.'), code('s', a)]),
                cat([code('n', b), const('.'), code('s', b)]),
                pair('c', a, b)]
        if not {0, 1, 2} <= {n for n, _ in used}:
            raise AnalysisBroken('look-up of existing data not understood')
        for n, t in used:
            if n < 3:
                for x in alts(t):
                    ctx.ob('lookup', '%s %s level %d' % (
                        con, 'swapped' if first else 'in order', n),
                        x == want[n], 'looked up is %s' % show(x)[:80],
                        f.where())
        if not cd.decided:
            ctx.ob('key', con, False, 'the order of the pair is not '
                   'decided', f.where())
        keys_ok(ctx, cd, con, True, f)


def combinations(ctx, p):
    f = p.func('correlate.correlate.compute_network_station_combinations')
    for method in ('betweenStations', 'allSimpleCombinations',
                   'allCombinations', 'betweenComponents', 'autoComponents'):
        for first in (0, 1):
            cd = Codes(first)
            i = Interp(p, **cd.hooks())
            st = State()
            args = {}
            for q, k in zip(f.params, 'ns'):
                args[q] = i.mk_list(st, [
                    Val(code(k, s), E, E, 'str') for s in (0, 1)], f.node, q)
            args[f.params[2]] = Val(const(method))
            args[f.params[3]] = Val(NONE)
            st, v = i.run(f, args, None, st)
            ctx.saw(i)
            con = '%s %s' % (short(f.qual), method)
            settle(cd, con)
            res = i.known_items(st, v) if st is not None else None
            lists = [i.known_items(st, x) for x in res] if res else []
            if len(lists) != 2 or None in lists:
                raise AnalysisBroken('%s: result not understood' % con)
            a, b = (0, 1) if first == 0 else (1, 0)
            rows = list(zip(*[[i.deep(st, x) for x in q] for q in lists]))
            ok = {(pair('n', a, b), pair('s', a, b))}
            ok |= {(pair('n', x, x), pair('s', x, x)) for x in (0, 1)}
            bad = [r for r in rows if r not in ok]
            ctx.ob('names', con, not bad and rows and len(
                lists[0]) == len(lists[1]), 'combinations are %s' % [
                    tuple(show(x) for x in r) for r in bad][:3], f.where())
            if method in ('betweenStations', 'allSimpleCombinations',
                          'allCombinations'):
                ctx.ob('names', con + ' cross', (
                    pair('n', a, b), pair('s', a, b)) in rows,
                    'the pair is missing', f.where())
            keys_ok(ctx, cd, con, False, f)


def found(ctx, p):
    f = p.func('Correlator.find_existing_times')
    g = p.func('correlate.correlate.compute_network_station_combinations')
    cd = Codes(0)
    rows = []

    def on_call(i, st, name, recv, args, kwargs, node):
        if name and name.split('.')[-1] == g.name:
            return i.mk_tuple(st, [
                i.mk_list(st, [Val(pair(k, 0, 1), E, E, 'str')], node, k)
                for k in 'ns'], node)
        return cd.on_call(i, st, name, recv, args, kwargs, node)

    def on_item(i, st, base, key, out, node):
        t = i.deep(st, key)
        if has_code(t):
            rows.append((base.t, t))
        return None
    h = cd.hooks()
    h['on_call'] = on_call
    i = Interp(p, on_item=on_item, no_inline=[
        m.qual for k in ('DBHandler', 'CorrelationDataBase')
        for m in p.cls(k).methods.values()], **h)
    st = State()
    sv = i.param(st, 'self', f.cls.qual, None)
    i.run(f, None, sv, st)
    ctx.saw(i)
    lev = {}
    first = cat([code('n', 0), const('.'), code('s', 0)])
    second = cat([code('n', 1), const('.'), code('s', 1)])
    for e in i.events:
        if e.kind in ('setitem',) and e.args:
            ts = e.argts
            if ts and is_key(ts[-1]):
                lev.setdefault(ts[-1], e)
        if e.kind == 'call' and e.name == '.setdefault' and e.argts and \
                is_key(e.argts[0]):
            lev.setdefault(e.argts[0], e)
    if not lev:
        raise AnalysisBroken('table of existing data not understood')
    for t, e in lev.items():
        ctx.ob('lookup', short(f.qual), t in (first, second),
               'existing data are filed under %s' % show(t)[:80], e.where())
    outer = {t for b, t in rows}
    outer |= {e.argts[0] for e in i.events if e.kind == 'call'
              and e.name == '.setdefault' and e.argts}
    outer = {t for t in outer if is_key(t)}
    ctx.ob('lookup', short(f.qual) + ' outer', not outer or outer == {first}
           or outer == {first, second} and nested(rows, i, first, second),
           'the first station does not come first', f.where())
    for e in i.events:
        if e.kind == 'call' and (e.name or '').endswith(
                'get_available_starttimes'):
            ts = [t for t in e.argts if has_code(t)] + [
                e.kwts[k] for k in ('network', 'station') if k in e.kwts]
            ctx.ob('lookup', short(f.qual) + ' query', ts[:2] == [
                pair('n', 0, 1), pair('s', 0, 1)], 'asked for %s' % [
                    show(t)[:60] for t in ts], e.where())


def is_key(t):
    """A text made of codes (not something found under them)."""
    return has_code(t) and not any(
        x.op in ('call', 'elem', 'key', 'listof') for x in walk(t))


def nested(rows, i, first, second):
    return any(t == first for _, t in rows)


def requested(ctx, p):
    """A requested combination is recognised in either order."""
    f = p.func('correlate.correlate.is_in_xcombis')
    cd = Codes(0)
    i = Interp(p, **cd.hooks())
    st = State()
    args = {}
    for q, s in zip(f.params, (0, 1)):
        args[q] = Val(cat([code('n', s), const('.'), code('s', s),
                           const('.'), code('l', s), const('.'),
                           code('c', s)]), E, E, 'str')
    i.run(f, args, None, st)
    ctx.saw(i)
    got = set()
    for e in i.events:
        if e.kind == 'call' and (e.name or '').startswith('fnmatch'):
            for x in alts(e.argts[0]):
                if has_code(x):
                    got.add(x)
    if not got:
        raise AnalysisBroken('matching of requested pairs not found')
    for a, b in ((0, 1), (1, 0)):
        want = []
        for k in 'nsc':
            want += [code(k, a), const('-'), code(k, b), const('.')]
        ctx.ob('request', '%s %d-%d' % (short(f.qual), a, b), cat(
            want[:-1]) in got, 'only %s is matched' % [
                show(x)[:90] for x in got], f.where())


def run(ctx):
    p = ctx.p
    ctx.rule('key', 'pairs are ordered by whole network, station and '
             'channel codes')
    ctx.rule('swap', 'network, station, channel and coordinates of a '
             'correlation follow the order of the pair together')
    ctx.rule('mirror', 'samples and first lag are mirrored exactly when the '
             'pair is exchanged')
    ctx.rule('layout', 'data are stored, sought and deleted under the path '
             'of the ordered pair')
    ctx.rule('lookup', 'existing data are filed and looked up under the '
             'ordered pair')
    ctx.rule('names', 'combinations are named in the canonical order')
    ctx.rule('request', 'a requested pair is recognised in either order')
    for shared in ((), ('n',), ('n', 's')):
        codes.SHARED[:] = shared
        try:
            construct(ctx, p)
            database(ctx, p)
            existing(ctx, p)
        finally:
            codes.SHARED[:] = ()
    combinations(ctx, p)
    found(ctx, p)
    requested(ctx, p)
    for r in ('key', 'swap', 'mirror', 'layout', 'lookup', 'names'):
        ctx.atleast(r, 2)
