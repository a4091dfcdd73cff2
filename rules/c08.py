"""C08: what is written can be read back.

The writer and the reader of every format are compared key by key: the
conditions under which a key of the header is stored, converted, left out and
loaded are evaluated for every key the package puts into a header; attributes
of the result objects must be stored under the key they are loaded from.
"""
import ast
import re
from sa.interp import Interp, State
from sa.terms import walk, show, alts, mk
from sa.util import short
from sa import model as MD
from rules import pairs as P
from rules.c04 import opt, quals, is_call
from rules.c25 import text

U = 'utils.miic_utils.'
SAVE, LOAD = U + 'save_header_to_np_array', U + 'load_header_from_np_array'
TONUM, TOUTC = U + 'convert_utc_to_timestamp', U + 'convert_timestamp_to_utcdt'
H5 = 'db.corr_hdf5.'
READ = H5 + 'read_hdf5_header'
CONV = H5 + 'convert_header_to_hdf5'
# keys added to a header outside of CorrStats.defaults
EXTRA = ('processing', 'dist', 'az', 'baz', 'stla', 'stlo', 'stel', 'evla',
         'evlo', 'evel', 'processing_bulk', 'ntrcs')
LOSSY = {'format_fissures', 'strftime', 'date', 'round', 'int', 'julday',
         'format_seed', 'format_iris_web_service', 'format_arclink',
         'format_seedlink', 'replace', 'rstrip', 'floor', 'trunc', 'rint',
         'around', 'isocalendar', 'hour', 'day', 'ceil', 'nanmean', 'mean',
         'float32', 'float16', 'int32', 'int64'}


REORDER = {'sorted', 'reversed', 'set', 'unique', 'sort', 'flip', 'fromkeys',
           'frozenset'}


def header_keys(p):
    """Keys of CorrStats.defaults: (all, those that are times)."""
    c = p.cls('correlate.stats.CorrStats', required=False)
    keys, times = [], []
    if c is None:
        return keys, times
    for n in ast.walk(c.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and \
                any(isinstance(t, ast.Name) and t.id == 'defaults'
                    for t in n.targets):
            for k, v in zip(n.value.keys, n.value.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    keys.append(k.value)
                    if isinstance(v, ast.Call) and 'UTC' in ast.unparse(
                            v.func):
                        times.append(k.value)
    return keys, times


def key_leaf(src, key, one=None, sane=None):
    """Condition leaf: the key of the loop over `src` is `key`.

    `one`: None a single value, True a list of one, False a longer list.
    """
    def issrc(t):
        t = peel(t)
        return src(t)

    def iskey(t):
        return t.op in ('elem', 'key') and len(t.args) and issrc(t.args[0])

    def isval(t):
        return (t.op == 'item' and issrc(t.args[0]) and iskey(t.args[1])
                or t.op == 'value' and issrc(t.args[0]))

    def leaf(t):
        if iskey(t):
            return key
        if t.op == 'cmp' and t.args[0] in ('In', 'NotIn') and \
                t.args[2].op in ('dict', 'set') and t.args[2].args:
            a = t.args[2].args
            ks = a[::2] if t.args[2].op == 'dict' else a
            return (MD.ev(t.args[1], leaf) in [MD.ev(x, leaf) for x in ks]
                    ) == (t.args[0] == 'In')
        if t.op == 'call':
            n, pos = MD.cname(t), [x for x in t.args[1:] if x.op != 'kw']
            if n == 'isinstance' and len(pos) == 2 and isval(pos[0]) and \
                    'UTCDateTime' in show(pos[1]):
                return one is None
            if n == 'isinstance' and len(pos) == 2 and isval(pos[0]) and \
                    re.search(r'\blist\b|tuple|ndarray|Iterable|Sequence',
                              show(pos[1])):
                return one is not None
            if n in ('len', 'size') and len(pos) == 1 and isval(pos[0]):
                if one is None:
                    raise MD.Undecided(t)
                return 1 if one else 3
            if n in ('match', 'search', 'fullmatch') and len(pos) == 2:
                a, b = MD.ev(pos[0], leaf), MD.ev(pos[1], leaf)
                if isinstance(a, str) and isinstance(b, str):
                    return bool(getattr(re, n)(a, b))
            if t.args[0].op == 'attr' and n in ('endswith', 'startswith') \
                    and len(pos) == 1:
                a = MD.ev(t.args[0].args[0], leaf)
                b = MD.ev(pos[0], leaf)
                if isinstance(a, str) and isinstance(b, (str, tuple)):
                    return getattr(a, n)(b)
        return text(t, leaf)
    return leaf


def peel(t):
    while t.op == 'call' and MD.cname(t) in (
            'items', 'keys', 'dict', 'list', 'sorted', 'tuple', 'copy',
            'deepcopy', 'iter'):
        h = t.args[0]
        if h.op == 'attr' and len(t.args) == 1:
            t = h.args[0]
        elif len(t.args) > 1:
            t = t.args[1]
        else:
            break
    if t.op == 'attr' and t.args[1] == 'files':
        t = t.args[0]
    return t


def feasible(e, leaf, skip=('exc',)):
    """True, False or None (undecided); conditions on data do not count."""
    out = True
    for c in e.pc:
        if c.kind in skip:
            continue
        if c.kind == 'for' or c.t.op == 'iter':
            continue
        try:
            v = bool(MD.ev(c.t, leaf))
        except (MD.Undecided, TypeError, ValueError, IndexError,
                AttributeError):
            if any(x.op in ('elem', 'key', 'value') for x in walk(c.t)):
                out = None
            continue
        if v != c.pol:
            return False
    return out


def outside(t):
    """Parts of a term that are no key of a subscript."""
    yield t
    for k, a in enumerate(t.args):
        if t.op == 'item' and k == 1:
            continue
        if hasattr(a, 'op'):
            yield from outside(a)


def of_source(t, src, conv=()):
    """The term holds an element of the source."""
    return any(x.op in ('item', 'value') and x.args and src(
        peel(x.args[0])) for x in walk(t))


def has_call(t, *names):
    return any(x.op in ('call', 'new') and (
        MD.cname(x) in names if x.op == 'call'
        else str(x.args[0]).split('.')[-1] in names) for x in walk(t))


def stores(p, ctx, q, no):
    f = opt(p, q)
    if f is None:
        return None, None, None
    i = Interp(p, budget=80000, no_inline=quals(p, *no))
    i.run(f, {}, None, State())
    ctx.saw(i)
    return f, i, [e for e in i.events if e.kind == 'setitem'
                  and len(e.argts) == 2]


# ------------------------------------------------------------- npz header
def npz(ctx):
    p = ctx.p
    keys, times = header_keys(p)
    if not keys:
        return None
    allk = keys + [k for k in EXTRA if k not in keys]
    for q, conv, what in ((SAVE, 'convert_utc_to_timestamp', 'stored'),
                          (LOAD, 'convert_timestamp_to_utcdt', 'loaded')):
        f, i, evs = stores(p, ctx, q, (TONUM, TOUTC))
        if f is None or not f.params:
            continue
        src = (lambda t, s=f.params[0]:
               t.op == 'param' and t.args[0] == s)
        evs = [e for e in evs if e.argts[1].op in ('elem', 'key')
               and src(peel(e.argts[1].args[0]))]
        if not evs:
            continue
        for k in allk:
            leaf = key_leaf(src, k)
            st = [(feasible(e, leaf), e) for e in evs]
            may = [e for d, e in st if d is not False]
            ctx.ob('npz', '%s %s' % (k, what), bool(may),
                   'the key %s of the header is never %s' % (k, what),
                   evs[0].where())
            may0 = may
            may = [e for e in may if of_source(e.argts[0], src)
                   or 'elem<%s' % f.params[0] in show(e.argts[0])]
            if not may:
                continue
            cv = [e for e in may if has_call(e.argts[0], conv)
                  or has_call(e.argts[0], 'UTCDateTime', 'timestamp', 'ns')
                  or any(x.op == 'attr' and x.args[1] in ('timestamp', 'ns')
                         for x in walk(e.argts[0]))]
            if k in times:
                ctx.ob('times', '%s is %s as a time' % (k, what), bool(cv),
                       'the time %s is %s without conversion' % (k, what),
                       may[0].where())
            elif len(cv) == len(may):
                ctx.ob('times', '%s is %s as it is' % (k, what), False,
                       '%s is no time but is converted like one' % k,
                       cv[0].where())
            else:
                ctx.ob('times', '%s is %s as it is' % (k, what), True, '',
                       may[0].where())
            if k == 'processing' and what == 'loaded':
                ctx.ob('npz', 'the history is loaded as a list', any(
                    has_call(e.argts[0], 'tolist', 'list')
                    or e.argts[0].op in ('listof', 'comp') for e in may0),
                    'the history is loaded as an array, entries cannot be '
                    'appended', may[0].where())
            if k not in times and what == 'stored':
                # key must not lose its value
                bad = [e for e in may if any(
                    x.op == 'call' and MD.cname(x) in LOSSY
                    for x in walk(e.argts[0]))]
                ctx.ob('lossless', '%s in npz' % k, not bad,
                       'the value of %s is changed before it is stored' % k,
                       (bad or may)[0].where())
        if what == 'loaded':
            scalars(ctx, [e for e in evs if any(
                feasible(e, key_leaf(src, k)) is not False
                for k in allk if k not in times)])
        # keys nobody asked for must survive as well
    one_time(ctx)
    return allk


UNLIST = ('item', 'squeeze', 'ravel', 'flatten', 'reshape', 'float', 'int',
          'str', 'bool', 'join', 'asscalar')
KIND = ('ndim', 'shape', 'isscalar', 'isinstance', 'dtype')


def scalars(ctx, evs):
    """A list of the header (even of one entry) is loaded as a list."""
    for e in evs:
        for t in alts(e.argts[0]):
            bad = [MD.cname(x) for x in walk(t)
                   if x.op == 'call' and MD.cname(x) in UNLIST]
            if bad and bad[0] != 'str' and not any(
                    x.op in ('call', 'attr') and (
                        MD.cname(x) if x.op == 'call' else x.args[1]) in KIND
                    for c in e.pc if not (
                        is_call(c.t, 'isinstance') and 'ndarray' in show(
                            c.t) and c.pol) for x in walk(c.t)):
                ctx.ob('lossless', 'a list of one entry', False,
                       'an entry that is a list is loaded through %s'
                       % bad[0], e.where())
        ctx.ob('lossless', 'lists of the header', True, '', e.where())


def one_time(ctx):
    """A list of one time and a single time are stored differently and
    the reader makes a list of the first."""
    p = ctx.p
    keys, times = header_keys(p)
    f, i, evs = stores(p, ctx, SAVE, (TONUM, TOUTC))
    if f is None or not times:
        return
    src = (lambda t, s=f.params[0]: t.op == 'param' and t.args[0] == s)
    conds = [c for e in evs for c in e.pc]
    res = {}
    for one in (None, True):
        leaf = key_leaf(src, times[0], one)
        res[one] = [(feasible(e, leaf), chosen(e, leaf)) for e in evs]
    if any(None in r for r in res[None] + res[True]):
        # the distinction is made in a way this rule does not evaluate
        return
    g = opt(p, TONUM)
    inside = False
    if g is not None:
        j = Interp(p, budget=40000)
        r, v = j.run(g, {}, None, State())
        ctx.saw(j)
        inside = separate(j, g)
    ctx.ob('one-time', 'a list of one time is stored as a list',
           res[None] != res[True] or inside,
           'a list of one time and a single time are stored alike, the '
           'reader cannot tell them apart', (evs[0].where() if evs else ''))
    f, i, evs = stores(p, ctx, LOAD, (TONUM, TOUTC))
    if f is None:
        return
    t0 = [x for x in times]
    src2 = (lambda t, s=f.params[0]: t.op == 'param' and t.args[0] == s)
    leaf = key_leaf(src2, t0[0])
    may = [e for e in evs if feasible(e, leaf) is not False]
    dims = any(w in show(x) for e in may for x in list(e.argts) + [
        c.t for c in e.pc] for w in ('ndim', 'shape', 'len(', 'size'))
    # the value that was merged before it is stored: what was asked on the
    # way there
    dims = dims or any(len(alts(e.argts[0])) > 1 for e in may) and any(
        e.kind == 'call' and str(e.name).split('.')[-1] in (
            'ndim', 'shape', 'len', 'size') and feasible(e, leaf) is not False
        for e in i.events)
    ctx.ob('one-time', 'a list of one time is loaded as a list', dims,
           'the loaded times do not depend on the shape that was stored',
           (evs[0].where() if evs else ''))
    del conds


def chosen(e, leaf):
    """Alternatives of the stored value, None if not evaluated."""
    t = e.argts[0]
    out = []
    while t.op == 'ifexp':
        try:
            c = bool(MD.ev(t.args[0], leaf))
        except Exception:
            return None if feasible(e, leaf) is not False else ()
        out.append(c)
        t = t.args[1 if c else 2]
    if len(alts(t)) > 1 and feasible(e, leaf) is not False:
        return None
    return tuple(out)


def separate(i, g):
    """A single time leaves the function with other dimensions."""
    outs = [e for e in i.events if e.kind == 'return' and e.func is g]
    return any('newaxis' in show(e.argts[0]) or 'ndmin' in show(e.argts[0])
               for e in outs if e.argts)


# ---------------------------------------------------------- attributes
def strings_of(t):
    """Keys of the loaded file a value is taken from."""
    out = set()
    for x in walk(t):
        if x.op == 'item' and x.args[1].op == 'const' and isinstance(
                x.args[1].args[0], str):
            out.add(x.args[1].args[0])
        if x.op == 'call' and MD.cname(x) in ('get', 'pop') and len(
                x.args) > 1 and x.args[1].op == 'const' and isinstance(
                x.args[1].args[0], str):
            out.add(x.args[1].args[0])
    return out


def by_name(f, t):
    """Keys assigned to a local whose value a loop made unknown."""
    out = set()
    for x in walk(t):
        if x.op in ('sym', 'havoc', 'param', 'unk') or '@' in str(
                x.args[0] if x.args else ''):
            nm = str(x.args[0]).split('@')[0] if x.args else ''
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(
                        isinstance(y, ast.Name) and y.id == nm
                        for y in n.targets):
                    out |= {c.value for c in ast.walk(n.value)
                            if isinstance(c, ast.Constant)
                            and isinstance(c.value, str)}
    return out


def own(t):
    """Attribute of the object a stored value comes from."""
    out = set()
    for x in walk(t):
        if x.op == 'attr' and x.args[0].op == 'param' and \
                x.args[0].args[0] == 'self':
            out.add(x.args[1])
    return out


def written(ctx, q):
    """key -> (attributes, term, where) of every array of the writer."""
    p = ctx.p
    f = opt(p, q)
    if f is None or f.cls is None:
        return None
    i = Interp(p, budget=120000, no_inline=quals(p, SAVE))
    st = State()
    i.run(f, {}, i.param(st, 'self', f.cls.qual, None), st)
    ctx.saw(i)
    out = {}

    def put(k, v, e):
        out.setdefault(k, []).append((own(v), v, e.where()))
    whole = set()
    for e in i.events:
        if e.kind == 'setitem' and len(e.argts) == 2 and \
                e.argts[1].op == 'const':
            put(e.argts[1].args[0], e.argts[0], e)
        if e.kind != 'call':
            continue
        n = str(e.name).split('.')[-1]
        if n.startswith('savez') or n == 'update' or n == 'dict':
            for k, v in (e.kwts or {}).items():
                put(k, v, e)
            for a in e.argts:
                if a.op == 'dict':
                    for k, v in zip(a.args[::2], a.args[1::2]):
                        if k.op == 'const':
                            put(k.args[0], v, e)
                elif n == 'update':
                    whole |= own(a)
                    if a.op == 'param' and a.args[0] == 'self' or \
                            a.op == 'self':
                        whole.add('self')
    # ** arguments
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call):
            for k in c.keywords:
                if k.arg is None:
                    for x in ast.walk(k.value):
                        if isinstance(x, ast.Attribute) and isinstance(
                                x.value, ast.Name) and x.value.id == 'self':
                            whole.add(x.attr)
                        if isinstance(x, ast.Name) and x.id == 'self':
                            whole.add('self')
    saved = any(e.kind == 'call' and 'savez' in str(e.name)
                or e.kind == 'call' and str(e.name).endswith('.save')
                for e in i.events)
    return (out, whole, i, f) if saved else None


def attrs_read(ctx, q, cls):
    """attribute -> keys (None: unknown) the reader restores it from."""
    p = ctx.p
    f = opt(p, q)
    if f is None:
        return None
    i = Interp(p, budget=200000, no_inline=quals(p, LOAD))
    i.run(f, {}, None, State())
    ctx.saw(i)
    out = {}
    for e in i.events:
        if e.kind != 'setattr' or e.recv is None or not e.argts:
            continue
        r = show(e.recv.t)
        if not (r.startswith("obj<'inst'") or cls in r):
            continue
        if any('*' == x.args[0] and c.pol for c in e.pc
               for x in walk(c.t) if x.op == 'const'):
            continue
        t = e.argts[0]
        ks = strings_of(t)
        if not ks:
            ks = by_name(f, t)
        out.setdefault(e.name, []).append((ks, t, e))
    return out, i, f


OBJS = (('monitor.dv.DV', 'monitor.dv.read_dv'),
        ('correlate.stream.CorrBulk', 'correlate.stream.read_corr_bulk'))
# derived from the others in __init__, or set by later processing only
DERIVED = ('stats', 'avail')


def attributes(ctx):
    p = ctx.p
    for cls, rd in OBJS:
        w = written(ctx, cls + '.save')
        r = attrs_read(ctx, rd, cls.split('.')[-1])
        if w is None or r is None:
            continue
        keys, whole, wi, wf = w
        got, ri, rf = r
        if not got:
            continue
        name = cls.split('.')[-1]
        bykey = {}
        for k, vs in keys.items():
            for at, v, wh in vs:
                for a in at:
                    bykey.setdefault(k, set()).add(a)
        init = opt(p, cls + '.__init__')
        params = set(init.params[1:]) if init is not None else set()
        attrs = plain_attrs(init) if init is not None else {}
        for a in sorted(set(attrs) - set(DERIVED)):
            ks = {k for k, s in bykey.items() if a in s}
            ctx.ob('attributes', '%s.%s is stored' % (name, a),
                   bool(ks) or a in whole,
                   'the writer stores everything but %s' % a,
                   '%s:%d' % (wf.qual, wf.node.lineno))
        for a, rs in sorted(got.items()):
            if a in DERIVED or a not in attrs:
                continue
            for ks, t, e in rs:
                if a in ('dv_processing', 'wfc_processing'):
                    continue
                if not ks:
                    if t.op == 'const' and a in bykey_inv(bykey):
                        ctx.ob('attributes', '%s.%s is restored' % (
                            name, a), False, 'the reader sets %s to %s '
                            'whatever was stored' % (a, show(t)), e.where())
                    continue
                src = set()
                for k in ks:
                    src |= bykey.get(k, set())
                known = [k for k in ks if k in bykey]
                ctx.ob('attributes', '%s.%s is restored' % (name, a),
                       a in src, '%s is restored from the key %s, which '
                       'holds %s' % (a, '/'.join(sorted(ks)), '/'.join(
                           sorted(src)) if known else 'nothing'), e.where())
        del params
        shape(ctx, name, keys)


def bykey_inv(b):
    return {a for s in b.values() for a in s}


def plain_attrs(init):
    """Attributes __init__ sets from a parameter as it is."""
    out = {}
    for n in ast.walk(init.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            v = n.value
            if isinstance(v, ast.Name) and v.id in init.params:
                for t in tg:
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name) and t.value.id == 'self':
                        out[t.attr] = v.id
    return out


def shape(ctx, name, keys):
    """Stored as it is: no function that changes numbers."""
    for k, vs in keys.items():
        for at, v, wh in vs:
            bad = [MD.cname(x) for x in walk(v) if x.op == 'call'
                   and MD.cname(x) in LOSSY]
            ctx.ob('lossless', '%s in %s' % (k, name), not bad,
                   '%s is changed by %s before it is stored' % (
                       k, ', '.join(bad)), wh)


# --------------------------------------------- keys that are no header keys
def not_header(ctx, allk):
    """Arrays stored beside the header must not be loaded into it."""
    p = ctx.p
    f, i, evs = stores(p, ctx, LOAD, (TONUM, TOUTC))
    if f is None or not f.params or not allk:
        return
    src = (lambda t, s=f.params[0]: t.op == 'param' and t.args[0] == s)
    evs = [e for e in evs if e.argts[1].op in ('elem', 'key')]
    if not evs:
        return
    for cls, rd in OBJS:
        w = written(ctx, cls + '.save')
        if w is None:
            continue
        for k in sorted(map(str, w[0])):
            if k in allk:
                ctx.ob('separate', '%s of %s' % (k, cls), False,
                       'the array %s overwrites the key of the header' % k,
                       w[0][k][0][2])
                continue
            leaf = key_leaf(src, k)
            st = [feasible(e, leaf) for e in evs]
            if True in st or any(x is None for x in st):
                sure = [e for e, d in zip(evs, st) if d]
                if not sure:
                    continue
                ctx.ob('separate', '%s of %s' % (k, cls), False,
                       'the array %s is loaded into the header' % k,
                       sure[0].where())
            else:
                ctx.ob('separate', '%s of %s' % (k, cls), True, '',
                       evs[0].where())


# ------------------------------------------------------ processing params
def params(ctx):
    """dv_processing and wfc_processing: every stored parameter comes back
    under its name, as a number or text and not as an array."""
    p = ctx.p
    w = written(ctx, 'monitor.dv.DV.save')
    f = opt(p, 'monitor.dv.read_dv')
    if w is not None and f is not None:
        at = 'dv_processing'
        stored = {k: strings_of(v) for k, vs in w[0].items()
                  for a, v, wh in vs if at in a}
        for k, s in stored.items():
            ctx.ob('parameters', 'DV: %s' % k, not s or k in s,
                   'the parameter %s is stored as %s' % ('/'.join(s), k),
                   w[0][k][0][2])
        pieces(ctx, 'monitor.dv.read_dv', set(stored), at)
    pieces(ctx, 'monitor.wfc.read_wfc', None, 'wfc_processing')


SCALAR = ('float', 'item', 'int', 'str', 'bool', 'tolist')


def pieces(ctx, q, stored, at):
    p = ctx.p
    f = opt(p, q)
    if f is None:
        return
    i = Interp(p, budget=200000, no_inline=quals(p, LOAD))
    i.run(f, {}, None, State())
    ctx.saw(i)
    got = {}
    for e in i.events:
        if e.kind == 'setitem' and len(e.argts) == 2 and e.argts[1].op == \
                'const' and isinstance(e.argts[1].args[0], str):
            got.setdefault(e.argts[1].args[0], []).append(
                (e.argts[0], e.where()))
        ts = list(e.argts or ()) if e.kind in ('setattr', 'new', 'call') \
            else []
        ts += list((e.kwts or {}).values()) if e.kwts else []
        if e.kind == 'display' or e.kind == 'call' and str(
                e.name).split('.')[-1] == 'dict':
            for k, v in (e.kwts or {}).items():
                got.setdefault(k, []).append((v, e.where()))
        for t in ts:
            for x in walk(t):
                if x.op == 'dict':
                    for k, v in zip(x.args[::2], x.args[1::2]):
                        if k.op == 'const' and isinstance(k.args[0], str):
                            got.setdefault(k.args[0], []).append(
                                (v, e.where()))
    # dict(...) with keywords that the interpreter does not report
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'dict':
            for k in n.keywords:
                if k.arg:
                    got.setdefault(k.arg, [])
        elif isinstance(n, ast.Dict):
            for k in n.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    got.setdefault(k.value, [])
    names = stored if stored else {'freq_min', 'freq_max', 'tw_start',
                                   'tw_len'} & set(got)
    if not got or not names:
        return
    for k in sorted(names):
        ctx.ob('parameters', '%s restores %s' % (f.name, k), k in got,
               'the parameter %s of %s is stored but not restored' % (
                   k, at), '%s:%d' % (f.qual, f.node.lineno))
        for v, wh in got.get(k, []):
            ks = strings_of(v) & (set(names) | set(got))
            if not ks:
                continue
            ctx.ob('parameters', '%s restores %s as itself' % (f.name, k),
                   k in ks, '%s is restored from %s' % (k, '/'.join(ks)),
                   wh)
            raw = v.op == 'item' or v.op == 'call' and MD.cname(v) in (
                'get', 'asarray', 'array')
            ctx.ob('parameters', '%s restores %s as a scalar' % (
                f.name, k), not raw or has_call(v, *SCALAR),
                '%s comes back as an array' % k, wh)


# ------------------------------------------------------------------- hdf5
def hdf5(ctx, allk):
    p = ctx.p
    keys, times = header_keys(p)
    f, i, evs = stores(p, ctx, CONV, ())
    if f is not None and evs:
        on = [e for e in evs if e.recv is not None and 'attrs' in show(
            e.recv.t)]
        ctx.ob('hdf5', 'header is written', bool(on),
               'no key of the header is written to the dataset',
               evs[0].where())
        for e in evs:
            bad = [x for x in walk(e.argts[0])
                   if x.op == 'call' and MD.cname(x) in LOSSY
                   or x.op == 'attr' and x.args[1] in LOSSY]
            ctx.ob('lossless', 'header of a dataset', not bad,
                   'a value of the header is shortened by %s before it is '
                   'written' % (show(bad[0])[:60] if bad else ''),
                   e.where())
        # a key that cannot be written must not end the others
        for n in ast.walk(f.node):
            if isinstance(n, ast.ExceptHandler):
                stop = [x for x in ast.walk(n) if isinstance(
                    x, (ast.Break, ast.Return))]
                ctx.ob('hdf5', 'the other keys are written', not stop,
                       'a key of an unknown type ends the loop over the '
                       'header', '%s:%d' % (f.qual, n.lineno))
        if len(f.params) > 1:
            src = (lambda t, s=f.params[1]:
                   t.op == 'param' and t.args[0] == s)
            for k in allk:
                st = [feasible(e, key_leaf(src, k)) for e in on]
                ctx.ob('hdf5', '%s is written' % k,
                       any(x is not False for x in st),
                       'the key %s is not written' % k, on[0].where()
                       if on else '')
    f, i, evs = stores(p, ctx, READ, ())
    if f is None or not evs:
        return
    s = f.params[0]

    def src(t):
        return t.op == 'attr' and t.args[1] == 'attrs' or t.op == 'param' \
            and t.args[0] == s
    evs = [e for e in evs if e.argts[1].op in ('elem', 'key') or any(
        c.kind == 'for' for c in e.pc) and e.argts[1].op == 'const'
        and isinstance(e.argts[1].args[0], str)]
    if not evs:
        return
    for k in allk:
        leaf = key_leaf(src, k)
        may = [e for e in evs if feasible(e, leaf) is not False and (
            e.argts[1].op != 'const' or e.argts[1].args[0] == k)]
        ctx.ob('hdf5', '%s is read' % k, bool(may),
               'the key %s is not read' % k, evs[0].where())
        utc = [e for e in may if 'UTCDateTime(' in show(e.argts[0])]
        if k in times:
            # paths with an exception are for dates of other versions
            plain = [e for e in may if not any(
                c.kind == 'exc' for c in e.pc)]
            ctx.ob('times', '%s is read as a time' % k, bool(utc),
                   'the time %s is read as text' % k,
                   (may or evs)[0].where())
            for e in plain:
                if e in utc:
                    # (another alternative: dates of other versions)
                    off = [x for x in walk(e.argts[0]) if x.op == 'bin']
                    if e.argts[0].op == 'phi' and any(
                            'UTCDateTime(' in show(a) and not any(
                                x.op == 'bin' for x in walk(a))
                            for a in alts(e.argts[0])):
                        off = []
                    ctx.ob('times', '%s is read unshifted' % k, not off,
                           'the time %s is changed: %s' % (
                               k, show(e.argts[0])[:80]), e.where())
        elif may:
            ctx.ob('times', '%s is read as it is' % k,
                   len(utc) < len(may), '%s is no time but is converted '
                   'like one' % k, may[0].where())
        if k == 'processing' and may:
            ctx.ob('hdf5', 'processing is a list', any(
                has_call(e.argts[0], 'list', 'tolist') or e.argts[0].op in (
                    'listof', 'comp') for e in may),
                'the history is read as an array, entries cannot be '
                'appended', may[0].where())
        if may and k not in times:
            bad = [x for e in may for x in walk(e.argts[0])
                   if x.op == 'call' and MD.cname(x) in LOSSY]
            ctx.ob('lossless', '%s is read' % k, not bad,
                   'the value of %s is changed when it is read' % k,
                   may[0].where())


def one_trace(t, first):
    if is_call(t, 'isinstance') and len(t.args) == 3 and \
            t.args[1].op == 'param' and t.args[1].args[0] == first:
        return 'CorrStream' in show(t.args[2])
    return None


def same(ctx):
    """Data and header of a trace are written to and read from one place."""
    p = ctx.p
    f = opt(p, H5 + 'DBHandler.add_correlation')
    if f is not None and len(f.params) > 1:
        first = f.params[1]
        # the passed object is a stream, its traces are told apart
        i = Interp(p, budget=80000, no_inline=quals(p, CONV),
                   distinct=lambda t: t.op == 'param'
                   and t.args[0] == first,
                   on_cond=lambda i, st, t, *a: one_trace(t, first))
        st = State()
        i.run(f, {}, i.param(st, 'self', f.cls.qual, None), st)
        ctx.saw(i)
        dst = [e for e in i.events if e.kind == 'call'
               and str(e.name).endswith('create_dataset')]
        hdr = [e for e in i.events if e.kind == 'call'
               and str(e.name).endswith('convert_header_to_hdf5')]
        ctx.ob('hdf5', 'header beside the data', not dst or bool(hdr),
               'the data is written without its header',
               dst[0].where() if dst else '')
        for e in dst:
            d = (e.kwts or {}).get('data')
            if d is None:
                continue
            bad = [x for x in walk(d) if x.op == 'call'
                   and MD.cname(x) in LOSSY | {'astype', 'nan_to_num'}
                   or x.op == 'item']
            ctx.ob('lossless', 'data of a dataset',
                   not bad and not (e.kwts or {}).get('dtype'),
                   'the data is changed before it is written: %s' % show(
                       d)[:80], e.where())
        for e in hdr:
            if len(e.argts) < 2 or not dst:
                continue
            h = e.argts[1]
            d = (dst[0].kwts or {}).get('data')
            if d is None or h.op != 'attr' or d.op != 'attr':
                continue
            ctx.ob('hdf5', 'header of the same trace',
                   h.args[1] == 'stats' and h.args[0] == d.args[0],
                   'the header is that of %s, the data that of %s' % (
                       show(h)[:60], show(d)[:60]), e.where())
    for q in ('DBHandler.get_data', 'all_traces_recursive'):
        f = opt(p, H5 + q)
        if f is None:
            continue
        i = Interp(p, budget=120000, no_inline=quals(
            p, READ, H5 + 'all_traces_recursive'))
        st = State()
        i.run(f, {}, i.param(st, 'self', f.cls.qual, None) if f.cls
              else None, st)
        ctx.saw(i)
        new = [e for e in i.events if e.kind == 'new'
               and str(e.name).endswith('CorrTrace')]
        for e in new:
            d = e.argts[0] if e.argts else (e.kwts or {}).get('data')
            h = (e.kwts or {}).get('_header')
            if h is None and len(e.argts) > 1:
                h = e.argts[1]
            if d is None:
                continue
            if h is None:
                ctx.ob('hdf5', '%s reads the header' % f.name, False,
                       'the trace is made without the stored header',
                       e.where())
                continue
            rd = [x for x in walk(h) if is_call(x, 'read_hdf5_header')]
            if not rd:
                continue
            base = [x for x in rd[0].args[1:] if x.op != 'kw'][0]
            ctx.ob('hdf5', '%s: data and header of one dataset' % f.name,
                   any(x == base for x in walk(d)),
                   'the header is read from %s, the data from %s' % (
                       show(base)[:60], show(d)[:60]), e.where())
            bad = [x for x in outside(d) if x.op == 'call' and (
                MD.cname(x) in LOSSY | {'astype', 'nan_to_num'})]
            ctx.ob('lossless', '%s: data' % f.name, not bad,
                   'the data is changed when it is read', e.where())


# ---------------------------------------------------- reloaded CorrBulk
def bulk(ctx):
    p = ctx.p
    f = opt(p, 'correlate.stream.CorrBulk.__init__')
    if f is None or f.cls is None or len(f.params) < 3:
        return
    i = Interp(p, budget=80000)
    st = State()
    i.run(f, {}, i.param(st, 'self', f.cls.qual, None), st)
    ctx.saw(i)
    s = f.params[2]
    for e in i.events:
        if e.kind == 'setitem' and len(e.argts) == 2 and show(
                e.argts[1]) == "'processing_bulk'" and e.argts[0].op in (
                    'list', 'tuple') and not e.argts[0].args:
            guard = any('processing_bulk' in show(c.t) for c in e.pc)
            loaded = not any(
                not c.pol and c.t.op == 'param' and c.t.args[0] == s
                for c in e.pc)
            ctx.ob('bulk', 'history of a reloaded bulk',
                   guard or not loaded, 'the history of the passed header '
                   'is emptied', e.where())
    # a plain dict becomes a CorrStats
    mk = [e for e in i.events if e.kind == 'setattr' and e.name == 'stats'
          and e.argts]
    if mk:
        ctx.ob('bulk', 'header of a reloaded bulk is a CorrStats', any(
            y.op == 'new' and any(
                x.op == 'param' and x.args[0] == s
                for x in walk(y)) for e in mk for y in walk(e.argts[0])) or converts(
                    ctx, 'correlate.stream.read_corr_bulk'),
            'a loaded header stays a plain dictionary', mk[0].where())


def converts(ctx, q):
    f = opt(ctx.p, q)
    return f is not None and any(
        isinstance(n, ast.Call) and 'CorrStats' in ast.unparse(n.func)
        for n in ast.walk(f.node))


def wfc(ctx):
    """WFC.save stores all parts; read_wfc sets all parts."""
    p = ctx.p
    w = written(ctx, 'monitor.wfc.WFC.save')
    f = opt(p, 'monitor.wfc.read_wfc')
    if w is not None:
        keys, whole, wi, wf = w
        has = whole | {a for vs in keys.values() for at, v, wh in vs
                       for a in at}
        for a in ('self', 'av', 'mean', 'wfc_processing'):
            ctx.ob('attributes', 'WFC.%s is stored' % a, a in has or
                   a == 'self' and iterates(wf),
                   '%s of the waveform coherence is not stored' % a,
                   '%s:%d' % (wf.qual, wf.node.lineno))
        hd = any(e.kind == 'call' and str(e.name).endswith(
            'save_header_to_np_array') for e in wi.events)
        ctx.ob('attributes', 'WFC.stats is stored', hd,
               'the header of the waveform coherence is not stored',
               '%s:%d' % (wf.qual, wf.node.lineno))
    if f is None:
        return
    i = Interp(p, budget=200000, no_inline=quals(p, LOAD))
    i.run(f, {}, None, State())
    ctx.saw(i)
    sets = {e.name for e in i.events if e.kind == 'setattr' and e.argts
            and ('load(' in show(e.argts[0]) or e.argts[0].op == 'obj'
                 or e.argts[0].op not in ('const', 'dict', 'list', 'call')
                 and e.func is f
                 or any(x.op in ('obj', 'comp') for x in walk(e.argts[0])))}
    new = [e for e in i.events if e.kind == 'new'
           and str(e.name).endswith('.WFC')]
    if not new:
        return
    for a in ('av', 'mean', 'stats', 'wfc_processing'):
        ctx.ob('attributes', 'WFC.%s is restored' % a,
               a in sets or any(a in (e.kwts or {}) for e in new),
               '%s is not set by the reader' % a, new[0].where())
    # which branch does each stored key take
    ld = [x for e in i.events for t in (e.argts or ()) for x in walk(t)
          if is_call(x, 'load')]
    evs = [e for e in i.events if e.kind == 'setitem' and len(e.argts) == 2
           and e.argts[1].op == 'key' and 'load(' in show(e.argts[1])
           and not any(x.op == 'const' and x.args[0] == '*' and c.pol
                       for c in e.pc for x in walk(c.t))]
    if not ld or not evs:
        return
    keys, times = header_keys(p)

    def src(t):
        return is_call(t, 'load')
    groups = {}
    for k in list(keys) + ['reftr_0', 'reftr_1', 'reftr_0_av',
                           'reftr_1_av', 'mean', 'tw_start']:
        st = [(feasible(e, key_leaf(src, k)), e) for e in evs]
        if any(d is None for d, e in st):
            return
        groups[k] = frozenset(show(e.recv.t) for d, e in st if d)
    hdr = groups['network'] if 'network' in groups else None
    for k in keys + ['tw_start']:
        ctx.ob('attributes', 'WFC: %s is part of the header' % k,
               groups[k] == hdr and bool(hdr),
               '%s is not loaded like the rest of the header' % k,
               evs[0].where())
    for k in ('reftr_0', 'reftr_0_av'):
        ctx.ob('attributes', 'WFC: %s is loaded' % k, bool(groups[k])
               and groups[k] != hdr, '%s is loaded into the header' % k,
               evs[0].where())
    ctx.ob('attributes', 'WFC: averages apart from coherences',
           groups['reftr_0'] != groups['reftr_0_av'],
           'averages and coherences are loaded into one dictionary',
           evs[0].where())


def iterates(f):
    return any(isinstance(n, (ast.For, ast.comprehension)) and 'self' in
               ast.unparse(n.iter) for n in ast.walk(f.node))


# ------------------------------------------- zero and empty are values too
FILES = (SAVE, LOAD, CONV, READ, TONUM, TOUTC, 'monitor.dv.DV.save',
         'monitor.dv.read_dv', 'monitor.wfc.WFC.save', 'monitor.wfc.read_wfc',
         'correlate.stream.CorrBulk.save', 'correlate.stream.read_corr_bulk')


def entry(t):
    """The term is one entry of a header, a file or a parameter set."""
    if t.op in ('item', 'value'):
        return True
    return t.op == 'call' and MD.cname(t) in ('get', 'pop') and \
        t.args[0].op == 'attr' and len(t.args) > 1


def is_test(root, node):
    """The truth of the node is asked, not its value."""
    for n in ast.walk(root):
        for fld in ('test', 'ifs'):
            xs = getattr(n, fld, None) or []
            for x in xs if isinstance(xs, list) else [xs]:
                if any(y is node for y in ast.walk(x)):
                    return True
    return False


def truth(ctx):
    p = ctx.p
    for q in FILES:
        f = opt(p, q)
        if f is None:
            continue
        i = Interp(p, budget=80000, no_inline=quals(p, *[
            x for x in FILES if x != q]))
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None) \
            if f.cls and not f.is_static else None
        i.run(f, {}, sv, st)
        ctx.saw(i)
        bad = ''
        for e in i.events:
            if e.kind == 'coalesce' and any(entry(t) for t in e.argts[:-1]) \
                    and not is_test(e.func.node, e.node):
                bad = e
            if e.kind in ('setitem', 'display') or e.kind == 'call' and \
                    'savez' in str(e.name):
                for c in e.pc:
                    t = c.t
                    while t.op in ('not', 'un') and len(t.args) > 0 and \
                            isinstance(t.args[-1], type(t)):
                        t = t.args[-1]
                    if c.kind not in ('for', 'exc') and entry(t) and any(
                            x == t for v in e.argts for x in walk(v)):
                        bad = e
        cut = part_of(i)
        ctx.ob('lossless', 'whole entries in %s' % short(f.qual), not cut,
               'only a part of an entry is kept, or its order is changed: %s'
               % (cut[0] if cut else ''), cut[1] if cut else f.where())
        ctx.ob('lossless', 'zero and empty entries in %s' % short(f.qual), not bad,
               'an entry that is zero, False or empty is replaced or left '
               'out', bad.where() if bad else f.where())


def part_of(i):
    """An entry of which a part is stored or loaded."""
    for e in i.events:
        if not (e.kind == 'setitem' and len(e.argts) == 2 or
                e.kind == 'call' and 'savez' in str(e.name)):
            continue
        vals = e.argts[:1] if e.kind == 'setitem' else list(e.argts) + list(
            (e.kwts or {}).values())
        for t in vals:
            for x in walk(t):
                if x.op == 'item' and x.args[1].op == 'slice' and any(
                        a != mk('const', None) for a in x.args[1].args) \
                        and entry(x.args[0]):
                    return show(x)[:80], e.where()
                if x.op == 'call' and MD.cname(x) in REORDER and any(
                        entry(y) for y in x.args[1:]):
                    return show(x)[:80], e.where()
    return None


def run(ctx):
    ctx.rule('npz', 'every key of a header is stored and loaded')
    ctx.rule('times', 'times, and only times, are converted both ways')
    ctx.rule('one-time', 'a list of one time stays a list')
    ctx.rule('lossless', 'no value is changed on its way to or from a file')
    ctx.rule('attributes', 'every array of a result object is stored and '
             'restored under one key')
    ctx.rule('separate', 'arrays of an object are not part of its header')
    ctx.rule('parameters', 'processing parameters come back as they were')
    ctx.rule('hdf5', 'data and header of a dataset belong together')
    ctx.rule('bulk', 'a reloaded CorrBulk keeps header and history')
    allk = npz(ctx)
    attributes(ctx)
    wfc(ctx)
    not_header(ctx, allk or [])
    params(ctx)
    hdf5(ctx, allk or [])
    same(ctx)
    bulk(ctx)
    truth(ctx)
    ctx.atleast('npz', 10)
    ctx.atleast('attributes', 5)
    ctx.atleast('hdf5', 5)
