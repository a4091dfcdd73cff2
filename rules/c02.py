"""C02: work shares are complete, disjoint and all used."""
import ast
from sa.interp import Interp, State, Val, E
from sa import mpi
from sa.util import make_self, short
from sa.terms import show, walk, mk, NONE, T, alts
from sa.project import AnalysisBroken

UN = 'unordered'
PART = 'partial'
DUP = 'dup'
RED = 'reduced'
OWN = 'own'
UNSRC = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk',
         'pathlib.Path.glob', 'pathlib.Path.iterdir', 'glob.glob1'}
ORDERED = {'sorted', 'numpy.unique', 'numpy.sort', 'len', 'sum', 'min',
           'max', 'any', 'all', 'numpy.amax', 'numpy.amin',
           'numpy.setdiff1d', 'numpy.union1d', 'numpy.intersect1d',
           'numpy.max', 'numpy.min', 'numpy.any', 'numpy.all'}
WRITERS = {'save', 'savefig', 'add_correlation', 'add_correlations',
           'add_corr_options', 'to_csv', 'savez', 'savez_compressed',
           'savetxt', 'add_co'}


def is_rank(t):
    return t.op == 'rank'


def is_size(t):
    return t.op == 'size'


def strip_int(t):
    """Peel integer truncation of a non-negative value."""
    floored = False
    while True:
        if t.op == 'call':
            f = t.args[0]
            if f.op == 'attr' and f.args[1] == 'astype' and 'int' in show(
                    t.args[1]):
                t, floored = f.args[0], True
                continue
            if f.op == 'ref' and f.args[0] in (
                    'int', 'numpy.floor', 'numpy.trunc', 'math.floor',
                    'numpy.fix', 'numpy.int32', 'numpy.int64') and len(
                        t.args) == 2:
                t, floored = t.args[1], True
                continue
            if f.op == 'ref' and f.args[0] in (
                    'numpy.array', 'numpy.asarray', 'list') and len(
                        t.args) >= 2:
                t = t.args[1]
                continue
        if t.op == 'bin' and t.args[0] == 'FloorDiv':
            return mk('bin', 'Div', t.args[1], t.args[2]), True
        return t, floored


def arange_n(t):
    """n when t runs over 0..n-1."""
    if t.op == 'call' and t.args[0].op == 'ref':
        n = t.args[0].args[0]
        a = [x for x in t.args[1:] if x.op != 'kw']
        if n in ('numpy.arange', 'range', 'builtins.range'):
            if len(a) == 1:
                return a[0]
            if len(a) == 2 and a[0].op == 'const' and a[0].args[0] == 0:
                return a[1]
        if n in ('numpy.array', 'list', 'tuple', 'numpy.asarray') and a:
            return arange_n(a[0])
    if t.op in ('index', 'elem'):
        return arange_n(t.args[0]) or (
            mk('lenof', t.args[0]) if t.op == 'index' else None)
    return None


def factors(t):
    if t.op == 'bin' and t.args[0] == 'Mult':
        return factors(t.args[1]) + factors(t.args[2])
    return [t]


def same_n(a, b):
    """The same number of items (len(x) and the positions of x)."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == 'lenof' and y.op == 'call' and y.args[0].op == 'ref' \
                and y.args[0].args[0] == 'len' and y.args[1] is x.args[0]:
            return True
    return False


def share_mask(t):
    """n if `t` (compared with the rank) assigns each of n items once."""
    if t.op == 'elem':
        # one of the owners
        return share_mask(t.args[0])
    if t.op == 'item' and arange_n(t.args[1]) is not None:
        # the owner of the item at hand
        return share_mask(t.args[0])
    if t.op == 'bin' and t.args[0] == 'Mod' and is_size(t.args[2]):
        return arange_n(t.args[1]) or mk('any', t.args[1])
    x, floored = strip_int(t)
    if not floored:
        return None
    if x.op == 'bin' and x.args[0] == 'Div':
        den = x.args[2]
        fs = factors(x.args[1])
        if len(fs) == 2:
            for a, b in (fs, fs[::-1]):
                if is_size(b) and same_n(arange_n(a), den):
                    return den
    if x.op == 'bin' and x.args[0] == 'Mult':
        # (arange(n) / n) * size
        for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if is_size(b) and a.op == 'bin' and a.args[0] == 'Div' and \
                    same_n(arange_n(a.args[1]), a.args[2]):
                return a.args[2]
    return None


def share(t):
    """n if the term is (a mask, index set or selection of) this process's
    share of n items; None otherwise."""
    if t.op == 'cmp' and t.args[0] == 'Eq':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if is_rank(b):
                return share_mask(a)
    if t.op == 'item':
        b, k = t.args
        n = share(k)
        if n is not None:
            return n if arange_n(b) is n or arange_n(b) is None else None
        if is_rank(k) and b.op == 'call' and b.args[0].op == 'ref' and \
                b.args[0].args[0] == 'numpy.array_split':
            return arange_n(b.args[1]) or mk('lenof', b.args[1])
        if k.op == 'slice' and slice_share(k):
            return arange_n(b) or mk('lenof', b)
        if k.op == 'const' and k.args[0] == 0:
            return share(b)
    if t.op == 'call' and t.args[0].op == 'ref':
        n = t.args[0].args[0]
        a = [x for x in t.args[1:] if x.op != 'kw']
        if n in ('range', 'numpy.arange') and len(a) == 3 and is_rank(
                a[0]) and is_size(a[2]):
            return a[1]
        if n in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero',
                 'numpy.array', 'list', 'numpy.asarray', 'tqdm.tqdm',
                 'tqdm.auto.tqdm', 'tuple') and a:
            return share(a[0])
        if n in ('range', 'numpy.arange') and len(a) == 2 and slice_share(
                mk('slice', a[0], a[1], NONE)):
            return mk('any', a[1])
        if n == 'itertools.islice' and len(a) == 4 and is_rank(a[1]) and \
                is_size(a[3]):
            return mk('lenof', a[0])
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
            'tolist', 'astype', 'nonzero', 'copy', 'flatten', 'ravel'):
        return share(t.args[0].args[0])
    return None


def slice_share(k):
    lo, hi, step = k.args
    if is_rank(lo) and is_size(step):
        return hi is NONE or True
    # contiguous blocks: hi must be lo of the next rank, and lo linear
    if step is NONE and any(is_rank(x) for x in walk(lo)) and hi is not NONE:
        nxt = rewrite(lo)
        if hi in nxt:
            x, floored = strip_int(lo)
            if x.op == 'bin' and x.args[0] == 'Div' and floored and is_size(
                    x.args[2]):
                return True
            if x.op == 'bin' and x.args[0] == 'Mult':
                return ceil_chunk(x)
    return False


def rewrite(lo):
    from sa.terms import subst
    out = set()
    for a in (mk('bin', 'Add', mk('rank'), mk('const', 1)),
              mk('bin', 'Add', mk('const', 1), mk('rank'))):
        out.add(subst(lo, lambda t: a if is_rank(t) else None))
    return out


def ceil_chunk(x):
    for a in (x.args[1], x.args[2]):
        if any('ceil' in show(y) for y in walk(a) if y.op == 'call'):
            return True
        if a.op == 'un' and '//' in show(a) and show(a).count('-') >= 1:
            return True
    return False


def own_index(t):
    """Does the term denote only positions of the own share?"""
    if share(t) is not None:
        return share(t)
    if t.op == 'tuple' and t.args:
        return own_index(t.args[0])
    if t.op in ('elem', 'index') and share(t.args[0]) is not None:
        return share(t.args[0])
    if t.op == 'phi':
        ns = [own_index(a) for a in t.args]
        if all(n is not None for n in ns):
            return ns[0]
    return None


def run(ctx):
    p = ctx.p
    ctx.rule('share', 'each use of the process number selects a share that '
             'is complete and disjoint over all processes')
    ctx.rule('length', 'the number of items that is split is the length of '
             'the collection itself')
    ctx.rule('whole-share', 'the own share is worked through without '
             'leaving out a fixed part')
    ctx.rule('order', 'the collection that is split has the same order on '
             'all processes')
    ctx.rule('partial-read', 'an array holding only the own share is read '
             'only there until it was combined')
    ctx.rule('reduction', 'combined arrays start at zero, are written only '
             'at the own share, and are summed exactly once')
    ctx.rule('gather', 'what is gathered is the own share, and all shares '
             'of the result are used')
    ctx.rule('own-files', 'files are written by one process or for own '
             'items only')
    seen_rank = {}
    walked = set()

    def note(i, t, node):
        if not isinstance(t, T):
            return
        for x in walk(t, walked):
            if any(isinstance(a, T) and is_rank(a) for a in x.args) or (
                    x.op == 'slice' or (x.op == 'call' and x.args[
                        0].op == 'ref' and x.args[0].args[0] in (
                            'range', 'numpy.arange'))) and any(
                        arith_rank(a) for a in x.args):
                seen_rank.setdefault((x, i.frames[-1].func.qual), node)

    def on_call(interp, st, name, recv, args, kwargs, node):
        if name in ORDERED and args:
            r = mpi.on_call(interp, st, name, recv, args, kwargs, node)
            if r is not None:
                return r
            args = [scrubbed(st, interp, a, UN) for a in args]
            # evaluate with the order dependence removed
            flag = interp.__dict__.setdefault('_in', set())
            if id(node) in flag:
                return None
            flag.add(id(node))
            try:
                return interp.external(st, name, recv, None, args, kwargs,
                                       [], node)
            finally:
                flag.discard(id(node))
        if name in ('range', 'numpy.arange') and args and any(
                arith_rank(interp.deep(st, a)) for a in args):
            t = mk('call', mk('ref', name), *[interp.deep(st, a)
                                              for a in args])
            note(interp, t, node)
            return Val(t, frozenset([mpi.RANK, OWN]))
        m = mpi.coll_name(name, None if recv is None else interp.deep(
            st, recv)) if name else None
        if m is not None and m in mpi.UNIFORM:
            reduction(interp, st, m, args, kwargs, node)
            r = mpi.on_call(interp, st, name, recv, args, kwargs, node)
            if r is not None:
                for tg in (UN, PART, OWN):
                    r = mpi.scrub(interp, st, r, tg)
                    for a in args:
                        if m in ('Allreduce', 'Bcast', 'Allgather'):
                            mpi.scrub(interp, st, a, tg)
            return r
        if name == '.sort' and recv is not None:
            v = mpi.scrub(interp, st, recv, UN)
            rename(interp, st, recv, v, node)
            return None
        r = mpi.on_call(interp, st, name, recv, args, kwargs, node)
        if r is not None:
            return r
        if name in ('set', 'frozenset') or name in UNSRC:
            flag = interp.__dict__.setdefault('_in', set())
            if id(node) in flag:
                return None
            flag.add(id(node))
            try:
                v = interp.external(st, name, recv, None, args, kwargs, [],
                                    node)
                for loc in v.locs:
                    if loc in st.heap:
                        o = st.heap[loc].clone()
                        o.tags |= {UN}
                        st.heap[loc] = o
                return v.tag(frozenset([UN]))
            finally:
                flag.discard(id(node))
        return None

    def rename(interp, st, recv, v, node):
        # the list object keeps its identity: only tags change
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and f.value.id in st.env:
            st.env[f.value.id] = v

    def scrubbed(st, interp, v, tag):
        tags = frozenset(x for x in v.tags if x != tag)
        locs = set()
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            c = o.clone()
            c.tags = frozenset(x for x in o.tags if x != tag)
            if c.elem is not None and tag in c.elem.tags:
                c.elem = Val(c.elem.t, frozenset(
                    x for x in c.elem.tags if x != tag), c.elem.locs,
                    c.elem.typ)
            nl = (loc, 'scrub')
            st.heap[nl] = c
            locs.add(nl)
        return Val(v.t, tags, frozenset(locs), v.typ)

    def objs(st, v):
        return [(x, st.heap[x]) for x in v.locs if x in st.heap]

    def reduction(interp, st, m, args, kwargs, node):
        fn = short(interp.frames[-1].func.qual)
        where = '%s:%d in %s' % (
            interp.frames[-1].func.module.relpath, node.lineno, fn)
        con = '%s -> %s(%s)' % (fn, m, ', '.join(
            ast.unparse(a)[:40] for a in node.args[:2]))
        if m in ('allgather', 'gather', 'Allgather') and args:
            ok = OWN in interp.deep_tags(st, args[0], 3)
            ctx.ob('gather', con, ok, 'gathers a value that is not a share: '
                   'every process contributes the same items', where)
        if m not in ('Allreduce',) or not args:
            return
        op = kwargs.get('op') or (args[2] if len(args) > 2 else None)
        ok = op is None or show(op.t).endswith('SUM')
        ctx.ob('reduction', con + ' op', ok, 'shares are combined with %s'
               % (op is not None and show(op.t)), where)
        inplace = 'IN_PLACE' in show(args[0].t)
        b = args[1] if inplace and len(args) > 1 else args[0]
        cont = [b]
        for loc, o in objs(st, b):
            if o.kind in ('list', 'tuple'):
                cont = [o.fields[k] for k in o.fields
                        if k == ('i', 0)] or cont
        for v in cont:
            if not v.locs:
                continue
            for loc, o in objs(st, v):
                t = v.t
                bad = [a for a in alts(t) if not zero_alloc(a)]
                ctx.ob('reduction', con + ' zero', not bad,
                       'the summed array does not start from zeros: %s'
                       % '; '.join(show(a)[:80] for a in bad), where)
                ctx.ob('reduction', con + ' own rows', (DUP, loc) not in o.tags,
                       'the summed array is also written outside the own '
                       'share', where)
                ctx.ob('reduction', con + ' once', (RED, loc) not in o.tags,
                       'the array was summed over the processes before',
                       where)
                ctx.ob('reduction', con + ' share', PART in o.tags,
                       'no share of the work is written to the summed '
                       'array', where)
                c = o.clone()
                c.tags = (c.tags | {(RED, loc)}) - {PART, (DUP, loc)}
                st.heap[loc] = c

    def zero_alloc(t):
        if t.op == 'call' and t.args[0].op == 'ref':
            n = t.args[0].args[0]
            if n in ('numpy.zeros', 'numpy.zeros_like'):
                return True
            if n == 'numpy.full' and len(t.args) > 2 and t.args[2].op == \
                    'const' and t.args[2].args[0] == 0:
                return True
        return False

    def label(interp, st, ev):
        for t in list(ev.argts) + list(ev.kwts.values()) + [
                c.t for c in ev.pc[-2:]]:
            note(interp, t, ev.node)
        if ev.kind == 'setitem' and ev.recv is not None and \
                len(ev.args) > 1:
            key = ev.argts[1]
            own = own_index(key) is not None or guarded(ev)
            for loc, o in objs(st, ev.recv):
                if o.kind != 'nd':
                    continue
                c = o.clone()
                if own:
                    c.tags = (c.tags | {PART}) - {(RED, loc)}
                else:
                    c.tags |= {(DUP, loc)}
                st.heap[loc] = c

    def guarded(ev):
        """Inside `if i % size == rank` for the written i."""
        return any(mpi.RANK in c.tags and (
            share(c.t) is not None and c.pol or not c.pol
            and c.t.op == 'cmp' and c.t.args[0] == 'NotEq' and share(
                mk('cmp', 'Eq', *c.t.args[1:])) is not None)
            for c in ev.pc)

    def on_item(interp, st, base, key, out, node):
        kt = interp.deep(st, key)
        bt = interp.deep(st, base)
        note(interp, mk('item', base.t, kt), node)
        fn = short(interp.frames[-1].func.qual)
        where = '%s:%d in %s' % (
            interp.frames[-1].func.module.relpath, node.lineno, fn)
        try:
            con = '%s -> %s' % (fn, ast.unparse(node)[:60])
        except Exception:
            con = fn
        sel = own_index(kt)
        split = sel is not None or (
            kt.op == 'slice' and any(is_rank(x) for x in walk(kt)))
        if split and arange_n(bt) is None and share(bt) is None:
            tags = interp.deep_tags(st, base, 2)
            o = objs(st, base)
            nd = any(x.kind == 'nd' for _, x in o)
            ctx.ob('order', con, UN not in tags,
                   'the split collection comes from an unordered source',
                   where)
            if not nd and mpi.RANK in base.tags:
                ctx.ob('order', con + ' same', False,
                       'the split collection differs between processes',
                       where)
        if sel is not None and not any(x.op == 'rank' for x in walk(bt)):
            ctx.ob('length', con, length_ok(sel), 'the number of items '
                   'split is %s' % show(sel)[:100], where)
        if share(bt) is not None and kt.op == 'slice':
            if not (kt.args[0] is NONE and kt.args[1] is NONE) and not (
                    slice_share(kt)):
                ctx.ob('whole-share', con, False,
                       'only a part of the own share is used', where)
        if share(bt) is not None:
            ctx.ob('whole-share', con, True, '', where)
        # coll results
        if base.t.op == 'coll' and base.t.args[0] in (
                'allgather', 'gather') and \
                kt.op in ('const', 'slice') and not full(kt):
            ctx.ob('gather', con, False, 'only a fixed part of the gathered '
                   'shares is used', where)
        # partial arrays
        for loc, o in objs(st, base):
            if o.kind == 'nd' and PART in o.tags:
                ok = own_index(kt) is not None or first_full(kt)
                ctx.ob('partial-read', con, ok, 'rows of other processes '
                       'are read before the shares were combined', where)
        if sel is not None or (kt.op == 'slice' and slice_share(kt)) or \
                share(out.t) is not None:
            return out.tag(frozenset([OWN]))
        return None

    def on_cmp(interp, st, v):
        t = v.t
        if t.op == 'cmp' and t.args[0] in ('Eq', 'NotEq') and (
                share(mk('cmp', 'Eq', *t.args[1:])) is not None):
            return v.tag(frozenset([OWN]))
        # x for x, owner in zip(items, owners) if owner == rank
        if t.op == 'cmp' and t.args[0] == 'Eq' and any(
                is_rank(a) for a in t.args[1:]) and any(
                a.op == 'elem' for a in t.args[1:]):
            return v.tag(frozenset([OWN]))
        return None

    def full(kt):
        return kt.op == 'slice' and kt.args[0] is NONE and \
            kt.args[1] is NONE

    def first_full(kt):
        """Selects along other axes only."""
        k = kt.args[0] if kt.op == 'tuple' and kt.args else kt
        return full(k)

    def length_ok(n):
        if n.op == 'phi':
            return all(length_ok(a) for a in n.args)
        if n.op in ('lenof', 'any'):
            return True
        if n.op == 'call' and n.args[0].op == 'ref' and \
                n.args[0].args[0] == 'len':
            return True
        if n.op == 'call' and n.args[0].op == 'attr' and \
                n.args[0].args[1] in ('count', '__len__'):
            return True
        if n.op == 'item' and 'shape' in show(n.args[0])[-8:]:
            return True
        if n.op == 'attr' and n.args[1] in ('size',):
            return True
        return n.op in ('param', 'var')

    def on_iter(interp, st, it, node):
        t = interp.deep(st, it)
        note(interp, t, node)
        fn = short(interp.frames[-1].func.qual)
        where = '%s:%d in %s' % (
            interp.frames[-1].func.module.relpath, node.lineno, fn)
        todo = [it]
        for v in todo:
            for loc, o in objs(st, v):
                if o.kind == 'wrap' and len(todo) < 20:
                    todo += [x for x in o.data[1] if isinstance(x, Val)]
        if len(todo) > 2 and any(
                share_mask(x.t) is not None for x in todo):
            # zip(owners, items)
            ctx.ob('order', fn + ' -> loop over the owners', not any(
                UN in interp.deep_tags(st, x, 2) for x in todo[1:]),
                'the split collection comes from an unordered source', where)
        if todo:
            for v in todo:
                for l2, o2 in objs(st, v):
                    if o2.kind == 'nd' and PART in o2.tags:
                        ctx.ob('partial-read', fn + ' -> loop', False,
                               'rows of other processes are read before '
                               'the shares were combined', where)

    def interp():
        i = Interp(p, on_call=on_call, on_attr=mpi.on_attr, label=label,
                   on_item=on_item, on_iter=on_iter, on_cmp=on_cmp,
                   budget=250000,
                   clean_cls={p.cls('Store_Client').qual})
        i.order_tags = frozenset([UN])
        return i

    evs = []
    done = set()
    for cname, meths in (('Correlator', ['pxcorr']), ('Monitor', [
            'compute_velocity_change_bulk', 'compute_components_average',
            'compute_waveform_coherence_bulk'])):
        cls = p.cls(cname)
        i = interp()
        st, sv = make_self(i, cls, State())
        evs += [(e, i) for e in i.events]
        ctx.saw(i)
        done |= i.funcs_seen
        for m in meths:
            f = p.method(cls, m)
            if f is None:
                raise AnalysisBroken('no %s.%s' % (cname, m))
            i = interp()
            i.run(f, None, sv, st.copy())
            evs += [(e, i) for e in i.events]
            done |= i.funcs_seen
            ctx.saw(i)
    for f in p.all_funcs():
        if f.qual in done:
            continue
        if any(isinstance(n, ast.Attribute) and n.attr in (
                'Get_rank', 'Get_size', 'rank', 'psize')
                for n in ast.walk(f.node)) and '.plot' not in \
                f.module.name:
            i = interp()
            i.run(f)
            evs += [(e, i) for e in i.events]
            ctx.saw(i)
    # every use of the rank
    for (x, q), node in sorted(seen_rank.items(),
                               key=lambda z: (z[0][1], z[0][0].id)):
        ok, why = rank_use(x)
        if ok is None:
            continue
        f = p.by_qual.get(q)
        ctx.ob('share', '%s -> %s' % (short(q), stable(x)), ok, why,
               '%s:%s in %s' % (f.module.relpath if f else '?',
                                getattr(node, 'lineno', '?'), short(q)))
    # writers
    for e, i in evs:
        if e.kind != 'call' or not e.name:
            continue
        m = e.name.rpartition('.')[2]
        w = m in WRITERS and (e.name.startswith('.') or 'seismic' in e.name
                              or 'numpy' in e.name or 'pyplot' in e.name)
        if e.name == 'open':
            md = e.argts[1] if len(e.argts) > 1 else e.kwts.get('mode')
            w = md is not None and not (
                md.op == 'const' and 'r' in str(md.args[0]))
        if not w:
            continue
        ok = OWN in e.pctags() or OWN in e.alltags or any(
            rootish(c.t, c.pol) for c in e.pc)
        if e.name == 'open' and e.args:
            ok = ok or any(is_rank(x) for x in walk(e.argts[0]))
        ctx.ob('own-files', '%s -> %s' % (short(e.func.qual), e.name), ok,
               'every process writes the same file', e.where())
    # the name of a file tells apart all items that are split
    parts = {}
    for e, i in evs:
        if e.kind == 'setname' and e.args:
            j = split_part(e.args[0].t)
            if j is not None:
                parts.setdefault((e.func.qual, j[0]), []).append((j[1], e))
    for e, i in evs:
        if e.kind != 'call' or e.name != 'os.path.join':
            continue
        used = {}
        for t in e.argts:
            for x in walk(t):
                j = split_part(x)
                if j is not None:
                    used.setdefault(j[0], set()).add(j[1])
        for base, idx in used.items():
            need = {n for n, s in parts.get((e.func.qual, base), ())
                    if set(c.key() for c in s.pc) <= set(
                        c.key() for c in e.pc)}
            ctx.ob('own-files', '%s -> name of %s' % (
                short(e.func.qual), ast.unparse(e.node)[-50:]),
                need <= idx, 'items of different processes that differ '
                'only in part %s share a file' % sorted(need - idx),
                e.where())
    ctx.atleast('share', 3)
    ctx.atleast('own-files', 2)


def split_part(t):
    """(item, k) when t is part k of an own item that was split up."""
    if t.op == 'item' and t.args[1].op == 'const' and isinstance(
            t.args[1].args[0], int):
        b = t.args[0]
        if b.op == 'call' and b.args[0].op == 'attr' and \
                b.args[0].args[1] == 'split':
            x = b.args[0].args[0]
            if x.op in ('elem', 'index', 'item') and any(
                    is_rank(y) for y in walk(x)):
                return x, t.args[1].args[0]
    return None


def rootish(t, pol):
    """Does the condition leave one process only?"""
    if t.op == 'un' and t.args[0] in ('Not', 'not'):
        return rootish(t.args[1], not pol)
    if is_rank(t):
        return not pol
    if t.op == 'bool':
        return pol == (t.args[0] == 'and') and any(
            rootish(a, pol) for a in t.args[1:])
    if t.op != 'cmp' or not any(is_rank(a) for a in t.args[1:]):
        return False
    return (t.args[0] in ('Eq', 'Is', 'LtE')) == pol


def stable(x):
    s = show(x, 5)
    import re
    return re.sub(r'\d{6,}', '#', s)[:120]


def arith_rank(t):
    if not isinstance(t, T):
        return False
    if is_rank(t):
        return True
    if t.op == 'bin':
        return arith_rank(t.args[1]) or arith_rank(t.args[2])
    if t.op == 'un':
        return arith_rank(t.args[1])
    if t.op == 'call' and t.args[0].op == 'ref' and t.args[0].args[0] in (
            'int', 'min', 'max', 'numpy.ceil', 'numpy.floor', 'round',
            'math.ceil', 'math.floor'):
        return any(arith_rank(a) for a in t.args[1:])
    return False


def rank_use(x):
    """(ok, why) for a term with the rank as direct operand; ok None when
    the term is no selection."""
    if x.op == 'cmp':
        op, a, b = x.args
        o = b if is_rank(a) else a
        if o.op == 'const':
            if o.args[0] == 0 and op in ('Eq', 'NotEq', 'Gt', 'LtE',
                                         'Lt', 'GtE', 'Is', 'IsNot'):
                return True, ''
            return False, 'work is given to a fixed process other than ' \
                'the first, which need not exist'
        if op in ('Eq', 'NotEq'):
            if share_mask(o) is not None:
                return True, ''
            if o.op == 'bin' and o.args[0] == 'Sub' and is_size(o.args[1]):
                return True, ''
            return False, 'not every item belongs to exactly one process: ' \
                + show(x, 8)[:160]
        return False, 'shares of different processes overlap or leave ' \
            'items out: ' + show(x, 8)[:160]
    if x.op == 'slice':
        return (True, '') if slice_share(x) else (
            False, 'slices of different processes overlap or leave items '
            'out: ' + show(x, 8)[:160])
    if x.op == 'item':
        b, k = x.args
        if is_rank(k):
            ok = b.op == 'call' and b.args[0].op == 'ref' and \
                b.args[0].args[0] == 'numpy.array_split' and is_size(
                    b.args[2] if len(b.args) > 2 else NONE)
            return ok, 'item number `rank` of %s' % show(b)[:120]
        return None, ''
    if x.op == 'call' and x.args[0].op == 'ref' and x.args[0].args[0] in (
            'range', 'numpy.arange'):
        return (share(x) is not None), 'range of different processes ' \
            'overlap or leave items out: ' + show(x)[:120]
    if x.op == 'bin' and x.args[0] in ('Sub', 'Mod', 'FloorDiv', 'Div'):
        return False, 'arithmetic on the process number: ' + show(x)[:120]
    return None, ''
