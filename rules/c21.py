"""C21: a failing item of a batch neither stops nor corrupts the others.

The batch functions are interpreted with their calls inlined.  Every risky
call that happens inside a loop has to be inside a try that is itself inside
the loop, whose handlers catch the error, report it and go on with the next
item.  A data-flow pass over all loops of the package looks for values that a
failed item leaves to the next one.
"""
import ast
from sa.interp import Interp, State, Val
from sa.util import short

E = frozenset()
ANY = ('Exception', 'BaseException', None)
M = 'monitor.monitor.Monitor.'
# entry, callees that work on one item, error that has to be caught
TABLE = [
    (M + 'compute_velocity_change_bulk',
     ('Monitor.compute_velocity_change', 'DBHandler.get_available_channels',
      'CorrelationDataBase.__init__', 'DBHandler.__init__', 'h5py.File'),
     'Exception'),
    (M + 'compute_waveform_coherence_bulk',
     ('Monitor.compute_waveform_coherence', 'average_components_wfc',
      'WFC.save', 'DBHandler.get_available_channels', 'DBHandler.get_data',
      'CorrBulk.wfc', 'CorrelationDataBase.__init__', 'DBHandler.__init__'),
     'Exception'),
    (M + 'compute_waveform_coherence',
     ('CorrBulk.wfc', 'CorrBulk.extract_multi_trace', 'CorrBulk.trim',
      'WFC.compute_average', 'WFC.save'), 'Exception'),
    (M + 'compute_components_average',
     ('read_dv', 'average_components', 'average_components_mem_save',
      'DV.save', 'DV.plot'), 'Exception'),
    ('monitor.dv.read_dv', ('read_dv', 'numpy.load', 'np.load'),
     'Exception'),
    ('plot.plot_multidv.plot_multiple_dv', ('read_dv',), 'Exception'),
    ('utils.raw_analysis.spct_series_welch',
     ('raw_analysis.preprocess', '.welch', 'pchip_interpolate',
      'remove_response'), 'Exception'),
    ('correlate.correlate.Correlator._generate_data',
     ('preprocess_stream', 'resample_or_decimate'), 'ValueError'),
    ('utils.miic_utils.resample_or_decimate',
     ('resample_or_decimate',), 'ValueError'),
    ('correlate.preprocessing_stream.cos_taper_st', ('cos_taper',),
     'ValueError'),
    ('monitor.monitor.correct_time_shift_several', ('correct_dv_shift',),
     'ValueError'),
    ('db.corr_hdf5.DBHandler.add_correlation', ('.create_dataset',),
     'ValueError'),
]
REPORT = ('exception', 'error', 'warning', 'warn', 'critical', 'info',
          'print', 'log', 'write')


def matches(name, risky):
    name = str(name)
    for r in risky:
        if name == r or name.endswith('.' + r.lstrip('.')):
            return True
        if r.startswith('.') and name.endswith(r):
            return True
    return False


def catches(types, need):
    for t in types:
        if t in ANY or t == need:
            return True
    return False


def htypes(h):
    if h.type is None:
        return [None]
    el = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(x).split('.')[-1] for x in el]


def handler_fault(i, tr, need):
    """Why a handler stops the batch or hides the failure, or ''."""
    hs = tr['handlers']
    for h, a, b, alive in hs:
        # only the handlers that can see the error
        inside = [e for e in i.events if a < e.seq <= b]
        own = [e for e in inside if e.kind == 'raise' and not [
            t for t in e.tries if t not in tr['outer']]]
        if any(True for e in own):
            return 'the handler raises again'
        if tr['here']:
            for x in body_walk(h.body):
                if isinstance(x, ast.Return):
                    return 'the handler leaves the loop with a return'
                if isinstance(x, ast.Break):
                    return 'the handler leaves the loop with a break'
        rep = [e for e in inside if e.kind == 'call' and
               str(e.name).split('.')[-1].lower() in REPORT]
        if not rep:
            return 'the handler does not report the failure'
        if catches(htypes(h), need):
            break
    return ''


def body_walk(body):
    """Statements without nested loops (for break) and functions."""
    for s in body:
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef,
                          ast.ClassDef)):
            for x in ast.walk(s):
                if isinstance(x, ast.Return):
                    yield x
            continue
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            yield from body_walk(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []):
            yield from body_walk(h.body)


def judge(i, ev, need):
    """'' if the call is protected inside its loop, else the reason."""
    why = 'no try inside the loop catches an error of this item'
    for t in ev.tries:
        tr = i.tryinfo[t]
        if not tr['loops'] or tr['loops'] != ev.loops[:len(tr['loops'])]:
            continue
        if not catches(tr['types'], need):
            why = 'only %s is caught' % ', '.join(map(str, tr['types']))
            continue
        bad = handler_fault(i, tr, need)
        if not bad:
            return ''
        why = bad
    return why


# --------------------------------------------------------------- carry over
def stores(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


class Flow:
    """Per-iteration definite assignment and stale reads of one loop body.

    A name is 'stale' once a statement of a try that assigns it can have
    failed before the assignment in this iteration; reading a stale name
    reads the value of an earlier item.
    """

    def __init__(self, out):
        self.out = out

    def reads(self, node, stale):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    x.id in stale:
                self.out.append((x.id, x, stale[x.id]))

    def block(self, body, fresh, stale):
        """-> (fresh, stale) or None if the end is not reached"""
        for s in body:
            r = self.stmt(s, fresh, stale)
            if r is None:
                return None
            fresh, stale = r
        return fresh, stale

    def join(self, rs):
        rs = [r for r in rs if r is not None]
        if not rs:
            return None
        fresh = set.intersection(*[r[0] for r in rs])
        stale = {}
        for r in rs:
            stale.update(r[1])
        return fresh, stale

    def assign(self, names, fresh, stale):
        return fresh | names, {k: v for k, v in stale.items()
                               if k not in names}

    def stmt(self, s, fresh, stale):
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            self.reads(s, stale)
            return None
        if isinstance(s, ast.If):
            self.reads(s.test, stale)
            return self.join([self.block(s.body, fresh, stale),
                              self.block(s.orelse, fresh, stale)])
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.reads(s.iter, stale)
                f2, s2 = self.assign(stores(s.target), fresh, stale)
            else:
                self.reads(s.test, stale)
                f2, s2 = fresh, stale
            r = self.block(s.body, f2, s2)
            return self.join([(fresh, stale), r, self.block(
                s.orelse, fresh, stale)])
        if isinstance(s, (ast.With,)):
            for it in s.items:
                self.reads(it.context_expr, stale)
            f2, s2 = fresh, stale
            for it in s.items:
                if it.optional_vars is not None:
                    f2, s2 = self.assign(stores(it.optional_vars), f2, s2)
            return self.block(s.body, f2, s2)
        if isinstance(s, ast.Try):
            end = self.block(s.body, fresh, stale)
            if end is not None and s.orelse:
                end = self.block(s.orelse, *end)
            outs = [end]
            maybe = set()
            for x in s.body:
                maybe |= stores(x)
            st2 = dict(stale)
            for n in maybe - fresh:
                st2[n] = s
            for h in s.handlers:
                outs.append(self.block(h.body, set(fresh), dict(st2)))
            r = self.join(outs)
            if s.finalbody:
                fr, sl = r if r is not None else (fresh, st2)
                f = self.block(s.finalbody, fr, sl)
                return f if r is not None else None
            return r
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.assign({s.name}, fresh, stale)
        self.reads(s, stale)
        if isinstance(s, ast.Delete):
            return fresh, stale
        return self.assign(stores(s), fresh, stale)


def carry(ctx, p):
    n = 0
    for f in p.all_funcs():
        loops = [x for x in ast.walk(f.node)
                 if isinstance(x, (ast.For, ast.While))]
        for lp in loops:
            if not any(isinstance(x, ast.Try) for x in ast.walk(lp)):
                continue
            n += 1
            out = []
            fl = Flow(out)
            fresh = stores(lp.target) if isinstance(lp, ast.For) else set()
            fl.block(lp.body, fresh, {})
            bad = sorted(set(x[0] for x in out))
            ctx.ob('stale', '%s loop %s' % (
                short(f.qual), ast.unparse(lp.target) if isinstance(
                    lp, ast.For) else 'while'), not bad,
                'after a failed item %s still holds the value of an earlier '
                'item' % ', '.join(bad),
                '%s:%d' % (f.where().rsplit(':', 1)[0],
                           out[0][1].lineno if out else lp.lineno))
    ctx.atleast('stale', 3)


def run(ctx):
    p = ctx.p
    ctx.rule('isolated', 'a call that works on one item of a batch is inside '
             'a try inside the loop whose handler catches the error, '
             'reports it and goes on')
    ctx.rule('stale', 'no value that a try inside a loop assigns is read '
             'after its handler without being assigned for this item')
    ctx.rule('partial', 'inside the try of an item nothing that can fail '
             'follows the first result handed to the collection of all '
             'items')
    ctx.rule('own', 'processing one item changes no object that outlives '
             'the item except the collections of results')
    ctx.rule('afresh', 'an object made before a loop whose data one turn '
             'replaces is not what the next turn starts from')
    for q, risky, need in TABLE:
        f = p.func(q, required=False)
        if f is None:
            continue
        i = Interp(p, budget=200000)
        st = State()
        sv = i.param(st, 'self', f.cls.qual, None) \
            if f.cls is not None and not f.is_static else None
        i.run(f, {}, sv, st)
        ctx.saw(i)
        mod = f.qual.rsplit('.', 2)[0]
        done = {}
        for e in i.events:
            if e.kind not in ('call', 'new', 'iter-gen') or not e.loops:
                continue
            if not matches(e.name, risky):
                continue
            # the loop belongs to the batch function or its helpers
            lf = i.loopfunc[e.loops[0]]
            if lf is not f and not lf.qual.startswith(mod):
                continue
            if e.kind == 'call' and is_gen(p, e):
                continue        # the body runs when it is iterated
            why = judge(i, e, need)
            key = '%s %s' % (short(f.qual), str(e.name).split('.')[-1])
            if key not in done or why and not done[key][0]:
                done[key] = (why, e.where())
        for key, (why, where) in sorted(done.items()):
            ctx.ob('isolated', key, not why, why, where)
        partial(ctx, i, f, need)
        if q.startswith(M):
            own(ctx, i, st, f)
            afresh(ctx, i, f)
    ctx.atleast('isolated', 8)
    carry(ctx, p)


def afresh(ctx, i, f):
    """Data that a turn of a loop changes are not what the next starts from.

    An object created before the loop whose data a turn replaces must no
    longer be held, at the end of the turn, by a variable the body reads.
    """
    n = 0
    seen = {}
    for e in i.events:
        if e.kind != 'setattr' or e.name != 'data' or e.recv is None:
            continue
        for k, sid in enumerate(e.loops):
            if sid not in i.backs:
                continue
            s, lf, envs = i.backs[sid]
            if lf is not f:
                continue
            n += 1
            gone = {loc for loc in e.recv.locs
                    if i.loops_at.get(loc) is not None and
                    len(i.loops_at[loc]) <= k}
            reads = {x.id for b in s.body for x in ast.walk(b)
                     if isinstance(x, ast.Name) and
                     isinstance(x.ctx, ast.Load)}
            bad = sorted({v for env in envs for v, locs in env.items()
                          if v in reads and locs & gone})
            seen.setdefault(sid, [s, [], e])
            if bad:
                seen[sid] = [s, bad, e]
    for sid, (s, bad, e) in seen.items():
        ctx.ob('afresh', '%s loop %s' % (
            short(f.qual), ast.unparse(s.target) if isinstance(s, ast.For)
            else 'while'), not bad,
            'the next turn starts from %s, whose data this turn replaced'
            % ', '.join(bad), e.where())


def is_gen(p, e):
    g = p.by_qual.get(str(e.name))
    return g is not None and getattr(g, 'node', None) is not None and any(
        isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(g.node))


def partial(ctx, i, f, need):
    """Appends to outer collections come after everything that can fail."""
    per = {}
    for e in i.events:
        if not e.tries:
            continue
        t = e.tries[-1]
        tr = i.tryinfo[t]
        if not tr['loops'] or tr['func'] is not f or e.func is not f:
            continue
        if not catches(tr['types'], need):
            continue
        per.setdefault(t, []).append(e)
    for t, evs in per.items():
        tr = i.tryinfo[t]
        first = None
        bad = None
        for e in evs:
            if e.kind != 'call':
                continue
            last = str(e.name).split('.')[-1]
            if last in ('append', 'extend', 'add', 'insert') and \
                    e.recv is not None and outer(i, e.recv, tr):
                first = first or e
            elif first is not None and last not in REPORT + (
                    'append', 'extend', 'add', 'insert', 'debug', 'len',
                    'str', 'join') and e.loops == first.loops:
                bad = bad or e
        if first is None:
            continue
        ctx.ob('partial', '%s' % short(f.qual), bad is None,
               '%s can still fail after a result of the same item was '
               'stored' % (bad.name if bad else ''),
               bad.where() if bad else first.where())


def outer(i, v, tr):
    """Whether the value was created outside the loop of the item."""
    n = len(tr['loops'])
    for loc in v.locs:
        at = i.loops_at.get(loc)
        if at is not None and len(at) < n:
            return True
    return False


def own(ctx, i, st, f):
    """The work on one item leaves no trace in longer-lived objects."""
    bad = None
    n = 0
    for e in i.events:
        if e.kind not in ('setattr', 'setitem', 'delitem') or \
                e.recv is None:
            continue
        for t in e.tries:
            tr = i.tryinfo[t]
            if tr['func'] is f and tr['loops']:
                n += 1
                if outer(i, e.recv, tr) or any(
                        loc[0] == 'param' and loc not in i.loops_at
                        for loc in e.recv.locs):
                    bad = bad or e
                break
    if n:
        ctx.ob('own', short(f.qual), bad is None,
               'processing one item changes %s of an object shared by all '
               'items' % (bad.name if bad else ''),
               bad.where() if bad else '')
