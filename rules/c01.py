"""C01: collectives are matched on all processes (taint analysis)."""
import ast
from sa.interp import Interp, State
from sa import mpi
from sa.util import make_self, short, reraises
from sa.terms import show, walk
from sa.project import AnalysisBroken


def entries(ctx):
    """(class, method) drivers and plain functions that communicate."""
    p = ctx.p
    out = []
    for f in p.all_funcs():
        src = ast.unparse(f.node)
        direct = any(isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr in mpi.COLL and (
                'comm' in ast.unparse(n.func.value).lower()
                or 'MPI' in ast.unparse(n.func.value))
            for n in ast.walk(f.node))
        if direct:
            out.append(f)
    return out


def run(ctx):
    p = ctx.p
    ctx.rule('collective', 'no condition that guards, repeats or skips a '
             'collective depends on process-local values')
    ctx.rule('root', 'the root of a rooted collective is the same '
             'everywhere')
    ctx.rule('tolerated', 'no collective shares a try block, whose failures '
             'are tolerated, with process-local work')
    direct = entries(ctx)
    if len(direct) < 5:
        raise AnalysisBroken('collective call sites not found')
    covered = set()
    evs = []

    def interp():
        return Interp(p, on_call=mpi.on_call, on_attr=mpi.on_attr,
                      budget=250000,
                      clean_cls={p.cls('Store_Client').qual})

    for cname, meths in (('Correlator', ['pxcorr']), ('Monitor', [
            'compute_velocity_change_bulk', 'compute_components_average',
            'compute_waveform_coherence_bulk'])):
        cls = p.cls(cname)
        i = interp()
        st, sv = make_self(i, cls, State())
        evs += i.events
        covered |= i.funcs_seen
        ctx.saw(i)
        names = [m for m in meths]
        names += sorted(m for m in cls.methods if not m.startswith('_')
                        and m not in meths)
        for m in names:
            f = p.method(cls, m)
            if f is None or (m not in meths and f.qual in covered):
                continue
            i = interp()
            i.run(f, None, sv, st.copy())
            evs += i.events
            covered |= i.funcs_seen
            ctx.saw(i)
    for f in direct:
        if f.qual not in covered:
            i = interp()
            i.run(f)
            evs += i.events
            covered |= i.funcs_seen
            ctx.saw(i)
    n = 0
    local_in_try = {}
    trynodes = {}
    for e in evs:
        if e.kind == 'call':
            for t in e.tries:
                if not mpi.is_collective(e):
                    if mpi.RANK in e.alltags or mpi.RANK in e.pctags():
                        local_in_try.setdefault(t, e)
    sites = {}
    for e in evs:
        if not mpi.is_collective(e):
            continue
        n += 1
        k = '%s -> %s#%d' % (short(e.func.qual), last(e), index_of(e))
        sites[k] = 1
        bad = [c for c in e.pc if mpi.RANK in c.tags]
        ctx.ob('collective', k, not bad,
               'reached under a process-local condition: %s' % '; '.join(
                   describe(c) for c in bad), e.where())
        ok = True
        m = last(e)
        r = e.kwargs.get('root')
        if m in ('bcast', 'Bcast', 'gather', 'Gather', 'reduce',
                          'Reduce', 'scatter', 'Scatter'):
            if r is None:
                pos = {'bcast': 1, 'Bcast': 1, 'gather': 1, 'scatter': 1,
                       'Gather': 2, 'Scatter': 2, 'reduce': 2,
                       'Reduce': 3}[m]
                r = e.args[pos] if len(e.args) > pos else None
            ok = r is None or mpi.RANK not in r.tags
            ctx.ob('root', k, ok, 'root depends on the process', e.where())
        for t in e.tries:
            ok = True
            if t in local_in_try and tolerant(e, t):
                ok = False
            ctx.ob('tolerated', k, ok, 'shares a try block with '
                   'process-local %s, whose failure is tolerated' % (
                       local_in_try[t].name if t in local_in_try else ''),
                   e.where())
    for f in direct:
        if f.qual not in covered:
            raise AnalysisBroken('collective in %s not reached' % f.qual)
    ctx.atleast('collective', 12)


def last(e):
    return e.name.rpartition('.')[2]


def index_of(e):
    """Ordinal of this call among the collective calls of its function."""
    calls = [x for x in ast.walk(e.func.node) if isinstance(x, ast.Call)
             and isinstance(x.func, ast.Attribute)
             and x.func.attr == last(e)]
    calls.sort(key=lambda x: (x.lineno, x.col_offset))
    for i, c in enumerate(calls):
        if c is e.node:
            return i
    return 0


def tolerant(e, tid):
    """Is there a handler of this try statement that does not re-raise?"""
    node_id = tid[0]
    for fn in [e.func] + []:
        for x in ast.walk(fn.node):
            if id(x) == node_id:
                return any(not reraises(h) for h in x.handlers)
    return True


def describe(c):
    ln = getattr(c.node, 'lineno', '?')
    return '%s %s (line %s)' % (c.kind, show(c.t)[:90], ln)
