"""C19: with read_only True no file-changing operation of the archive can be
reached (abstract interpretation with the flag fixed to True).

The constructor and every entry of Store_Client (public methods, methods used
from other modules, functions that receive the archive) are interpreted with
read_only = True, so branches the flag excludes are not followed whatever the
guard looks like or in which helper it stands.  Any file-changing call that
is still reached is reported.
"""
import ast
from sa.interp import Interp, State, Val
from sa.terms import const
from sa.util import short
from sa.project import AnalysisBroken

SINK = {
    'os.makedirs', 'os.mkdir', 'os.remove', 'os.unlink', 'os.rename',
    'os.renames', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.symlink',
    'os.link', 'os.truncate', 'os.utime', 'os.mknod', 'os.open',
    'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree',
    'shutil.move', 'shutil.rmtree', 'shutil.copyfileobj',
    'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt',
    'json.dump', 'pickle.dump', 'yaml.dump', 'tempfile.mkdtemp',
    'tempfile.mkstemp', 'tempfile.NamedTemporaryFile'}
METH = {
    '.write', '.download', '.mkdir', '.touch', '.unlink', '.rmdir',
    '.write_text', '.write_bytes', '.to_hdf', '.tofile', '.savefig',
    '.to_csv', '.to_json', '.save', '.dump', '.writelines', '.rename',
    '.replace_file', '.extract', '.extractall'}
OPEN = {'open', 'io.open', '.open', 'h5py.File', 'gzip.open',
        'codecs.open', 'bz2.open'}
DOWN = {'.get_waveforms', '.get_stations', '.get_waveforms_bulk',
        '.get_stations_bulk', '.get_events'}


def sink(ev):
    n = ev.name or ''
    if n in SINK or n in METH:
        r = ev.recv
        if r is not None and r.t.op == 'ref' and str(
                r.t.args[0]).startswith('sys.'):
            return False
        return True
    if n in OPEN:
        mode = ev.kwargs.get('mode')
        pos = ev.args[1:] if n != '.open' else ev.args
        if mode is None and pos:
            mode = pos[0]
        if mode is None:
            return False
        return not (mode.t.op == 'const' and str(
            mode.t.args[0]).strip('btU') in ('r', ''))
    if n in DOWN:
        fn = ev.kwargs.get('filename')
        if fn is not None and fn.t != const(None):
            return True
    return False


def entries(p, cls):
    """Public methods, methods used outside the class, and functions that
    are handed an archive."""
    used = set()
    takers = []
    names = {n for n, f in cls.methods.items()}
    for f in p.all_funcs():
        if f.cls is cls:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in names:
                used.add(x.attr)
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ann = ast.unparse(x.annotation) if x.annotation else ''
            if cls.name in ann:
                takers.append((f, x.arg))
    own = [f for n, f in cls.methods.items() if n != '__init__' and (
        not n.startswith('_') or n in used)]
    return own, takers


def run(ctx):
    p = ctx.p
    ctx.rule('guard', 'with read_only True no file-changing call is reached')
    ctx.rule('flag', 'no operation changes the read_only flag')
    ctx.rule('path', 'no function outside the archive class changes files '
             'below the archive directories')
    cls = p.cls('trace_data.waveform.Store_Client')
    init = p.method(cls, '__init__')
    if 'read_only' not in init.params:
        raise AnalysisBroken('Store_Client has no read_only option')

    def fresh():
        i = Interp(p, budget=200000)
        st = State()
        sv = i.param(st, 'self', cls.qual, None)
        st, _ = i.run(init, {'read_only': Val(const(True))}, sv, st)
        st.pc = ()
        return i, st, sv

    def flag(st, sv):
        out = []
        for loc in sv.locs:
            for k, v in st.heap[loc].fields.items():
                if k == 'read_only':
                    out.append(v.t)
        return out

    def report(i, f, frm=0):
        name = short(f.qual)
        bad = [e for e in i.events[frm:] if e.kind == 'call' and sink(e)]
        seen = {}
        for e in bad:
            seen.setdefault((short(e.func.qual), e.name), e)
        ctx.ob('guard', name, not bad, '; '.join(
            '%s in %s' % (k[1], k[0]) for k in seen),
            bad[0].where() if bad else f.where())

    i, st, sv = fresh()
    report(i, init)
    ctx.saw(i)
    fl = flag(st, sv)
    ctx.ob('flag', short(init.qual), all(t == const(True) for t in fl),
           'the constructor does not keep the given flag', init.where())
    own, takers = entries(p, cls)
    for f in own:
        i, st, sv = fresh()
        k = len(i.events)
        st, _ = i.run(f, None, sv, st)
        ctx.saw(i)
        report(i, f, k)
        ctx.ob('flag', short(f.qual), st is None or all(
            t == const(True) for t in flag(st, sv)),
            'the flag is changed', f.where())
    for f, arg in takers:
        i, st, sv = fresh()
        k = len(i.events)
        arch = next(iter(sv.locs))
        i.run(f, {arg: sv}, None, st)
        ctx.saw(i)
        name = '%s(%s)' % (short(f.qual), arg)
        bad = [e for e in i.events[k:] if e.kind == 'call' and sink(e)
               and inside(e, cls)]
        ctx.ob('guard', name, not bad, '; '.join(sorted({
            '%s in %s' % (e.name, short(e.func.qual)) for e in bad})),
            bad[0].where() if bad else f.where())
    for f in p.all_funcs():
        if f.cls is cls:
            continue
        hit = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute)
               and x.attr in ('sds_root', 'inv_dir')]
        if not hit:
            continue
        i = Interp(p, budget=60000)
        i.run(f)
        bad = [e for e in i.events if e.kind == 'call' and sink(e) and any(
            'sds_root' in str(t) or 'inv_dir' in str(t) for t in e.argts)]
        ctx.ob('path', short(f.qual), not bad, 'files of the archive are '
               'changed outside its class', bad[0].where() if bad else '')
    ctx.atleast('guard', 4)


def inside(e, cls):
    """Does the call happen in the archive class, or with archive data?"""
    if e.func.cls is cls or e.func.module is cls.module:
        return True
    return any('sds_root' in str(t) or 'inv_dir' in str(t) or
               'read_only' in str(t) for t in e.argts)
