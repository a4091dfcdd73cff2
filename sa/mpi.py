"""Process-local taint for MPI programs."""
import ast
from .interp import Val, E
from .terms import mk, walk, const

RANK = 'rank'
COLL = {'bcast', 'Bcast', 'gather', 'Gather', 'allgather', 'Allgather',
        'reduce', 'Reduce', 'allreduce', 'Allreduce', 'scatter', 'Scatter',
        'Barrier', 'barrier', 'alltoall', 'Alltoall', 'scan', 'Scan',
        'Gatherv', 'Scatterv', 'Allgatherv', 'Ibcast', 'Ibarrier', 'exscan',
        'Reduce_scatter', 'Split', 'Dup'}
UNIFORM = {'bcast', 'Bcast', 'allgather', 'Allgather', 'allreduce',
           'Allreduce', 'Barrier', 'barrier', 'Allgatherv'}
LOCAL_CALLS = {'time.time', 'os.getpid', 'socket.gethostname',
               'random.random', 'random.randint', 'random.shuffle',
               'random.choice', 'uuid.uuid4', 'os.urandom',
               'datetime.datetime.now', 'time.perf_counter'}


def is_comm(t):
    for x in walk(t):
        if x.op == 'ref' and isinstance(x.args[0], str) and \
                'mpi4py' in x.args[0]:
            return True
        if x.op == 'attr' and isinstance(x.args[1], str) and \
                'comm' in x.args[1].lower():
            return True
        if x.op in ('param', 'var') and 'comm' in str(x.args[0]).lower():
            return True
    return False


def coll_name(name, recvt):
    """Name of the collective a call denotes, or None."""
    if not name:
        return None
    m = name.rpartition('.')[2]
    if m not in COLL:
        return None
    if name.startswith('.'):
        return m if recvt is not None and is_comm(recvt) else None
    return m if 'mpi4py' in name else None


def is_collective(ev):
    return ev.kind == 'call' and coll_name(
        ev.name, None if ev.recv is None else ev.recv.t) is not None


def scrub(interp, st, v, drop, depth=5, seen=None):
    """Remove a tag from a value and everything it reaches."""
    seen = set() if seen is None else seen
    for loc in v.locs:
        if loc in seen:
            continue
        seen.add(loc)
        o = st.heap.get(loc)
        if o is None:
            continue
        c = o.clone()
        c.tags = frozenset(x for x in o.tags if x != drop)
        for k, f in list(c.fields.items()):
            c.fields[k] = scrub(interp, st, f, drop, depth - 1, seen) \
                if depth else f
        if c.elem is not None and depth:
            c.elem = scrub(interp, st, c.elem, drop, depth - 1, seen)
        st.heap[loc] = c
    return Val(v.t, frozenset(x for x in v.tags if x != drop), v.locs, v.typ)


def on_call(interp, st, name, recv, args, kwargs, node):
    if name is None:
        return None
    m = name.rpartition('.')[2]
    if m == 'Get_rank':
        return Val(mk('rank'), frozenset([RANK]), E, 'int')
    if m == 'Get_size':
        return Val(mk('size'), E, E, 'int')
    if name in LOCAL_CALLS or name.startswith('numpy.random.') or (
            name.endswith('UTCDateTime.now')) or (
            name.endswith('UTCDateTime') and not args and not kwargs):
        interp.rec(st, 'call', name, node, recv, args, kwargs)
        return Val(mk('local', name, id(node)), frozenset([RANK]), E,
                   'obspy.UTCDateTime' if 'UTC' in name else None)
    m = coll_name(name, None if recv is None else interp.deep(st, recv))
    if m is not None:
        ev = interp.rec(st, 'call', name, node, recv, args, kwargs)
        term = mk('coll', m, id(node), *[interp.deep(st, a)
                                         for a in args[:1]])
        if m not in UNIFORM:
            v = Val(term, frozenset([RANK]))
            ev.res = v
            return v
        if m in ('Allreduce', 'Bcast', 'Allgather', 'Allgatherv'):
            for a in args[1:] if m != 'Bcast' else args[:1]:
                scrub(interp, st, a, RANK)
            ev.res = Val(const(None))
            return ev.res
        if m in ('allgather',):
            a = args[0] if args else Val(const(None))
            c = interp.copy_val(st, a, node, a.t, True)
            c = scrub(interp, st, c, RANK)
            v = interp.alloc(st, node, 'list', elem=c, open=True, t=term,
                             typ='list')
        else:
            a = args[0] if args else Val(const(None))
            c = interp.copy_val(st, a, node, a.t, True)
            c = scrub(interp, st, c, RANK)
            v = Val(term, E, c.locs, c.typ)
            if not c.locs:
                v = Val(term, E, E, c.typ)
        ev.res = v
        return v
    return None


def on_attr(interp, st, base, name, node):
    if base.locs and all(
            st.heap[x].cls in interp.clean_cls and interp.p.method(
                interp.p.by_qual[st.heap[x].cls], name) is None
            for x in base.locs if x in st.heap):
        # assumption: the metadata archive answers every process alike
        return Val(mk('attr', base.t, name))
    if name in ('rank',) and is_comm(base.t):
        return Val(mk('rank'), frozenset([RANK]), E, 'int')
    if name == 'size' and is_comm(base.t):
        return Val(mk('size'), E, E, 'int')
    return None
