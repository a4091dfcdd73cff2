"""Flow- and context-sensitive abstract interpreter over the syntax trees.

Abstract value = value-numbering term + dependence tags + points-to set +
type.  Objects live in an allocation-site heap.  Repository functions are
inlined (bounded), so a rule sees the same events whether a statement is
written in place or in a helper.  Branches are joined, never enumerated, and
nothing is handed to a solver.
"""
import ast
import builtins
import re
from .project import Func, Cls, Module
from .terms import T, mk, const, phi, gate, alts, NONE, walk, show

E = frozenset()


class Val:
    __slots__ = ('t', 'tags', 'locs', 'typ')

    def __init__(self, t, tags=E, locs=E, typ=None):
        self.t = t
        self.tags = tags
        self.locs = locs
        self.typ = typ

    def tag(self, tags):
        if not tags or tags <= self.tags:
            return self
        return Val(self.t, self.tags | tags, self.locs, self.typ)

    def __repr__(self):
        return 'Val(%s%s)' % (show(self.t), (' #' + ','.join(sorted(map(
            str, self.tags)))) if self.tags else '')


class LVal(Val):
    """A field that was only looked up, never assigned."""
    __slots__ = ()


NONEV = Val(NONE)
ABSENT = mk('absent')


class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'elem', 'tags', 'origin', 'dt',
                 'data', 'open', 'srt', 'par')

    def __init__(self, kind, cls=None, fields=None, elem=None, tags=E,
                 origin=None, dt=None, data=None, open=False):
        self.kind = kind      # list tuple dict set inst ext nd func gen
        self.cls = cls
        self.fields = fields or {}
        self.elem = elem
        self.tags = tags
        self.origin = origin  # path tuple when reachable from a parameter
        self.dt = dt          # structural term override (e.g. sorted)
        self.data = data
        self.open = open      # may hold more keys than listed
        self.srt = None       # arguments of the sort() still in force
        self.par = None       # source of a shallow copy (shares members)

    def clone(self, **kw):
        o = Obj(self.kind, self.cls, dict(self.fields), self.elem, self.tags,
                self.origin, self.dt, self.data, self.open)
        o.srt, o.par = self.srt, self.par
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class PC:
    """One controlling condition."""
    __slots__ = ('t', 'pol', 'tags', 'kind', 'node')

    def __init__(self, t, pol, tags=E, kind='if', node=None):
        self.t, self.pol, self.tags = t, pol, tags
        self.kind, self.node = kind, node

    def key(self):
        return (self.t.id, self.pol, self.kind)

    def __repr__(self):
        return '%s%s' % ('' if self.pol else 'not ', show(self.t))


class State:
    __slots__ = ('env', 'heap', 'pc', 'must', 'may')

    def __init__(self, env=None, heap=None, pc=(), must=E, may=E):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.must = must
        self.may = may

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.must,
                     self.may)

    def pctags(self):
        out = E
        for p in self.pc:
            out |= p.tags
        return out


class Event:
    __slots__ = ('kind', 'name', 'node', 'func', 'stack', 'recv', 'args',
                 'kwargs', 'argts', 'kwts', 'res', 'pc', 'must', 'may',
                 'loops', 'tries', 'extra', 'inlined', 'alltags', 'seq',
                 'heap')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def where(self):
        f = self.func
        return '%s:%d in %s' % (f.module.relpath, self.node.lineno,
                                f.qual.replace('seismic.', '', 1))

    def pctags(self):
        out = E
        for p in self.pc:
            out |= p.tags
        return out

    def __repr__(self):
        return '<%s %s @%s>' % (self.kind, self.name, self.where())


class Frame:
    def __init__(self, func, stack):
        self.func = func
        self.stack = stack
        self.rets = []
        self.yields = []
        self.ypc = {}
        self.loops = []
        self.genmode = False


MUTATORS = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
    'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill',
    'put', 'resize', 'itemset', 'partition', 'setflags'}
STREAM_MUTATORS = {
    'trim', 'detrend', 'taper', 'filter', 'merge', 'decimate', 'resample',
    'interpolate', 'remove_response', 'remove_sensitivity', 'normalize',
    'integrate', 'differentiate', 'simulate', 'rotate', 'attach_response',
    'cutout', '_cleanup', '_trim_common_channels', '_ltrim', '_rtrim'}
STREAM_TYPES = {'obspy.Stream', 'obspy.Trace', 'obspy.core.Stream',
                'obspy.core.Trace', 'obspy.core.stream.Stream',
                'obspy.core.trace.Trace'}
# functions that may return (a view of) their first argument
VIEW_FUNCS = {
    'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d',
    'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.squeeze',
    'numpy.reshape', 'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis',
    'numpy.broadcast_to', 'numpy.require', 'numpy.ascontiguousarray',
    'numpy.flip', 'numpy.fliplr', 'numpy.flipud', 'numpy.expand_dims',
    'numpy.real', 'numpy.imag', 'numpy.ma.masked_array'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'view',
                'swapaxes'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}
FRESH_METHODS = {'copy', 'flatten', 'astype', 'tolist', 'conj', 'filled'}
ARRAY_ANN = ('ndarray', 'NDArray', 'np.array')
BUILTINS = set(dir(builtins))
INPLACE_FUNCS = {  # dotted -> index of the mutated argument
    'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0,
    'numpy.fill_diagonal': 0, 'numpy.random.shuffle': 0}


def own_break(loop):
    """Can the loop be left early (breaks of loops inside do not count)?"""
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo += n.orelse
        else:
            todo += list(ast.iter_child_nodes(n))
    return False


class Interp:
    """cfg hooks:
    on_call(interp, st, name, recv, args, kwargs, node) -> Val or None
    label(event) -> iterable of must/may labels
    """

    def __init__(self, project, max_depth=14, on_call=None, label=None,
                 on_attr=None, no_inline=(), cha=False, budget=400000,
                 on_cond=None, force_types=None, on_raise=None,
                 clean_cls=(), on_item=None, on_iter=None, distinct=None,
                 on_cmp=None, on_bin=None, on_fstr=None, guards=False,
                 either=False):
        # conditions of the entries of lists hold in loops over them
        self.guards = {} if guards else None
        self.gen_pc = None
        self.either = either
        self.born = {}
        self.comp_pc = ()
        self.on_cmp = on_cmp
        self.order_tags = frozenset()
        self.on_bin = on_bin
        self.on_fstr = on_fstr
        self.p = project
        self.on_item = on_item
        self.on_iter = on_iter
        self.distinct = distinct
        self.max_depth = max_depth
        self.on_call = on_call
        self.on_attr = on_attr
        self.label = label
        self.on_cond = on_cond
        self.no_inline = set(no_inline)
        self.clean_cls = set(clean_cls)
        self.cha = cha
        self.budget = budget
        self.steps = 0
        self.events = []
        self.tries = []
        self.tryinfo = {}
        self.loops_at = {}
        self.backs = {}         # loop -> variables at the end of its body
        self.loopfunc = {}
        self.trytags = []
        self.frames = []
        self.lv = {}
        self.loopmemo = {}
        self.unresolved = set()
        self.funcs_seen = set()
        self.depth_cut = []
        self._globals = {}
        self._seq = 0
        self.noisy = 0
        self._unr = []
        self._cha_index = None
        self.force_types = force_types or {}

    # ---------------------------------------------------------------- util
    def site(self, node, extra=''):
        st = tuple(id(c) for c in self.frames[-1].stack) if self.frames \
            else ()
        if self._unr:
            return (id(node), hash((st, tuple(self._unr))), extra)
        return (id(node), hash(st), extra)

    def alloc(self, st, node, kind, cls=None, fields=None, elem=None,
              origin=None, extra='', t=None, typ=None, tags=E, data=None,
              open=False):
        loc = self.site(node, (kind, extra))
        self.loops_at[loc] = tuple(
            x[2] for f in self.frames for x in f.loops)
        if self.guards is not None:
            self.born[loc] = st.pc
            self.guards.pop(loc, None)
        st.heap[loc] = Obj(kind, cls, fields, elem, tags, origin, None, data,
                           open)
        if t is None:
            t = mk('obj', kind, hash(loc))
        return Val(t, E, frozenset([loc]), typ or cls)

    def rec(self, st, kind, name, node, recv=None, args=(), kwargs=None,
            res=None, extra=None, inlined=False):
        self._seq += 1
        fr = self.frames[-1]
        kwargs = kwargs or {}
        tags = E
        for v in list(args) + list(kwargs.values()):
            tags |= self.deep_tags(st, v)
        if recv is not None:
            tags |= self.deep_tags(st, recv, 1)
        ev = Event(kind=kind, name=name, node=node, func=fr.func,
                   stack=fr.stack, recv=recv, args=list(args), kwargs=kwargs,
                   argts=[self.deep(st, a) for a in args],
                   kwts={k: self.deep(st, v) for k, v in kwargs.items()},
                   res=res, pc=st.pc, must=st.must, may=st.may,
                   loops=tuple(x[2] for f in self.frames for x in f.loops),
                   tries=tuple(t['id'] for t in self.tries),
                   extra=extra, inlined=inlined, alltags=tags, seq=self._seq)
        self.events.append(ev)
        if kind in ('call', 'raise', 'new', 'delitem', 'assert') and not (
                kind == 'call' and self.harmless(st, name, recv, args)):
            self.noisy += 1
        if kind == 'call' and self.trytags:
            tt = tags | st.pctags()
            for c in self.trytags:
                c |= tt
        if self.label:
            labs = self.label(self, st, ev)
            if labs:
                st.must = st.must | frozenset(labs)
                st.may = st.may | frozenset(labs)
        return ev

    def harmless(self, st, name, recv, args):
        """Calls that cannot raise a KeyError here."""
        if name in ('list', 'dict', 'tuple', 'set', 'len', 'str', 'sorted',
                    'copy.deepcopy', 'copy.copy', 'isinstance'):
            return True
        if recv is None or len(recv.locs) != 1:
            return False
        o = st.heap.get(next(iter(recv.locs)))
        if o is None or o.kind not in ('list', 'dict'):
            return False
        if name in ('.append', '.extend', '.items', '.keys', '.values',
                    '.get', '.copy', '.setdefault'):
            return True
        if name == '.pop' and o.kind == 'dict':
            return len(args) > 1
        return name in ('.remove', '.pop') and o.kind == 'list'

    def deep_tags(self, st, v, depth=2, _seen=None):
        out = v.tags
        if self.clean_cls and v.locs and all(
                st.heap[x].cls in self.clean_cls for x in v.locs
                if x in st.heap):
            return E
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is None or o.cls in self.clean_cls:
                continue
            out |= o.tags
            if depth > 0 and not (o.kind == 'inst' and isinstance(
                    self.p.by_qual.get(o.cls), Cls) and o.data != 'deep'):
                for f in o.fields.values():
                    out |= self.deep_tags(st, f, depth - 1)
                if o.elem is not None:
                    out |= self.deep_tags(st, o.elem, depth - 1)
        return out

    def deep(self, st, v, depth=4):
        """Structural term of a value (containers expanded)."""
        if depth <= 0 or len(v.locs) != 1:
            return v.t
        o = st.heap.get(next(iter(v.locs)))
        if o is None:
            return v.t
        if o.dt is not None:
            return o.dt
        if v.t.op == 'phi' and o.kind in ('list', 'tuple', 'set', 'dict'):
            # one alternative is this object, the others stay
            objs = [a for a in v.t.args if a.op == 'obj']
            rest = [a for a in v.t.args if a.op != 'obj']
            if len(objs) == 1 and any(a.op == 'call' for a in rest):
                x = self.deep(st, Val(objs[0], v.tags, v.locs, v.typ),
                              depth)
                return phi(x, *rest)
        if o.kind in ('list', 'tuple', 'set'):
            n = 0
            items = []
            while ('i', n) in o.fields:
                items.append(self.deep(st, o.fields[('i', n)], depth - 1))
                n += 1
            if o.elem is None and (items or o.kind == 'tuple'
                                   or not o.open):
                return mk(o.kind, *items)
            if o.elem is not None:
                e = self.deep(st, o.elem, depth - 1)
                return mk(o.kind + 'of', phi(e, *items) if items else e)
            return v.t
        if o.kind == 'dict' and o.elem is None and not o.open:
            items = []
            for k, x in o.fields.items():
                kk = const(k[1]) if isinstance(k, tuple) else const(k)
                items += [kk, self.deep(st, x, depth - 1)]
            return mk('dict', *items)
        return v.t

    # --------------------------------------------------------------- joins
    def join_vals(self, a, b, ctl=E, br=None):
        if a is b:
            return a
        if a is None or b is None:
            v = a or b
            return Val(phi(v.t, ABSENT), v.tags | ctl, v.locs, v.typ)
        if a.t is b.t and a.locs == b.locs:
            return a.tag(b.tags) if b.tags else a
        if b.t.op != 'phi' and a.t.op == 'phi' and b.t in a.t.args and \
                b.locs <= a.locs and b.tags <= a.tags and ctl <= a.tags and \
                (a.typ is None or a.typ == b.typ):
            if br != ():
                gate(a.t, False)
            return a
        if br:
            br = ((br[0], a.t), (br[1], b.t))
        return Val(phi(a.t, b.t, branches=False if br is None else
                       br or None),
                   a.tags | b.tags | ctl, a.locs | b.locs,
                   a.typ if a.typ == b.typ else (a.typ or b.typ)
                   if (a.t is NONE or b.t is NONE) else None)

    def join(self, a, b, pc, ctl=E, br=None):
        if a is None:
            if b is not None:
                b.pc = pc
            return b
        if b is None:
            a.pc = pc
            return a
        env = dict(a.env)
        be = b.env
        for k, x in a.env.items():
            y = be.get(k)
            if y is not x:
                env[k] = self.join_vals(x, y, ctl, br)
        for k, y in be.items():
            if k not in env:
                env[k] = self.join_vals(None, y, ctl)
        heap = dict(a.heap)
        for k, ob in b.heap.items():
            oa = heap.get(k)
            if oa is None or oa is ob:
                heap[k] = ob
                continue
            heap[k] = self.join_obj(k, oa, ob, ctl, br)
        return State(env, heap, pc, a.must & b.must, a.may | b.may)

    def join_many(self, first, others, pc, ctl):
        """Join of a state with the states at later points (other frames'
        local names are ignored)."""
        env, heap = {}, {}
        cand = {}
        for x in [first] + [o for o in others if o.env]:
            for k, v in x.env.items():
                cand.setdefault(k, {})[id(v)] = v
        for k, vs in cand.items():
            vs = list(vs.values())
            ab = k not in first.env
            if len(vs) == 1 and not ab:
                env[k] = vs[0]
                continue
            same = not ab and all(v.t is vs[0].t and v.locs == vs[0].locs
                                  for v in vs)
            tags, locs = E if same else ctl, E
            for v in vs:
                tags |= v.tags
                locs |= v.locs
            ts = [v.t for v in vs] + ([ABSENT] if ab else [])
            ty = {v.typ for v in vs}
            env[k] = Val(phi(*ts), tags, locs,
                         ty.pop() if len(ty) == 1 else None)
        oc = {}
        may = first.may
        for x in [first] + others:
            may |= x.may
            for k, o in x.heap.items():
                d = oc.get(k)
                if d is None:
                    oc[k] = d = {}
                d[id(o)] = o
        for k, d in oc.items():
            it = iter(d.values())
            o = next(it)
            for o2 in it:
                o = self.join_obj(k, o, o2, ctl)
            heap[k] = o
        return State(env, heap, pc, first.must, may)

    def gc(self, before, heap, v):
        """Drop callee objects nobody outside the callee can reach."""
        new = [k for k in heap if k not in before]
        if not new:
            return heap
        todo = list(v.locs) if v is not None else []
        for k, o in before.items():
            h = heap.get(k)
            if h is not o and h is not None:
                todo.extend(self.succ(h))
        live = set()
        while todo:
            k = todo.pop()
            if k in live:
                continue
            live.add(k)
            if k in before:
                continue
            o = heap.get(k)
            if o is not None:
                todo.extend(self.succ(o))
        for k in new:
            if k not in live:
                del heap[k]
        return heap

    def succ(self, o):
        out = []
        for f in o.fields.values():
            out.extend(f.locs)
        if o.elem is not None:
            out.extend(o.elem.locs)

        def data(d):
            if isinstance(d, Val):
                out.extend(d.locs)
            elif isinstance(d, (list, tuple)):
                for x in d:
                    data(x)
            elif isinstance(d, dict):
                for x in d.values():
                    data(x)
        if o.data is not None:
            data(o.data)
        return out

    def join_obj(self, k, oa, ob, ctl, br=None):
        upd = {}
        af, bf = oa.fields, ob.fields
        soft = oa.kind in ('ext', 'inst', 'nd')
        diff = False
        for f, x in af.items():
            y = bf.get(f)
            if x is y:
                continue
            if y is None:
                if soft and isinstance(x, LVal):
                    continue       # only looked at, never assigned
                diff = True
                if soft:
                    if oa.kind != 'ext' and not ctl <= x.tags:
                        upd[f] = x.tag(ctl)
                else:
                    upd[f] = self.join_vals(x, y, ctl)
            else:
                v = self.join_vals(x, y, ctl, br)
                if v is not x:
                    upd[f] = v
        for f, y in bf.items():
            if f not in af:
                if soft and isinstance(y, LVal):
                    upd[f] = y
                    continue
                diff = True
                upd[f] = (y.tag(ctl) if oa.kind != 'ext' else y) if soft \
                    else self.join_vals(None, y, ctl)
        elem = oa.elem
        if elem is not ob.elem:
            if elem is None or ob.elem is None:
                elem = elem or ob.elem
                if elem.locs != {('elem', k)}:
                    elem = elem.tag(ctl)
            else:
                elem = self.join_vals(elem, ob.elem, ctl)
        tags = oa.tags | ob.tags
        if diff or oa.tags != ob.tags:
            tags = tags | ctl
        dt = oa.dt
        if dt is not ob.dt:
            dt = phi(oa.dt or mk('obj', 'x', hash(k)),
                     ob.dt or mk('obj', 'x', hash(k)))
        op = oa.open or ob.open
        if oa.srt != ob.srt:
            oa = oa.clone()
            oa.srt = None
        if not upd and elem is oa.elem and tags == oa.tags and \
                dt is oa.dt and op == oa.open:
            return oa
        n = oa.clone()
        n.fields.update(upd)
        n.elem, n.tags, n.dt, n.open = elem, tags, dt, op
        return n

    def join_all(self, states, pc, ctl=E):
        out = None
        for s in states:
            out = self.join(out, s, pc, ctl)
        if out is not None:
            out.pc = pc
        return out

    @staticmethod
    def survivors(pc, base):
        """Conditions acquired beyond base."""
        return pc[len(base):]

    def after(self, base, node, states):
        """pc after a reconvergence of states: base plus, when a state
        carries exit conditions, a summary entry with their tags."""
        tags = E
        for s in states:
            for p in s.pc[len(base):]:
                tags |= p.tags
        return base, tags

    # ---------------------------------------------------------- entry point
    def run(self, func, args=None, selfval=None, st=None, presets=None):
        """Interpret func with symbolic parameters; returns (state, value)."""
        st = st or State()
        fr = Frame(func, ())
        self.frames.append(fr)
        try:
            binding = {}
            a = func.node.args
            allp = a.posonlyargs + a.args + a.kwonlyargs
            for i, p in enumerate(allp):
                nm = p.arg
                if args and nm in args:
                    binding[nm] = args[nm]
                elif i == 0 and func.cls is not None and not func.is_static:
                    binding[nm] = selfval if selfval is not None else \
                        self.param(st, nm, func.cls.qual, func)
                else:
                    typ = self.ann_type(func.module, p.annotation)
                    if p.annotation is None and nm in doc_arrays(func):
                        typ = 'ndarray'
                    binding[nm] = self.param(st, nm, typ, func, p.annotation)
            if a.vararg:
                binding[a.vararg.arg] = self.param(st, a.vararg.arg, None,
                                                   func)
            if a.kwarg:
                binding[a.kwarg.arg] = (args or {}).get(
                    a.kwarg.arg) or self.param(st, a.kwarg.arg, 'dict', func)
            st.env = binding
        finally:
            self.frames.pop()
        return self.exec_func(func, st, ())

    def param(self, st, name, typ, func, ann=None):
        t = mk('param', name)
        if typ in ('int', 'float', 'str', 'bool', 'bytes', 'complex'):
            return Val(t, E, E, typ)
        loc = ('param', name)
        kind = 'ext'
        cls = typ
        if typ and isinstance(self.p.by_qual.get(typ), Cls):
            kind = 'inst'
        elif typ == 'ndarray':
            kind = 'nd'
        elif typ in ('dict', 'list'):
            kind = 'ext'
        st.heap[loc] = Obj(kind, cls, origin=(name,), open=True)
        et = self.elem_type(func, ann)
        if et and et not in ('int', 'float', 'str', 'bool', 'tuple'):
            el = ('elem', loc)
            st.heap[el] = Obj(
                'inst' if isinstance(self.p.by_qual.get(et), Cls) else 'nd'
                if et == 'ndarray' else 'ext', et, origin=(name, '[]'),
                open=True)
            st.heap[loc].elem = Val(mk('elem', t), E, frozenset([el]), et)
        return Val(t, E, frozenset([loc]), typ)

    def elem_type(self, func, ann):
        if isinstance(ann, ast.Subscript) and func is not None:
            b = ast.unparse(ann.value).split('.')[-1]
            if b == 'Optional':
                return self.elem_type(func, ann.slice)
            if b in ('List', 'list', 'Iterable', 'Sequence', 'Iterator',
                     'Generator'):
                s = ann.slice
                if isinstance(s, ast.Tuple):
                    s = s.elts[0]
                return self.ann_type(func.module, s)
        return None

    def ann_type(self, module, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(module, ast.parse(
                        ann.value, mode='eval').body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.Subscript):
            b = ast.unparse(ann.value).split('.')[-1]
            if b == 'Optional':
                return self.ann_type(module, ann.slice)
            if b in ('List', 'list', 'Iterable', 'Sequence', 'Iterator',
                     'Generator'):
                return 'list'
            if b in ('Tuple', 'tuple'):
                return 'tuple'
            if b in ('dict', 'Dict'):
                return 'dict'
            if b == 'NDArray':
                return 'ndarray'
            return None
        s = ast.unparse(ann)
        if s in ('int', 'float', 'str', 'bool', 'bytes', 'complex', 'dict',
                 'list', 'tuple', 'set'):
            return s
        if any(x in s for x in ARRAY_ANN):
            return 'ndarray'
        d = self.p.dotted(module, ann)
        return d

    # --------------------------------------------------------- function run
    def exec_func(self, func, st, stack):
        fr = Frame(func, stack)
        self.funcs_seen.add(func.qual)
        self.frames.append(fr)
        base = st.pc
        try:
            end = self.block(func.node.body, st)
        finally:
            self.frames.pop()
        rets = list(fr.rets)
        if end is not None:
            rets.append((end, NONEV))
        if func.is_gen:
            # executed eagerly by the consumer; value = joined yields
            s = None
            if rets:
                s = self.join_all([r[0] for r in rets], base)
            y = None
            ytags = E
            for v, tags in fr.yields:
                y = self.join_vals(y, v) if y is not None else v
                ytags |= tags
            self.gen_pc = [pc[len(base):] for pc in fr.ypc.values()]
            return s, (y if y is not None else Val(mk('unk', 'noyield')),
                       ytags, bool(fr.yields))
        if not rets:
            return None, None
        ctl = E
        for s, v in rets:
            for p in s.pc[len(base):]:
                ctl |= p.tags
        if len(rets) == 1:
            ctl = E
            # single exit: conditions acquired through raises remain facts
            s, v = rets[0]
            keep = tuple(p for p in s.pc[len(base):] if p.kind == 'raise')
            s.pc = base + keep
            return s, v
        val = rets[0][1]
        for s, v in rets[1:]:
            val = self.join_vals(val, v, ctl, ())
        if val.t.op == 'phi' and all(
                p.kind in ('if', 'raise', 'survive') and p.t.op != 'survive'
                for s, v in rets for p in s.pc[len(base):]):
            val = Val(phi(*[v.t for s, v in rets], branches=tuple(
                (tuple((p.t, p.pol) for p in s.pc[len(base):]), v.t)
                for s, v in rets)), val.tags, val.locs, val.typ)
        elif val.t.op == 'phi':
            gate(val.t, False)
        keep = None
        for s, v in rets:
            ks = {p.key(): p for p in s.pc[len(base):] if p.kind == 'raise'}
            keep = ks if keep is None else {
                k: p for k, p in keep.items() if k in ks}
        out = self.join_all([s for s, v in rets],
                            base + tuple(keep.values()), ctl)
        return out, val

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            if self.tries:
                tr = self.tries[-1]
                tr['snaps'].append(
                    st.copy() if tr['frame'] is self.frames[-1]
                    else State(None, dict(st.heap), st.pc, st.must, st.may))
            st = self.stmt(s, st)
            if st is not None and st.pc and any(
                    c.t.op == 'noreturn' for c in st.pc):
                # a called function raises on every path
                return None
        return st

    def stmt(self, s, st):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v.typ is None:
                v = Val(v.t, v.tags, v.locs, self.ann_type(
                    self.frames[-1].func.module, s.annotation))
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        old = self.ev(_load(s.target), st)
        rhs = self.ev(s.value, st)
        opn = type(s.op).__name__
        new_t = self.binop_t(opn, self.deep(st, old), self.deep(st, rhs))
        tags = old.tags | rhs.tags | st.pctags()
        if isinstance(s.target, ast.Name):
            self.rec(st, 'aug', s.target.id, s, None, [rhs])
            kinds = self.kinds(st, old)
            if kinds & {'list', 'set', 'dict', 'nd'} or \
                    (old.typ in ('ndarray', 'list')):
                self.mutate(st, old, 'aug', s, (rhs,))
                if 'list' in kinds:
                    self.list_extend(st, old, rhs, s)
                    st.env[s.target.id] = old
                    return st
                st.env[s.target.id] = Val(new_t, tags, old.locs, old.typ)
            else:
                st.env[s.target.id] = Val(new_t, tags, E, old.typ)
                self.rec(st, 'setname', s.target.id, s, None,
                         [st.env[s.target.id]])
            return st
        kinds = self.kinds(st, old)
        if 'list' in kinds and isinstance(s.op, ast.Add):
            self.list_extend(st, old, rhs, s)
            nv = Val(old.t, old.tags | rhs.tags, old.locs, old.typ)
        else:
            if old.locs:
                self.mutate(st, old, 'aug', s, (rhs,))
            nv = Val(new_t, tags, old.locs, old.typ)
        self.assign(s.target, nv, st, s, aug=(opn, rhs))
        return st

    def list_extend(self, st, lst, rhs, node):
        if any(st.heap[x].kind in ('gen', 'wrap') for x in rhs.locs
               if x in st.heap):
            e, tg = self.iter_elem(st, rhs, node, node)
            e = e.tag(tg)
        else:
            e = self.elem_of(st, rhs, node)
        for loc in lst.locs:
            o = st.heap[loc].clone()
            items = self.known_items(st, rhs)
            n = 0
            while ('i', n) in o.fields:
                n += 1
            if items is not None and o.elem is None and not o.open \
                    and len(lst.locs) == 1 and not self.in_widening():
                for it in items:
                    o.fields[('i', n)] = it
                    n += 1
            else:
                o.elem = e if o.elem is None else self.join_vals(o.elem, e)
                if items:
                    for it in items:
                        o.elem = self.join_vals(o.elem, it)
            o.tags |= rhs.tags | st.pctags()
            st.heap[loc] = o

    def in_widening(self):
        return any(x[3] for f in self.frames for x in f.loops)

    def s_Return(self, s, st):
        fr = self.frames[-1]
        v = self.ev(s.value, st) if s.value is not None else NONEV
        if st.pc and any(c.t.op == 'noreturn' for c in st.pc):
            return None
        self.rec(st, 'return', fr.func.qual, s, None, [v])
        fr.rets.append((st, v))
        return None

    def s_Raise(self, s, st):
        name = None
        v = None
        if s.exc is not None:
            v = self.ev(s.exc, st)
            t = v.t
            if t.op == 'call':
                t = t.args[0]
            if t.op == 'ref':
                name = t.args[0].split('.')[-1]
            elif v.typ:
                name = v.typ.split('.')[-1]
        self.rec(st, 'raise', name, s, None, [v] if v is not None else [])
        self.do_raise(st, name, s)
        return None

    def do_raise(self, st, name, node):
        for t in reversed(self.tries):
            if catches(t['types'], name):
                t['raised'].append((
                    st if t['frame'] is self.frames[-1] else
                    State(None, st.heap, st.pc, st.must, st.may), name))
                if catches_surely(t['types'], name):
                    return
        return

    def raise_caught(self, name):
        return any(catches(t['types'], name) for t in self.tries)

    def s_Assert(self, s, st):
        c = self.ev(s.test, st)
        ct = self.cond_t(st, c)
        self.rec(st, 'assert', None, s, None, [c])
        st.pc = st.pc + self.pcs(s.test, ct, True, E, 'raise', s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.rec(st, 'delname', t.id, s)
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                key = self.ev(t.slice, st)
                self.rec(st, 'delitem', None, s, base, [key])
                self.mutate(st, base, 'delitem', s, (key,))
                k = self.key_of(st, key)
                if k is not None:
                    for loc in base.locs:
                        o = st.heap[loc].clone()
                        o.fields.pop(k, None)
                        st.heap[loc] = o
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.rec(st, 'delattr', t.attr, s, base)
                self.mutate(st, base, 'delattr', s, (), t.attr)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global
    s_Import = s_Global

    def s_ImportFrom(self, s, st):
        for a in s.names:
            d = (s.module or '') + '.' + a.name
            st.env[a.asname or a.name] = Val(mk('ref', self.p.canonical(d)))
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Func(s, fr.func.module, None, fr.func)
        st.env[s.name] = self.alloc(st, s, 'func', data=(f, dict(st.env)))
        return st

    def s_ClassDef(self, s, st):
        return st

    # conditions
    def truth(self, t):
        if t.op == 'const':
            return bool(t.args[0])
        if t.op in ('ref',):
            return True
        if t.op in ('list', 'tuple', 'dict', 'set'):
            return len(t.args) > 0
        if t.op == 'phi':
            r = {self.truth(a) for a in t.args}
            return r.pop() if len(r) == 1 else None
        if t.op == 'un' and t.args[0] == 'not':
            r = self.truth(t.args[1])
            return None if r is None else not r
        if t.op == 'bool':
            rs = [self.truth(a) for a in t.args[1:]]
            if t.args[0] == 'and':
                if False in rs:
                    return False
                return True if all(r is True for r in rs) else None
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if t.op == 'call' and t.args[0].op == 'ref':
            nm = t.args[0].args[0]
            if nm in ('all', 'any') and len(t.args) == 2 and \
                    t.args[1].op in ('list', 'tuple'):
                rs = [self.truth(a) for a in t.args[1].args]
                if nm == 'all':
                    if False in rs:
                        return False
                    return True if all(r is True for r in rs) else None
                if True in rs:
                    return True
                return False if all(r is False for r in rs) else None
        return None

    def cond_t(self, st, v):
        return self.deep(st, v)

    def pcs(self, expr, t, pol, tags, kind, node):
        """Decompose a condition into its conjuncts."""
        if t.op == 'un' and t.args[0] == 'not':
            return self.pcs(None, t.args[1], not pol, tags, kind, node)
        if t.op == 'bool':
            if (t.args[0] == 'and') == pol:
                out = ()
                for a in t.args[1:]:
                    out += self.pcs(None, a, pol, tags, kind, node)
                return out
        if t.op == 'cmp' and t.args[0] in ('NotEq', 'IsNot', 'NotIn'):
            inv = {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[t.args[0]]
            return (PC(mk('cmp', inv, t.args[1], t.args[2]), not pol, tags,
                       kind, node),)
        return (PC(t, pol, tags, kind, node),)

    def known(self, st, t):
        """Is the condition already decided by the path?"""
        for p in self.pcs(None, t, True, E, 'if', None):
            ok = None
            for q in st.pc:
                if q.t is p.t and q.kind in ('if', 'raise'):
                    ok = (q.pol == p.pol)
            if ok is None:
                return None
            if not ok:
                return False
        return True

    def s_If(self, s, st):
        c = self.ev(s.test, st)
        ct = self.cond_t(st, c)
        tr = self.truth(ct)
        if tr is None:
            tr = self.known(st, ct)
        if self.on_cond:
            r = self.on_cond(self, st, ct, s)
            if r is not None:
                tr = r
        if tr is True:
            return self.block(s.body, st)
        if tr is False:
            return self.block(s.orelse, st)
        tags = self.deep_tags(st, c)
        base = st.pc
        a, b = st.copy(), st
        pa = self.pcs(s.test, ct, True, tags, 'if', s)
        pb = self.pcs(s.test, ct, False, tags, 'if', s)
        a.pc = base + pa
        b.pc = base + pb
        self.refine(a, ct, True)
        self.refine(b, ct, False)
        n0 = len(self.events)
        ra = self.block(s.body, a)
        only_raise_a = ra is None and self._raised_only(s.body)
        rb = self.block(s.orelse, b)
        only_raise_b = rb is None and self._raised_only(s.orelse)
        del n0
        if ra is not None and rb is not None:
            extra = E
            for r, pp in ((ra, pa), (rb, pb)):
                for p in r.pc[len(base) + len(pp):]:
                    extra |= p.tags
            pc = base
            ka = {p.key(): p for p in ra.pc[len(base) + len(pa):]}
            kb = {p.key(): p for p in rb.pc[len(base) + len(pb):]}
            common = tuple(p for k, p in ka.items() if k in kb)
            if extra and (len(common) != len(ka) or len(common) != len(kb)):
                pc = pc + (PC(mk('survive', hash(self.site(s))), True,
                              extra | tags, 'join', s),)
            pc = pc + common
            if self.either and len(common) != len(ka) + len(kb):
                # passed one branch or the other
                parts = []
                for q, own in ((pa, ka), (pb, kb)):
                    c = [p.t if p.pol else mk('not', p.t)
                         for p in q + tuple(own.values())]
                    parts.append(mk('bool', 'and', *c)
                                 if len(c) > 1 else c[0])
                pc = pc + (PC(mk('bool', 'or', *parts), True, E, 'if', s),)
            return self.join(ra, rb, pc, tags, (
                ((ct, True),), ((ct, False),)))
        if ra is None and rb is None:
            return None
        live, dead_raise, pp = (rb, only_raise_a, pb) if ra is None \
            else (ra, only_raise_b, pa)
        rest = live.pc[len(base) + len(pp):]
        if dead_raise:
            caught = self.raise_caught(dead_raise)
            pp = tuple(PC(p.t, p.pol, p.tags if caught else E, 'raise',
                          p.node) for p in pp)
        live.pc = base + pp + rest
        return live

    def _raised_only(self, body):
        """Name of the exception if the block leaves only by raising."""
        if not body:
            return False
        last = body[-1]
        for n in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
                return False
        if isinstance(last, ast.Raise):
            e = last.exc
            if isinstance(e, ast.Call):
                e = e.func
            return ast.unparse(e).split('.')[-1] if e is not None \
                else 'Exception'
        if isinstance(last, (ast.Expr, ast.If)):
            return 'Exception'
        return False

    def refine(self, st, t, pol):
        """Constants learnt from `x == const` / `x is None`."""
        for p in self.pcs(None, t, pol, E, 'if', None):
            c = p.t
            if c.op == 'cmp' and c.args[0] in ('Eq', 'Is') and p.pol:
                x, k = c.args[1], c.args[2]
                if x.op == 'const':
                    x, k = k, x
                if k.op == 'const' and x.op != 'const':
                    for n, v in list(st.env.items()):
                        if v.t is x and not (v.locs and k is not NONE):
                            st.env[n] = Val(k, v.tags, E if k is NONE
                                            else v.locs, v.typ)
            elif c.op == 'cmp' and c.args[0] == 'Is' and not p.pol \
                    and c.args[2] is NONE:
                x = c.args[1]
                if x.op == 'phi' and NONE in x.args:
                    n2 = phi(*[a for a in x.args if a is not NONE])
                    for n, v in list(st.env.items()):
                        if v.t is x:
                            st.env[n] = Val(n2, v.tags, v.locs, v.typ)

    # loops
    def loop(self, s, st, header):
        """header(state) -> (state for body, tags) ; returns state after."""
        fr = self.frames[-1]
        base = st.pc
        sid = self.site(s, 'loop')
        entry = st.copy()
        cur = st
        ctl = E
        memo = self.loopmemo.get(sid)
        if memo is not None:
            ctl = memo[1]
            cur = self.prewiden(st, memo[0])
        after = None
        cap = 4 if sum(len(f.loops) for f in self.frames) < 2 else 3
        evstart = len(self.events)
        for it in range(cap + 1):
            del self.events[evstart:]
            nret = len(fr.rets)
            ny = len(fr.yields)
            rec = [[], [], sid, True, [], []]
            fr.loops.append(rec)
            self.loopfunc[rec[2]] = fr.func
            h = cur.copy()
            h.pc = base
            if ctl:
                h.pc = base + (PC(mk('loopctl', hash(sid)), True, ctl,
                                  'loop', s),)
            tr_mark = [len(t['raised']) for t in self.tries]
            body, exhausted, tags = header(h)
            end = self.block(s.body, body) if body is not None else None
            fr.loops.pop()
            tails = ([end] if end is not None else []) + rec[1]
            nctl = ctl | E
            for b in rec[0] + [r[0] for r in fr.rets[nret:]]:
                for p in b.pc[len(base):]:
                    nctl |= p.tags
            for t, mkk in zip(self.tries, tr_mark):
                for b, _ in t['raised'][mkk:]:
                    for p in b.pc[len(base):]:
                        nctl |= p.tags
            tailctl = E
            for b in tails:
                for p in b.pc[len(base):]:
                    tailctl |= p.tags
            back = self.join_all(tails, base, tailctl)
            nxt = self.widen(entry, cur, back, sid, tags | nctl)
            exits = []
            if exhausted is not None:
                exits.append(exhausted)
            stable = nctl == ctl and self.same(nxt, cur)
            rets_tags = E
            for b in [r[0] for r in fr.rets[nret:]]:
                for p in b.pc[len(base):]:
                    rets_tags |= p.tags
            brk = rec[0]
            if stable or it == cap:
                self.loopmemo[sid] = (cur, ctl)
                self.backs[sid] = (s, fr.func, [
                    {n: v.locs for n, v in b.env.items()} for b in tails])
                ex = exhausted
                if ex is not None and s.orelse:
                    ex = self.block(s.orelse, ex)
                outs = ([ex] if ex is not None else []) + brk
                pc = base
                if rets_tags:
                    pc = base + (PC(mk('loopret', hash(sid)), True,
                                    rets_tags, 'join', s),)
                elif not brk and ex is not None:
                    # a while condition that is now false
                    pc = base + tuple(
                        p for p in ex.pc[len(base):]
                        if p.kind in ('if', 'raise') and not p.tags)
                after = self.join_all(outs, pc, nctl)
                break
            # discard what this unstable pass produced
            del fr.rets[nret:]
            del fr.yields[ny:]
            for t, mkk in zip(self.tries, tr_mark):
                del t['raised'][mkk:]
            ctl = nctl
            cur = nxt
        return after

    def prewiden(self, st, memo):
        """Start from the loop-head state found when this loop was last
        entered with the same call stack (only ever less precise)."""
        n = st.copy()
        for k, m in memo.env.items():
            e = st.env.get(k)
            if e is None:
                n.env[k] = m
            elif e.t is m.t:
                if not (m.tags <= e.tags and m.locs <= e.locs):
                    n.env[k] = Val(e.t, e.tags | m.tags, e.locs | m.locs,
                                   e.typ)
            elif m.t.op == 'var' or subsumed(e, m):
                n.env[k] = Val(m.t, e.tags | m.tags, e.locs | m.locs, e.typ)
                if m.t.op == 'var':
                    self.lv.setdefault(m.t, {})['init'] = e
        for loc, m in memo.heap.items():
            o = st.heap.get(loc)
            if o is None or o is m:
                if o is None:
                    n.heap[loc] = m
                continue
            c = o.clone()
            c.tags = o.tags | m.tags
            c.open = o.open or m.open
            for f, x in o.fields.items():
                y = m.fields.get(f)
                if y is None:
                    if o.kind == 'list':
                        c.elem = x if c.elem is None else \
                            self.join_vals(c.elem, x)
                        del c.fields[f]
                    continue
                if x.t is y.t or y.t.op == 'var' or subsumed(x, y):
                    if x is not y:
                        c.fields[f] = Val(y.t, x.tags | y.tags,
                                          x.locs | y.locs, x.typ)
            if o.kind in ('ext', 'inst', 'nd', 'dict'):
                for f, y in m.fields.items():
                    c.fields.setdefault(f, y)
            if m.elem is not None:
                if c.elem is None or subsumed(c.elem, m.elem):
                    c.elem = m.elem if c.elem is None else \
                        m.elem.tag(c.elem.tags)
                else:
                    c.elem = self.join_vals(c.elem, m.elem)
            n.heap[loc] = c
        return n

    def widen(self, entry, cur, back, sid, tags):
        if back is None:
            return cur
        n = self.join(cur.copy(), back.copy(), entry.pc)
        for k, v in n.env.items():
            c = cur.env.get(k)
            b = back.env.get(k)
            if c is None or b is None:
                n.env[k] = v.tag(tags)
                continue
            if subsumed(b, c):
                n.env[k] = c.tag(b.tags)
                continue
            if b.t is not c.t or b.locs != c.locs:
                vt = mk('var', '%s@%x' % (k, abs(hash(sid)) % 0xffff))
                nv = Val(vt, c.tags | b.tags | tags, c.locs | b.locs, v.typ)
                self.lv.setdefault(vt, {})
                self.lv[vt].setdefault('init', entry.env.get(k))
                self.lv[vt]['next'] = b
                n.env[k] = nv
            else:
                n.env[k] = v
        for loc, o in list(n.heap.items()):
            c, b = cur.heap.get(loc), back.heap.get(loc)
            if c is None or b is None or c is b:
                continue
            m = o.clone()
            ch = False
            for f in list(o.fields):
                x, y = c.fields.get(f), b.fields.get(f)
                if x is None or y is None:
                    if o.kind in ('list',):
                        e = x or y
                        m.elem = e if m.elem is None else \
                            self.join_vals(m.elem, e)
                        del m.fields[f]
                        ch = True
                    elif o.kind == 'dict' and x is None:
                        pass
                    continue
                if subsumed(y, x):
                    if m.fields[f] is not x:
                        m.fields[f] = x.tag(y.tags)
                        ch = True
                    continue
                if x.t is not y.t or x.locs != y.locs:
                    vt = mk('var', '%s@%x' % (f, abs(hash((sid, loc)))
                                              % 0xffff))
                    self.lv.setdefault(vt, {})
                    self.lv[vt].setdefault('init', x)
                    self.lv[vt]['next'] = y
                    m.fields[f] = Val(vt, x.tags | y.tags | tags,
                                      x.locs | y.locs, x.typ)
                    ch = True
            if ch:
                n.heap[loc] = m
            if c.elem is not None and b.elem is not None and \
                    subsumed(b.elem, c.elem):
                m.elem = c.elem.tag(b.elem.tags)
                n.heap[loc] = m
            elif m.elem is not None and c.elem is not None and b.elem \
                    is not None and c.elem.t is not b.elem.t \
                    and len(alts(m.elem.t)) > 6:
                m.elem = Val(mk('var', 'elem@%x' % (
                    abs(hash((sid, loc))) % 0xffff)), m.elem.tags,
                    m.elem.locs, m.elem.typ)
                n.heap[loc] = m
        n.pc = entry.pc
        return n

    def same(self, a, b):
        if a is b:
            return True
        if set(a.env) != set(b.env):
            return False
        for k, v in a.env.items():
            w = b.env[k]
            if v.t is not w.t or v.tags != w.tags or v.locs != w.locs:
                return False
        for k, o in a.heap.items():
            p = b.heap.get(k)
            if p is o:
                continue
            if p is None:
                continue
            if o.tags != p.tags or set(o.fields) != set(p.fields):
                return False
            for f, v in o.fields.items():
                w = p.fields[f]
                if v.t is not w.t or v.tags != w.tags or v.locs != w.locs:
                    return False
            if (o.elem is None) != (p.elem is None):
                return False
            if o.elem is not None and (
                    o.elem.t is not p.elem.t or o.elem.tags != p.elem.tags
                    or o.elem.locs != p.elem.locs):
                return False
        return True

    def s_For(self, s, st):
        return self.for_loop(s, s.target, s.iter, st)

    def for_loop(self, s, target, itexpr, st):
        it = self.ev(itexpr, st)
        if self.on_iter:
            self.on_iter(self, st, it, s)
        items = self.known_items(st, it)
        if items is None:
            items = self.dict_iter(st, itexpr, s)
        if items is not None and len(items) <= 24 and not own_break(s):
            # unrolled: literal table
            fr = self.frames[-1]
            self._live = st
            for turn, v in enumerate(self.live_items(st, it, items)):
                rec = [[], [], self.site(s, 'unroll'), False, [], []]
                fr.loops.append(rec)
                self.loopfunc[rec[2]] = fr.func
                base = st.pc
                self._unr.append(turn)
                self.assign(target, v, st, s)
                end = self.block(s.body, st)
                self._unr.pop()
                fr.loops.pop()
                tails = ([end] if end is not None else []) + rec[1]
                if not tails:
                    return None
                if len(tails) == 1:
                    st = tails[0]
                    if rec[1]:
                        st.pc = base
                else:
                    ctl = E
                    for b in tails:
                        for p in b.pc[len(base):]:
                            ctl |= p.tags
                    st = self.join_all(tails, base, ctl)
                self._live = st
            if s.orelse:
                st = self.block(s.orelse, st)
            return st
        itt = self.deep(st, it)

        def header(h):
            ev = self.iter_elem(h, it, itexpr, s)
            tags = self.deep_tags(h, it, 0) | ev[1]
            ex = h.copy()
            h.pc = h.pc + (PC(mk('iter', itt), True, tags, 'for', s),)
            if self.guards is not None:
                h.pc = h.pc + self.entry_pc(h, it)
            self.assign(target, ev[0], h, s)
            return h, ex, tags
        return self.loop(s, st, header)

    def s_While(self, s, st):
        def header(h):
            c = self.ev(s.test, h)
            ct = self.cond_t(h, c)
            tags = self.deep_tags(h, c)
            tr = self.truth(ct)
            ex = h.copy()
            ex.pc = ex.pc + self.pcs(s.test, ct, False, tags, 'if', s)
            h.pc = h.pc + self.pcs(s.test, ct, True, tags, 'while', s)
            if tr is True:
                ex = None
            return h, ex, tags
        return self.loop(s, st, header)

    def s_Break(self, s, st):
        self.frames[-1].loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1][1].append(st)
        return None

    def s_With(self, s, st):
        exits = []
        fr = self.frames[-1]
        for item in s.items:
            cm = self.ev(item.context_expr, st)
            val = cm
            c = self.cls_of(st, cm)
            if c is not None:
                m = self.p.method(c, '__enter__')
                if m is not None:
                    val = self.call_func(m, [cm], {}, st, item.context_expr)
                    exits.append((c, cm))
            self.rec(st, 'with', cm.typ or show(cm.t), s, cm, [val])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, st, s)
        marks = [t['raised'] for t in self.tries]
        del marks, fr
        st = self.block(s.body, st)
        if st is not None:
            for c, cm in reversed(exits):
                m = self.p.method(c, '__exit__')
                if m is not None:
                    self.call_func(m, [cm, NONEV, NONEV, NONEV], {}, st,
                                   s.items[0].context_expr)
        return st

    def s_Try(self, s, st):
        base = st.pc
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append(None)
            elif isinstance(h.type, ast.Tuple):
                types.extend(ast.unparse(x).split('.')[-1]
                             for x in h.type.elts)
            else:
                types.append(ast.unparse(h.type).split('.')[-1])
        tr = {'types': types, 'raised': [], 'snaps': [], 'node': s,
              'id': self.site(s, 'try'), 'func': self.frames[-1].func,
              'frame': self.frames[-1],
              'loops': tuple(x[2] for f in self.frames for x in f.loops),
              'here': len(self.frames[-1].loops), 'handlers': [],
              'outer': tuple(t['id'] for t in self.tries)}
        self.tryinfo[tr['id']] = tr
        tagset = set()
        self.trytags.append(tagset)
        self.tries.append(tr)
        first = st.copy()
        noise = self.noisy
        end = self.block(s.body, st)
        if end is not None:
            tr['snaps'].append(end.copy())
        self.tries.pop()
        self.trytags.pop()
        if noise == self.noisy and end is not None and types and \
                set(types) <= {'KeyError'} and not s.finalbody:
            # nothing in the body can raise it
            return self.block(s.orelse, end) if s.orelse else end
        exctags = frozenset(tagset)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        outs = []
        survive = E
        any_dead = False
        handler_pc = PC(mk('exc', hash(tr['id'])), True, exctags, 'exc', s)
        snaps = tr['snaps'] + [x[0] for x in tr['raised']]
        for h in s.handlers:
            hs = self.join_many(first, snaps, base, exctags)
            # a handler runs after *some* prefix of the body
            hs.must = first.must
            hs.pc = base + (handler_pc,)
            if h.name:
                hs.env[h.name] = Val(mk('unk', 'exc', hash(tr['id'])),
                                     exctags)
            self.rec(hs, 'handler', ','.join(
                str(x) for x in types), h)
            seq0 = self._seq
            r = self.block(h.body, hs)
            tr['handlers'].append((h, seq0, self._seq, r is not None))
            if r is None:
                any_dead = True
                survive |= exctags
            else:
                outs.append(r)
        if end is None and not outs:
            out = None
        else:
            sts = ([end] if end is not None else []) + outs
            pc = base
            extra = E
            for x in sts:
                for p in x.pc[len(base):]:
                    if p.kind != 'exc':
                        extra |= p.tags
            if end is not None and not outs:
                # facts established in the body stay
                pc = base + tuple(end.pc[len(base):])
            elif extra:
                pc = pc + (PC(mk('survive', hash(tr['id'])), True, extra,
                              'join', s),)
            if any_dead:
                pc = pc + (PC(mk('exc', hash(tr['id'])), False, survive,
                              'exc', s),)
            out = self.join_all(sts, pc, exctags if outs else E)
        if s.finalbody:
            src = out
            if src is None:
                src = first.copy()
                self.block(s.finalbody, src)
                return None
            out = self.block(s.finalbody, src)
        return out

    s_TryStar = s_Try

    # --------------------------------------------------------------- assign
    def assign(self, target, v, st, node, aug=None):
        if isinstance(target, ast.Name):
            pt = st.pctags()
            v2 = v
            del pt
            st.env[target.id] = v2
            self.rec(st, 'setname', target.id, node, None, [v])
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.known_items(st, v)
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self.assign(t.value, Val(mk('item', v.t, mk(
                        'slice', const(i), NONE, NONE)), v.tags), st, node)
                    continue
                if items is not None and len(items) == len(target.elts):
                    x = items[i]
                else:
                    x = self.get_item(st, v, Val(const(i)), node)
                self.assign(t, x, st, node)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, st)
            self.set_field(st, base, target.attr, v, node, 'setattr', aug)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, st)
            key = self.ev(target.slice, st)
            k = self.key_of(st, key)
            self.set_field(st, base, k, v, node, 'setitem', aug, key)
            # element stores into a plain local array also taint the name
            if not base.locs and isinstance(target.value, ast.Name):
                n = target.value.id
                st.env[n] = base.tag(v.tags | key.tags | st.pctags())
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, node)

    def set_field(self, st, base, k, v, node, kind, aug=None, key=None):
        ctl = st.pctags()
        self.rec(st, kind, k if not isinstance(k, tuple) else k[1], node,
                 base, [v] + ([key] if key is not None else []),
                 extra={'aug': aug, 'key': key})
        strong = len(base.locs) == 1
        for loc in base.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            self.mut_event(st, loc, o, kind, node, k)
            o = o.clone()
            o.dt = o.srt = None
            vv = v.tag(ctl) if ctl else v
            if k is None:
                o.elem = vv if o.elem is None else self.join_vals(o.elem, vv)
                o.tags |= ctl | (key.tags if key is not None else E) | v.tags
            elif strong:
                o.fields[k] = vv
            else:
                old = o.fields.get(k)
                o.fields[k] = vv if old is None else self.join_vals(old, vv)
            st.heap[loc] = o

    def mut_event(self, st, loc, o, how, node, key=None):
        if o.origin is not None:
            self.rec(st, 'mutate', how, node, None, [],
                     extra={'origin': o.origin, 'key': key, 'kind': o.kind,
                            'cls': o.cls})

    def mutate(self, st, v, how, node, args=(), key=None, sig=None):
        ctl = st.pctags()
        tags = ctl
        for a in args:
            tags |= self.deep_tags(st, a)
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            self.mut_event(st, loc, o, how, node, key)
            if sig is not None and _sorted_for(o.srt, sig):
                continue           # already in this order
            keep = o.srt if how in ('delitem', '.remove', '.pop') else sig
            if tags - o.tags or keep != o.srt:
                o = o.clone()
                o.tags |= tags
                o.srt = keep
                st.heap[loc] = o

    def kinds(self, st, v):
        return {st.heap[x].kind for x in v.locs if x in st.heap}

    def key_of(self, st, v):
        t = v.t
        if t.op == 'const':
            k = t.args[0]
            if isinstance(k, str):
                return k
            if isinstance(k, int) and not isinstance(k, bool):
                return ('i', k)
        return None

    # ------------------------------------------------------------ iteration
    def known_items(self, st, v):
        """Elements if v is a fully known sequence, else None."""
        t = v.t
        if len(v.locs) == 1:
            o = st.heap.get(next(iter(v.locs)))
            if o is not None and o.kind in ('list', 'tuple', 'set') \
                    and o.elem is None and not o.open and o.dt is None:
                out, n = [], 0
                while ('i', n) in o.fields:
                    out.append(o.fields[('i', n)])
                    n += 1
                if len(out) == len(o.fields):
                    return [x.tag(v.tags) for x in out]
            if o is not None and o.kind == 'dict' and o.elem is None \
                    and not o.open:
                return [Val(const(k[1] if isinstance(k, tuple) else k),
                            v.tags) for k in o.fields]
        if t.op in ('tuple', 'list') and not v.locs:
            return [Val(a, v.tags) for a in t.args]
        if t.op == 'items':
            return None
        return None

    def drop_item(self, st, loc, o, m, args):
        """list.remove / list.pop on a fully known list, exactly."""
        if o.elem is not None or o.open or o.dt is not None:
            return None
        n, items = 0, []
        while ('i', n) in o.fields:
            items.append(o.fields[('i', n)])
            n += 1
        if len(items) != len(o.fields) or not items:
            return None
        if m == 'remove':
            a = args[0] if args else None
            hit = [k for k, x in enumerate(items) if a is not None and (
                (len(a.locs) == 1 and x.locs == a.locs) or (
                    not a.locs and not x.locs and a.t.op == 'const'
                    and x.t == a.t))]
            if len(hit) != 1 and not (
                    hit and all(not items[h].locs for h in hit)):
                return None
            k = hit[0]
        else:
            if args and args[0].t.op != 'const':
                return None
            k = args[0].t.args[0] if args else -1
            if not isinstance(k, int) or not -len(items) <= k < len(items):
                return None
        out = items.pop(k)
        c = o.clone()
        c.fields = {('i', i): x for i, x in enumerate(items)}
        st.heap[loc] = c
        return out if m == 'pop' else NONEV

    def live_items(self, st, it, items):
        """Iterate a list the way Python does: by position, looking at the
        current length before every step."""
        loc = next(iter(it.locs)) if len(it.locs) == 1 else None
        o = st.heap.get(loc)
        if o is None or o.kind != 'list' or it.t.op in ('tuple', 'list'):
            yield from items
            return
        n = 0
        while n < 64:
            o = self._live.heap.get(loc)
            if o is None or o.elem is not None or o.open or \
                    o.dt is not None:
                yield from items[n:]
                return
            if ('i', n) not in o.fields:
                return
            yield o.fields[('i', n)].tag(it.tags)
            n += 1

    def dict_iter(self, st, expr, node):
        """Items of d.items(), d.keys(), d.values() of a fully known dict."""
        if not (isinstance(expr, ast.Call) and not expr.args and isinstance(
                expr.func, ast.Attribute) and isinstance(
                    expr.func.value, ast.Name) and expr.func.attr in (
                        'items', 'keys', 'values')):
            return None
        v = st.env.get(expr.func.value.id)
        if v is None or len(v.locs) != 1:
            return None
        o = st.heap.get(next(iter(v.locs)))
        if o is None or o.kind != 'dict' or o.elem is not None or o.open \
                or len(o.fields) > 24:
            return None
        out = []
        for i, (k, x) in enumerate(o.fields.items()):
            kv = Val(const(k[1] if isinstance(k, tuple) else k), v.tags)
            if expr.func.attr == 'keys':
                out.append(kv)
            elif expr.func.attr == 'values':
                out.append(x.tag(v.tags))
            else:
                out.append(self.mk_tuple(st, [kv, x.tag(v.tags)], node,
                                         'items%d' % i))
        return out

    def elem_of(self, st, v, node):
        items = self.known_items(st, v)
        if items:
            e = items[0]
            for x in items[1:]:
                e = self.join_vals(e, x)
            return e
        out = None
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            e = o.elem
            if e is None and o.kind in ('ext', 'inst', 'nd'):
                if o.par is not None and o.origin is None and \
                        o.par in st.heap:
                    e = self.elem_of(st, Val(v.t, E, frozenset([o.par])),
                                     node)
                elif o.origin is not None:
                    nl = ('elem',) + (loc,)
                    if nl not in st.heap:
                        st.heap[nl] = Obj('ext', None, origin=o.origin
                                          + ('[]',), tags=o.tags, open=True)
                    e = Val(mk('elem', v.t), E, frozenset([nl]))
                    o2 = o.clone()
                    o2.elem = e
                    st.heap[loc] = o2
                else:
                    e = Val(mk('elem', v.t))
            for f, x in o.fields.items():
                if isinstance(f, tuple):
                    e = x if e is None else self.join_vals(e, x)
            if e is not None:
                e = e.tag(o.tags)
                out = e if out is None else self.join_vals(out, e)
        if out is None:
            out = Val(mk('elem', v.t))
        return out.tag(v.tags)

    def iter_elem(self, st, it, expr, node):
        """(element value, extra tags) for a loop over `it`."""
        if len(it.locs) == 1:
            o = st.heap.get(next(iter(it.locs)))
            if o is not None and o.kind == 'gen':
                self.gen_pc = None
                r = self.run_gen(o, st, node)
                if self.guards is not None and self.gen_pc is not None:
                    self.guards[next(iter(it.locs))] = (
                        node, self.gen_pc[0] if len(self.gen_pc) == 1
                        else None)
                return r
            if o is not None and o.kind == 'wrap':
                nm, parts = o.data
                if nm == 'zip':
                    vs, tg = [], E
                    for p in parts:
                        e, t = self.iter_elem(st, p, expr, node)
                        vs.append(e)
                        tg |= t
                    return self.mk_tuple(st, vs, node, 'zip'), tg
                if nm == 'enumerate':
                    e, t = self.iter_elem(st, parts[0], expr, node)
                    dt = self.deep(st, parts[0])
                    ix = Val(mk('index', dt, self.turn(node)) if
                             self.distinct and self.distinct(dt) else
                             mk('index', dt), e.tags | t)
                    if len(parts) > 1 and parts[1].t != const(0):
                        ix = Val(mk('bin', 'Add', ix.t, parts[1].t),
                                 ix.tags | parts[1].tags)
                    return self.mk_tuple(st, [ix, e], node, 'enum'), t
                if nm == 'items':
                    e = self.elem_any(st, parts[0])
                    kk = Val(mk('key', parts[0].t), parts[0].tags)
                    return self.mk_tuple(st, [kk, e], node, 'items'), E
                if nm == 'values':
                    return self.elem_any(st, parts[0]), E
                if nm == 'keys':
                    return Val(mk('key', parts[0].t), parts[0].tags), E
                if nm in ('pass', 'reversed', 'sorted'):
                    return self.iter_elem(st, parts[0], expr, node)
        t = it.t
        if t.op == 'call' and t.args[0].op == 'ref' and \
                t.args[0].args[0] == 'range':
            if self.distinct:
                return Val(mk('index', t, self.turn(node)), it.tags, E,
                           'int'), E
            return Val(mk('index', t), it.tags, E, 'int'), E
        if self.distinct and self.distinct(t):
            return Val(mk('elem', t, self.turn(node)), it.tags), E
        e = self.elem_of(st, it, node)
        return e, E

    def turn(self, node):
        """Name of one loop (only if loops over one list are told apart)."""
        return 'k%s.%d' % (getattr(node, 'lineno', 0),
                           getattr(node, 'col_offset', 0))

    def elem_any(self, st, v):
        out = None
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            for x in o.fields.values():
                out = x if out is None else self.join_vals(out, x)
            if o.elem is not None:
                out = o.elem if out is None else self.join_vals(out, o.elem)
            if out is None and (o.origin is not None or o.par is not None):
                out = self.elem_of(st, v, None)
        if out is None:
            out = Val(mk('elem', v.t))
        return out.tag(v.tags)

    def run_gen(self, o, st, node):
        func, args, kwargs, cenv = o.data
        base = st.pc
        if len(self.frames) > self.max_depth or any(
                f.func is func for f in self.frames):
            return Val(mk('unk', 'gen', func.qual)), E
        self.rec(st, 'iter-gen', func.qual, node)
        env = self.bind(func, args, kwargs, st, node)
        if cenv:
            e2 = dict(cenv)
            e2.update(env)
            env = e2
        s2 = State(env, st.heap, st.pc, st.must, st.may)
        out, (y, ytags, _) = self.exec_func(
            func, s2, self.frames[-1].stack + (node,))
        if out is not None:
            st.heap = out.heap
            st.must, st.may = out.must, out.may
        st.pc = base
        return y, ytags

    def mk_tuple(self, st, vals, node, extra=''):
        tags = E
        t = mk('tuple', *[v.t for v in vals])
        loc = self.site(node, ('tuple', extra))
        st.heap[loc] = Obj('tuple', None, {('i', i): v for i, v in
                                           enumerate(vals)})
        return Val(t, tags, frozenset([loc]), 'tuple')

    # ---------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            tags = E
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    tags |= self.ev(c, st).tags
            return Val(mk('unk', ast.unparse(e)), tags)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return Val(mk('ref', 'Ellipsis'))
        return Val(const(v), E, E, type(v).__name__ if v is not None
                   else None)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            v = st.env[n]
            tags = E
            for loc in v.locs:
                o = st.heap.get(loc)
                if o is not None:
                    tags |= o.tags
            return v.tag(tags)
        func = self.frames[-1].func
        return self.global_name(n, func, st, e)

    def global_name(self, n, func, st, node):
        m = func.module
        f = func
        while f is not None:
            f = f.outer
        if n in m.imports:
            return Val(mk('ref', self.p.canonical(m.imports[n])))
        if n in m.funcs or n in m.classes:
            return Val(mk('ref', m.name + '.' + n))
        if n in m.globals:
            key = (m.name, n)
            if key not in self._globals:
                self._globals[key] = True
                try:
                    v = self.ev(m.globals[n], st)
                finally:
                    self._globals.pop(key)
                return v
            return Val(mk('ref', m.name + '.' + n))
        if n in BUILTINS:
            return Val(mk('ref', n))
        return Val(mk('undef', n))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        return self.get_attr(st, base, e.attr, e)

    def get_attr(self, st, base, name, node):
        if base.t.op == 'ref':
            d = self.p.canonical(base.t.args[0] + '.' + name)
            r = self.p.lookup(d)
            if r is None:
                k = self.p.lookup(base.t.args[0])
                if isinstance(k, Module) and name in k.globals:
                    fr = Frame(_ModFunc(k), self.frames[-1].stack)
                    self.frames.append(fr)
                    try:
                        return self.ev(k.globals[name], st)
                    finally:
                        self.frames.pop()
                if isinstance(k, Cls):
                    for c in self.p.mro(k):
                        if name in c.attrs:
                            return self.ev(c.attrs[name], st)
            return Val(mk('ref', d), base.tags)
        if self.on_attr:
            r = self.on_attr(self, st, base, name, node)
            if r is not None:
                return r
        t = mk('attr', base.t, name)
        if name in VIEW_ATTRS:
            return Val(t, base.tags, base.locs, base.typ)
        out = None
        for loc in base.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            v = o.fields.get(name)
            if v is None:
                c = self.p.by_qual.get(o.cls) if o.cls else None
                if isinstance(c, Cls):
                    pr = self.p.prop(c, name)
                    if pr is not None:
                        v = self.call_func(pr, [Val(base.t, base.tags,
                                                    frozenset([loc]),
                                                    o.cls)], {}, st, node)
                    elif self.p.method(c, name) is not None:
                        v = Val(t, base.tags)
                    else:
                        for k in self.p.mro(c):
                            if name in k.attrs:
                                v = self.ev(k.attrs[name], st)
                                break
            if v is None and o.kind in ('ext', 'inst'):
                v = self.lazy_field(st, loc, o, name, base, t)
            if v is not None:
                if o.cls not in self.clean_cls:
                    v = v.tag(o.tags)
                out = v if out is None else self.join_vals(out, v)
        if out is None:
            out = Val(t)
        return out.tag(base.tags)

    def lazy_field(self, st, loc, o, name, base, t):
        if o.par is not None and o.origin is None and o.par in st.heap:
            po = st.heap[o.par]
            v = po.fields.get(name)
            if v is None:
                v = self.lazy_field(st, o.par, po, name, base, t)
            o2 = st.heap[loc].clone()
            o2.fields[name] = v
            st.heap[loc] = o2
            return v
        if o.origin is None and o.kind != 'inst':
            v = Val(t)
            return v
        nl = ('f', loc, name)
        typ = self.force_types.get((o.cls, name)) if o.cls else None
        if typ is None:
            typ = FIELD_TYPES.get((o.cls or '').rsplit('.', 1)[-1],
                                  {}).get(name)
        if typ is None and name == 'stats' and o.cls in STREAM_TYPES:
            typ = None
        if typ in ('int', 'float', 'str', 'bool'):
            v = LVal(t, E, E, typ)
        else:
            kind = 'nd' if typ == 'ndarray' else 'ext'
            if typ and isinstance(self.p.by_qual.get(typ), Cls):
                kind = 'inst'
            if nl not in st.heap:
                st.heap[nl] = Obj(
                    kind, typ, origin=None if o.origin is None
                    else o.origin + (name,), tags=o.tags, open=True)
            v = LVal(t, E, frozenset([nl]), typ)
        o2 = st.heap[loc].clone()
        o2.fields[name] = v
        st.heap[loc] = o2
        return v

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        key = self.ev(e.slice, st)
        k = self.key_of(st, key)
        if k is None or not base.locs or any(
                x not in st.heap or k not in st.heap[x].fields or
                any(a.op == 'absent' for a in alts(st.heap[x].fields[k].t))
                for x in base.locs):
            self.noisy += 1
        return self.get_item(st, base, key, e)

    def e_Slice(self, e, st):
        parts = []
        tags = E
        for x in (e.lower, e.upper, e.step):
            if x is None:
                parts.append(NONE)
            else:
                v = self.ev(x, st)
                tags |= v.tags
                parts.append(self.deep(st, v))
        return Val(mk('slice', *parts), tags, E, 'slice')

    def get_item(self, st, base, key, node):
        k = self.key_of(st, key)
        kt = self.deep(st, key)
        bt = self.deep(st, base)
        if bt.op in ('tuple', 'list') and isinstance(k, tuple) and \
                not base.locs:
            try:
                return Val(bt.args[k[1]], base.tags)
            except IndexError:
                pass
        t = mk('item', base.t, kt)
        if len(base.locs) == 1 and st.heap.get(
                next(iter(base.locs))) is not None and \
                st.heap[next(iter(base.locs))].kind in ('list', 'tuple',
                                                        'dict'):
            t = mk('item', bt, kt)
        out = None
        if self.distinct and kt.op == 'index' and self.distinct(base.t):
            # one element of its own for every index
            return Val(t, base.tags | key.tags)
        if fancy_key(key) and base.locs and not (
                self.kinds(st, base) & {'list', 'tuple', 'dict'}):
            # advanced indexing copies
            out = self.alloc(st, node, 'nd', t=t, typ='ndarray',
                             extra='fancy').tag(
                self.deep_tags(st, base, 1) | key.tags)
            if self.on_item:
                out = self.on_item(self, st, base, key, out, node) or out
            return out
        for loc in base.locs:
            o = st.heap.get(loc)
            if o is None:
                continue
            v = None
            kk = k
            if isinstance(k, tuple) and k[1] < 0 and o.elem is None \
                    and o.kind in ('list', 'tuple') and not o.open:
                kk = ('i', len(o.fields) + k[1])
            if kk is not None:
                v = o.fields.get(kk)
            if v is None and kt.op == 'slice' or (
                    v is None and o.kind == 'nd'):
                # a (basic-indexing) view of the same storage
                if o.kind in ('nd', 'ext'):
                    v = Val(t, o.tags, frozenset([loc]), base.typ)
                elif o.kind in ('list', 'tuple'):
                    nv = self.slice_list(st, o, kt, node)
                    v = nv
            if v is None and kk is None and kt.op != 'slice':
                v = self.elem_any_loc(st, loc, o, t)
            if v is None and isinstance(k, str) and o.kind in ('ext',
                                                               'inst'):
                v = self.lazy_field(st, loc, o, k, base, t)
            if v is None and isinstance(k, tuple):
                if o.elem is not None:
                    v = Val(t, o.elem.tags, o.elem.locs, o.elem.typ)
                elif o.kind in ('ext', 'inst') and o.origin is not None:
                    e = self.elem_of(st, Val(base.t, E, frozenset([loc])),
                                     node)
                    v = Val(t, e.tags, e.locs, e.typ)
            if v is None and isinstance(k, str) and o.elem is not None:
                v = Val(t, o.elem.tags, o.elem.locs, o.elem.typ)
            if v is not None:
                v = v.tag(o.tags)
                out = v if out is None else self.join_vals(out, v)
        if out is None:
            out = Val(t)
        out = out.tag(base.tags | key.tags)
        if self.on_item:
            out = self.on_item(self, st, base, key, out, node) or out
        return out

    def slice_list(self, st, o, kt, node):
        lo, hi, step = kt.args
        if o.elem is None and not o.open and all(
                x is NONE or x.op == 'const' for x in kt.args):
            items = [o.fields[('i', i)] for i in range(len(o.fields))
                     if ('i', i) in o.fields]
            try:
                sl = slice(*[x.args[0] for x in kt.args])
                return self.mk_list(st, items[sl], node, 'sl')
            except Exception:
                pass
        e = o.elem
        for x in o.fields.values():
            e = x if e is None else self.join_vals(e, x)
        return self.alloc(st, node, 'list', elem=e, open=True, extra='sl')

    def mk_list(self, st, vals, node, extra=''):
        return self.alloc(st, node, 'list', fields={
            ('i', i): v for i, v in enumerate(vals)}, extra=extra,
            typ='list')

    def elem_any_loc(self, st, loc, o, t):
        out = o.elem
        if o.kind in ('list', 'tuple', 'dict', 'set'):
            for x in o.fields.values():
                out = x if out is None else self.join_vals(out, x)
        if out is None:
            if o.origin is not None and o.kind != 'nd':
                e = self.elem_of(st, Val(t, E, frozenset([loc])), None)
                return Val(t, e.tags, e.locs, e.typ)
            return None
        return Val(t, out.tags, out.locs, out.typ)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        opn = type(e.op).__name__
        ka, kb = self.kinds(st, a), self.kinds(st, b)
        if opn == 'Add' and 'list' in ka and 'list' in kb:
            ia, ib = self.known_items(st, a), self.known_items(st, b)
            if ia is not None and ib is not None:
                return self.mk_list(st, ia + ib, e)
            el = self.join_vals(self.elem_of(st, a, e),
                                self.elem_of(st, b, e))
            v = self.alloc(st, e, 'list', elem=el, open=True, typ='list')
            return v.tag(a.tags | b.tags)
        if self.on_bin:
            r = self.on_bin(self, st, opn, a, b, e)
            if r is not None:
                return r
        t = self.binop_t(opn, self.deep(st, a), self.deep(st, b))
        typ = 'ndarray' if 'ndarray' in (a.typ, b.typ) else (
            'str' if 'str' in (a.typ, b.typ) and opn in ('Add', 'Mod')
            else None)
        return Val(t, a.tags | b.tags, E, typ)

    def binop_t(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.args[0], b.args[0]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                     'Mult': lambda: x * y, 'Div': lambda: x / y,
                     'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                     'Pow': lambda: x ** y if abs(y) < 20 else None}[op]()
                if r is not None and not (isinstance(r, str)
                                          and len(r) > 500):
                    return const(r)
            except Exception:
                pass
        return mk('bin', op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        t = self.deep(st, v)
        op = {'Not': 'not', 'USub': 'neg', 'UAdd': 'pos',
              'Invert': 'inv'}[type(e.op).__name__]
        if t.op == 'const':
            try:
                x = t.args[0]
                return Val(const({'not': lambda: not x, 'neg': lambda: -x,
                                  'pos': lambda: +x,
                                  'inv': lambda: ~x}[op]()), v.tags)
            except Exception:
                pass
        if op == 'not':
            tr = self.truth(t)
            if tr is not None:
                return Val(const(not tr), v.tags)
        return Val(mk('un', op, t), v.tags, E, v.typ if op == 'neg'
                   else None)

    def e_BoolOp(self, e, st):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        ts, tags, locs = [], E, E
        vals = []
        base = st.pc
        for x in e.values:
            v = self.ev(x, st)
            t = self.deep(st, v)
            tr = self.truth(t)
            if tr is None:
                k = self.known(st, t) if t.op in ('cmp', 'un', 'call') \
                    else None
                tr = k
            vals.append(v)
            tags |= v.tags
            if op == 'and' and tr is False:
                st.pc = base
                if not ts:
                    return v
                ts.append(t)
                return Val(const(False), tags)
            if op == 'or' and tr is True:
                st.pc = base
                if not ts:
                    return v
                return Val(const(True) if t.op in ('cmp', 'bool') else
                           mk('bool', op, *(ts + [t])), tags)
            if tr is None:
                ts.append(t)
                locs |= v.locs
                st.pc = st.pc + self.pcs(x, t, op == 'and', v.tags, 'expr',
                                         e)
        st.pc = base
        if op == 'or' and len(vals) > 1:
            self.rec(st, 'coalesce', op, e, None, vals)
        if not ts:
            return vals[-1].tag(tags)
        if len(ts) == 1 and len(e.values) > 1:
            return Val(ts[0], tags, locs, vals[-1].typ)
        return Val(mk('bool', op, *ts), tags, locs)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        ts, tags = [], left.tags
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                # the order of a collection is not seen
                tags |= right.tags - self.order_tags
            else:
                tags |= right.tags
            ts.append(self.cmp_t(type(op).__name__, self.deep(st, left),
                                 self.deep(st, right)))
            left = right
        out = Val(ts[0] if len(ts) == 1 else mk('bool', 'and', *ts), tags,
                  E, 'bool')
        if self.on_cmp:
            out = self.on_cmp(self, st, out) or out
        return out

    def cmp_t(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            try:
                r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y,
                     'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                     'Gt': lambda: x > y, 'GtE': lambda: x >= y,
                     'Is': lambda: x is y if (x is None or y is None)
                     else x == y,
                     'IsNot': lambda: x is not y if (x is None or y is None)
                     else x != y,
                     'In': lambda: x in y, 'NotIn': lambda: x not in y}[op]()
                return const(bool(r))
            except Exception:
                pass
        if op in ('In', 'NotIn') and a.op == 'const' and b.op in (
                'list', 'tuple', 'set') and all(x.op == 'const'
                                                for x in b.args):
            r = any(a.args[0] == x.args[0] for x in b.args)
            return const(r if op == 'In' else not r)
        if op in ('In', 'NotIn') and a.op == 'const' and b.op == 'dict' \
                and all(x.op == 'const' for x in b.args[::2]):
            r = any(a.args[0] == x.args[0] for x in b.args[::2])
            return const(r if op == 'In' else not r)
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and NONE in (a, b):
            o = b if a is NONE else a
            if o.op in ('list', 'tuple', 'dict', 'obj', 'ref', 'listof',
                        'fstr', 'lambda') or (o.op == 'const'):
                eq = o is NONE
                return const(eq if op in ('Is', 'Eq') else not eq)
        if op in ('Eq', 'NotEq', 'Is', 'IsNot') and a.op in (
                'const', 'tuple', 'list') and b.op in (
                'const', 'tuple', 'list') and a.op != b.op:
            if a.op == 'const' or b.op == 'const':
                return const(op in ('NotEq', 'IsNot'))
        if op in ('Eq', 'Is') and a is b and a.op in ('const', 'ref'):
            return const(True)
        if op == 'Eq' and a.op == 'const' and b.op != 'const':
            a, b = b, a
        if op == 'NotEq' and a.op == 'const' and b.op != 'const':
            a, b = b, a
        return mk('cmp', op, a, b)

    def e_IfExp(self, e, st):
        c = self.ev(e.test, st)
        ct = self.cond_t(st, c)
        tr = self.truth(ct)
        if tr is None:
            tr = self.known(st, ct)
        if tr is True:
            return self.ev(e.body, st)
        if tr is False:
            return self.ev(e.orelse, st)
        base = st.pc
        tags = self.deep_tags(st, c)
        st.pc = base + self.pcs(e.test, ct, True, tags, 'if', e)
        a = self.ev(e.body, st)
        st.pc = base + self.pcs(e.test, ct, False, tags, 'if', e)
        b = self.ev(e.orelse, st)
        st.pc = base
        v = self.join_vals(a, b, tags)
        if v.t.op == 'phi':
            v = Val(mk('ifexp', ct, a.t, b.t), v.tags, v.locs, v.typ)
        return v

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x, st)
                  for x in e.elts]
            tags = E
            for v in vs:
                tags |= v.tags
            return Val(mk('unk', ast.unparse(e)), tags)
        return self.mk_tuple(st, [self.ev(x, st) for x in e.elts], e)

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_Tuple(e, st)
        return self.mk_list(st, [self.ev(x, st) for x in e.elts], e)

    def e_Set(self, e, st):
        return self.alloc(st, e, 'set', fields={
            ('i', i): self.ev(x, st) for i, x in enumerate(e.elts)},
            typ='set')

    def e_Dict(self, e, st):
        fields, elem, opn = {}, None, False
        srcs = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                srcs.append(vv)
                for loc in vv.locs:
                    o = st.heap.get(loc)
                    if o is not None:
                        fields.update(o.fields)
                        opn = opn or o.open
                if not vv.locs:
                    opn = True
                continue
            kv = self.ev(k, st)
            kk = self.key_of(st, kv)
            if kk is None:
                elem = vv if elem is None else self.join_vals(elem, vv)
            else:
                fields[kk] = vv
        nd = self.alloc(st, e, 'dict', fields=fields, elem=elem, open=opn,
                        typ='dict')
        named = {k.value: fields[k.value] for k in e.keys if isinstance(
            k, ast.Constant) and isinstance(k.value, str)
            and k.value in fields}
        if named:
            self.rec(st, 'display', 'dict', e, None, (), named)
        if len(srcs) == 1:
            self.set_par(st, nd, srcs)
        return nd

    def e_JoinedStr(self, e, st):
        parts, tags = [], E
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, st)
                tags |= self.deep_tags(st, v)
                parts.append(self.deep(st, v))
        if all(p.op == 'const' for p in parts):
            return Val(const(''.join(str(p.args[0]) for p in parts)), tags,
                       E, 'str')
        if self.on_fstr:
            r = self.on_fstr(self, st, parts, tags, e)
            if r is not None:
                return r
        return Val(mk('fstr', *parts), tags, E, 'str')

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        node = ast.FunctionDef(
            name='<lambda>', args=e.args, body=[ast.copy_location(
                ast.Return(value=e.body), e)], decorator_list=[],
            returns=None, type_comment=None)
        ast.copy_location(node, e)
        f = Func(node, fr.func.module, None, fr.func)
        return self.alloc(st, e, 'func', data=(f, dict(st.env)))

    def _comp(self, e, st, elts, kind):
        fr = self.frames[-1]
        base = st.pc
        saved = dict(st.env)
        tags = E
        rec = [[], [], self.site(e, 'comp'), False, [], []]
        fr.loops.append(rec)
        self.loopfunc[rec[2]] = fr.func
        conds = []
        gterm = []
        unrolled = None
        if len(e.generators) == 1:
            n0 = len(self.events)
            it = self.ev(e.generators[0].iter, st)
            items = self.known_items(st, it)
            if items is None:
                items = self.dict_iter(st, e.generators[0].iter, e)
            if items is not None and len(items) <= 24:
                out = []
                self._live = st
                depth = len(self._unr)
                for turn, v in enumerate(self.live_items(st, it, items)):
                    self._live = st
                    del self._unr[depth:]
                    self._unr.append(turn)
                    self.assign(e.generators[0].target, v, st, e)
                    keep = True
                    for c in e.generators[0].ifs:
                        keep = self.truth(self.cond_t(st, self.ev(c, st)))
                        if not keep:
                            break
                    if keep is None:
                        out = None
                        break
                    if keep:
                        out.append([self.ev(x, st) for x in elts])
                    self._live = st
                del self._unr[depth:]
                if out is not None:
                    unrolled = (out, it.tags)
            if unrolled is None:
                del self.events[n0:]
        if unrolled is None:
            # two passes: dependences carried through shared objects
            n0 = len(self.events)
            for _ in range(2):
                del self.events[n0:]
                st.pc = base
                conds, gterm, tags = [], [], E
                for g in e.generators:
                    it = self.ev(g.iter, st)
                    el, tg = self.iter_elem(st, it, g.iter, g.target)
                    itt = self.deep(st, it)
                    gterm.append(itt)
                    tags |= self.deep_tags(st, it, 0) | tg
                    st.pc = st.pc + (PC(mk('iter', itt), True, tags, 'for',
                                        e),)
                    self.assign(g.target, el, st, e)
                    for c in g.ifs:
                        cv = self.ev(c, st)
                        ct = self.cond_t(st, cv)
                        ctg = self.deep_tags(st, cv)
                        tags |= ctg
                        st.pc = st.pc + self.pcs(c, ct, True, ctg, 'if', e)
                        conds.append(ct)
                    if self.guards is not None:
                        st.pc = st.pc + self.entry_pc(st, it)
                vals = [self.ev(x, st) for x in elts]
        self.comp_pc = st.pc[len(base):]
        fr.loops.pop()
        st.pc = base
        if unrolled is not None:
            for k in list(st.env):
                if k not in saved:
                    del st.env[k]
            for k, v in saved.items():
                st.env[k] = v
            return 'unrolled', unrolled[0], unrolled[1], None
        for k in list(st.env):
            if k not in saved:
                del st.env[k]
        for k, v in saved.items():
            st.env[k] = v
        return 'sum', vals, tags, (gterm, conds)

    def e_ListComp(self, e, st):
        how, vals, tags, info = self._comp(e, st, [e.elt], 'list')
        if how == 'unrolled':
            v = self.mk_list(st, [x[0] for x in vals], e)
            return v.tag(tags)
        el = vals[0].tag(tags)
        t = mk('comp', self.deep(st, el), mk('tuple', *info[0]),
               mk('tuple', *info[1]))
        pcs = self.comp_pc
        v = self.alloc(st, e, 'list', elem=el, open=True, t=t, typ='list')
        if self.guards is not None:
            self.guards[next(iter(v.locs))] = (e, pcs)
        return v.tag(tags)

    def entered(self, st, recv, node, m):
        for loc in recv.locs:
            b = self.born.get(loc)
            old = self.guards.get(loc)
            ok = m == 'append' and len(recv.locs) == 1 and b is not None \
                and st.pc[:len(b)] == b and (old is None or old[0] is node)
            self.guards[loc] = (node, st.pc[len(b):] if ok else None)

    def entry_pc(self, st, it):
        """Conditions under which an entry of a list exists."""
        out = ()
        for loc in it.locs:
            o = st.heap.get(loc)
            if o is not None and o.kind == 'wrap' and o.data[0] in (
                    'enumerate', 'zip', 'pass', 'reversed', 'sorted'):
                for x in o.data[1]:
                    if isinstance(x, Val):
                        out += self.entry_pc(st, x)
                continue
            g = self.guards.get(loc)
            if g is None:
                continue
            if g[1] is None or len(it.locs) > 1:
                out += (PC(mk('unk', 'entries'), True, E, 'if', g[0]),)
            else:
                out += g[1]
        return out

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st)

    def e_DictComp(self, e, st):
        how, vals, tags, info = self._comp(e, st, [e.key, e.value], 'dict')
        if how == 'unrolled':
            fields, elem = {}, None
            for k, v in vals:
                kk = self.key_of(st, k)
                if kk is None:
                    elem = v if elem is None else self.join_vals(elem, v)
                else:
                    fields[kk] = v
            return self.alloc(st, e, 'dict', fields=fields, elem=elem,
                              typ='dict', open=elem is not None).tag(tags)
        return self.alloc(st, e, 'dict', elem=vals[1].tag(tags), open=True,
                          typ='dict').tag(tags)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONEV
        fr = self.frames[-1]
        self.rec(st, 'yield', fr.func.qual, e, None, [v])
        fr.yields.append((v, st.pctags()))
        self.note_yield(st, e)
        return NONEV

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        fr = self.frames[-1]
        el, tg = self.iter_elem(st, v, e.value, e)
        self.rec(st, 'yield', fr.func.qual, e, None, [el])
        fr.yields.append((el, st.pctags() | tg))
        self.note_yield(st, e)
        return NONEV

    def note_yield(self, st, e):
        """Conditions under which a generator yields."""
        if self.guards is not None:
            self.frames[-1].ypc[e] = st.pc

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    # ---------------------------------------------------------------- calls
    def cls_of(self, st, v):
        for loc in v.locs:
            o = st.heap.get(loc)
            if o is not None and o.cls:
                c = self.p.by_qual.get(self.p.canonical(o.cls))
                if isinstance(c, Cls):
                    return c
        if v.typ:
            c = self.p.by_qual.get(self.p.canonical(v.typ))
            if isinstance(c, Cls):
                return c
        return None

    def e_Call(self, e, st):
        self.steps += 1
        args, kwargs = [], {}
        recv = None
        # super().__init__(...) & co
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self.super_call(e, st)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            if recv.t.op == 'ref':
                callee = self.get_attr(st, recv, f.attr, f)
                name = callee.t.args[0] if callee.t.op == 'ref' else None
                if callee.t.op == 'ref' and not isinstance(
                        self.p.lookup(recv.t.args[0]), Cls):
                    recv = None
                elif callee.t.op == 'ref':
                    recv = None
                if name is None:
                    name = '.' + f.attr
            else:
                callee = None
                name = '.' + f.attr
        else:
            callee = self.ev(f, st)
            name = callee.t.args[0] if callee.t.op == 'ref' else None
        spread = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.known_items(st, v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(Val(mk('star', v.t), v.tags, v.locs))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                spread.append(v)
            else:
                kwargs[k.arg] = v
        return self.call(st, name, recv, callee, args, kwargs, spread, e)

    def super_call(self, e, st):
        fr = self.frames[-1]
        meth = e.func.attr
        func = fr.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, st)
                for a in e.args]
        kwargs = {k.arg: self.ev(k.value, st) for k in e.keywords
                  if k.arg}
        selfv = st.env.get(func.params[0]) if func.params else None
        if func.cls is not None:
            for c in self.p.mro(func.cls)[1:]:
                if meth in c.methods:
                    return self.call_func(c.methods[meth], [selfv] + args,
                                          kwargs, st, e)
        self.rec(st, 'call', 'super.' + meth, e, selfv, args, kwargs)
        if selfv is not None and meth in ('__setitem__', '__setattr__') and \
                len(args) == 2:
            self.set_field(st, selfv, self.key_of(st, args[0]), args[1], e,
                           'supersetitem', None, args[0])
        elif selfv is not None and meth in ('__getitem__',) and args:
            return self.get_item(st, selfv, args[0], e)
        tags = E
        for a in args:
            tags |= a.tags
        return Val(mk('call', mk('ref', 'super.' + meth),
                      *[self.deep(st, a) for a in args]), tags)

    def call(self, st, name, recv, callee, args, kwargs, spread, node):
        if self.on_call:
            r = self.on_call(self, st, name, recv, args, kwargs, node)
            if r is not None:
                return r
        # closures
        cv = callee
        if cv is not None and cv.locs:
            for loc in cv.locs:
                o = st.heap.get(loc)
                if o is not None and o.kind == 'func':
                    f, cenv = o.data
                    return self.call_func(f, args, kwargs, st, node, spread,
                                          cenv)
                if o is not None and o.kind == 'bound':
                    return self.call_func(o.data[0], [o.data[1]] + args,
                                          kwargs, st, node, spread)
        if callee is not None and callee.t.op == 'attr' and recv is None:
            pass
        target = None
        if name and not name.startswith('.'):
            target = self.p.lookup(name)
            if isinstance(target, Func):
                if target.cls is not None and not target.is_static and \
                        target.is_class:
                    args = [Val(mk('ref', target.cls.qual))] + args
                return self.call_func(target, args, kwargs, st, node, spread)
            if isinstance(target, Cls):
                return self.instantiate(target, args, kwargs, st, node,
                                        spread)
        if recv is not None:
            mname = name[1:]
            c = self.cls_of(st, recv)
            if c is not None:
                m = self.p.method(c, mname)
                if m is not None:
                    a = args if m.is_static else [recv] + args
                    return self.call_func(m, a, kwargs, st, node, spread)
                # attribute holding a callable?
                fv = None
                for loc in recv.locs:
                    o = st.heap.get(loc)
                    if o is not None:
                        fv = o.fields.get(mname)
                if fv is not None and fv.t.op == 'ref':
                    return self.call(st, fv.t.args[0], None, fv, args,
                                     kwargs, spread, node)
            elif self.cha:
                m = self.cha_lookup(mname)
                if m is not None:
                    return self.call_func(m, [recv] + args, kwargs, st, node,
                                          spread)
        return self.external(st, name, recv, callee, args, kwargs, spread,
                             node)

    def cha_lookup(self, mname):
        if self._cha_index is None:
            ix = {}
            for m in self.p.modules.values():
                for c in m.classes.values():
                    for n, f in c.methods.items():
                        ix.setdefault(n, []).append(f)
            self._cha_index = ix
        hits = self._cha_index.get(mname, [])
        if len(hits) == 1 and mname not in MUTATORS \
                and mname not in STREAM_MUTATORS and mname not in (
                    'copy', 'save', 'plot', 'stack', 'select', 'slide',
                    'slice', 'get_stations', 'get_waveforms', 'times'):
            return hits[0]
        return None

    def instantiate(self, cls, args, kwargs, st, node, spread):
        obj = self.alloc(st, node, 'inst', cls=cls.qual, open=True,
                         extra=cls.qual)
        init = self.p.method(cls, '__init__')
        if init is not None:
            self.call_func(init, [obj] + args, kwargs, st, node, spread)
        else:
            self.rec(st, 'call', cls.qual, node, None, args, kwargs)
        tags = E
        for a in list(args) + list(kwargs.values()):
            tags |= a.tags
        t = mk('new', cls.qual, *([self.deep(st, a) for a in args] + [
            mk('kw', k, self.deep(st, v)) for k, v in kwargs.items()]))
        self.rec(st, 'new', cls.qual, node, None, args, kwargs, obj)
        return Val(t, tags, obj.locs, cls.qual)

    def bind(self, func, args, kwargs, st, node, spread=()):
        a = func.node.args
        pos = a.posonlyargs + a.args
        env = {}
        rest = []
        star = None
        for i, v in enumerate(args):
            if v.t.op == 'star':
                star = v
                break
            if i < len(pos):
                env[pos[i].arg] = v
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = self.mk_list(st, rest, node, 'va')
        names = {p.arg for p in pos + a.kwonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        defaults = dict(zip([p.arg for p in pos][len(pos) - len(
            a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in pos + a.kwonlyargs:
            if p.arg in env:
                continue
            got = None
            for s in spread:
                x = None
                for loc in s.locs:
                    o = st.heap.get(loc)
                    if o is not None and p.arg in o.fields:
                        x = o.fields[p.arg]
                    elif o is not None and not (
                            o.open or o.kind == 'ext'):
                        continue
                    elif o is not None and o.origin is not None:
                        x = self.get_item(st, s, Val(const(p.arg)), node)
                if x is None and (not s.locs or any(
                        st.heap[q].open or st.heap[q].elem is not None
                        for q in s.locs if q in st.heap)):
                    x = Val(mk('item', s.t, const(p.arg)), s.tags)
                if x is not None:
                    got = x
            if got is not None and p.arg in defaults:
                d = self.default(func, defaults[p.arg], st)
                got = self.join_vals(got, d)
            if got is None and star is not None:
                got = Val(mk('item', star.t, const(p.arg)), star.tags)
            if got is None and p.arg in defaults:
                got = self.default(func, defaults[p.arg], st)
            if got is None:
                got = Val(mk('missing', p.arg))
            env[p.arg] = got
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(
                st, node, 'dict', fields=extra, open=bool(spread),
                extra='kw', typ='dict')
        for p in pos + a.kwonlyargs:
            v = env[p.arg]
            if v.typ is None and p.annotation is not None:
                t = self.ann_type(func.module, p.annotation)
                if t is not None and v.t is not NONE:
                    env[p.arg] = Val(v.t, v.tags, v.locs, t)
                    for loc in v.locs:
                        o = st.heap.get(loc)
                        if o is not None and o.kind == 'ext' and \
                                o.cls is None:
                            o = o.clone()
                            if t == 'ndarray':
                                o.kind = 'nd'
                            o.cls = t
                            if isinstance(self.p.by_qual.get(t), Cls):
                                o.kind = 'inst'
                            st.heap[loc] = o
        return env

    def default(self, func, node, st):
        self.frames.append(Frame(func, self.frames[-1].stack))
        try:
            return self.ev(node, State({}, st.heap, st.pc))
        finally:
            self.frames.pop()

    def call_func(self, func, args, kwargs, st, node, spread=(), cenv=None):
        stack = self.frames[-1].stack
        rec_depth = sum(1 for f in self.frames if f.func.node is func.node)
        opaque = (len(self.frames) >= self.max_depth or rec_depth >= 2
                  or func.qual in self.no_inline
                  or self.steps > self.budget)
        env = self.bind(func, args, kwargs, st, node, spread)
        if opaque and func.qual not in self.no_inline:
            self.depth_cut.append(func.qual)
        ev = self.rec(st, 'call', func.qual, node, None,
                      [env[p] for p in func.params if p in env], {},
                      inlined=not opaque, extra={'env': env, 'func': func,
                                                 'spread': list(spread)})
        if opaque:
            tags = E
            for v in args + list(kwargs.values()):
                tags |= self.deep_tags(st, v)
            v = Val(mk('call', mk('ref', func.qual), *[
                self.deep(st, env[p]) for p in func.params if p in env]),
                tags)
            ev.res = v
            return v
        if func.is_gen:
            v = self.alloc(st, node, 'gen', data=(func, args, kwargs, cenv))
            ev.res = v
            return v
        if cenv is not None:
            e2 = dict(cenv)
            e2.update(env)
            env = e2
        s2 = State(env, st.heap, st.pc, st.must, st.may)
        before = dict(st.heap)
        out, v = self.exec_func(func, s2, stack + (node,))
        if out is not None:
            self.gc(before, out.heap, v)
        if out is None:
            # never returns: continue conservatively (the caller keeps its
            # state, marked unreachable by an impossible condition)
            v = Val(mk('unk', 'noreturn', func.qual))
            st.pc = st.pc + (PC(mk('noreturn', func.qual), True, E, 'raise',
                                node),)
            ev.res = v
            return v
        st.heap = out.heap
        st.must, st.may = out.must, out.may
        st.pc = out.pc
        ev.res = v
        return v

    # externals
    def external(self, st, name, recv, callee, args, kwargs, spread, node):
        m = name[1:] if name and name.startswith('.') else None
        atags = E
        for v in list(args) + list(kwargs.values()) + list(spread):
            atags |= self.deep_tags(st, v)
        if recv is not None:
            atags |= self.deep_tags(st, recv, 1)
        if callee is not None:
            atags |= callee.tags
        ctl = st.pctags()
        nm = name
        if nm is None and callee is not None:
            nm = show(callee.t)
            if callee.t.op == 'attr':
                nm = '.' + callee.t.args[1]
        argts = [self.deep(st, a) for a in args] + [
            mk('kw', k, self.deep(st, v)) for k, v in sorted(kwargs.items())]
        argts += [mk('spread', v.t) for v in spread]
        if recv is not None:
            ft = mk('attr', self.deep(st, recv), m)
        elif callee is not None:
            ft = callee.t
        else:
            ft = mk('ref', nm)
        term = mk('call', ft, *argts)
        ev = self.rec(st, 'call', nm, node, recv, args, kwargs,
                      extra={'spread': list(spread)})
        res = self.model(st, nm, m, recv, args, kwargs, spread, node, term,
                         atags, ctl)
        if m in MUTATORS or m in STREAM_MUTATORS:
            if recv is not None and not recv.locs and isinstance(
                    node, ast.Call) and isinstance(
                    node.func, ast.Attribute) and isinstance(
                    node.func.value, ast.Name) and \
                    node.func.value.id in st.env:
                st.env[node.func.value.id] = recv.tag(atags | ctl)
        if res is None:
            res = Val(term, atags)
        ev.res = res
        return res

    def model(self, st, name, m, recv, args, kwargs, spread, node, term,
              atags, ctl):
        a0 = args[0] if args else None
        if m is None:
            nm = name or ''
            if nm in ('copy.deepcopy', 'copy.copy', 'deepcopy') and a0:
                return self.copy_val(st, a0, node, term,
                                     deep=not nm.endswith('.copy'))
            if nm in STREAM_TYPES:
                v = self.alloc(st, node, 'ext', cls=nm, t=term, typ=nm,
                               open=True)
                o = st.heap[next(iter(v.locs))]
                o.tags = atags
                if a0 is not None and nm.endswith('Stream') and a0.locs:
                    o.elem = self.elem_any(st, a0)
                return v
            if nm == 'next' and a0:
                el, tg = self.iter_elem(st, a0, node, node)
                if len(args) > 1:
                    el = self.join_vals(el, args[1])
                return el.tag(tg | atags)
            if nm in ('list', 'tuple', 'set', 'sorted', 'reversed') or \
                    nm == 'iter':
                if a0 is None:
                    return self.alloc(st, node, 'list' if nm != 'set'
                                      else 'set', typ='list')
                items = self.known_items(st, a0)
                if items is not None and nm in ('list', 'tuple', 'iter'):
                    if nm == 'tuple':
                        return self.mk_tuple(st, items, node)
                    return self.mk_list(st, items, node)
                if items is not None and nm == 'reversed':
                    return self.mk_list(st, items[::-1], node)
                el, tg = self.iter_elem(st, a0, node, node)
                v = self.alloc(st, node, 'list', elem=el, open=True,
                               typ='list')
                o = st.heap[next(iter(v.locs))]
                o.dt = mk('call', mk('ref', nm), self.deep(st, a0), *[
                    mk('kw', k, self.deep(st, x))
                    for k, x in sorted(kwargs.items())])
                return Val(o.dt, atags | tg, v.locs, 'list')
            if nm == 'dict':
                fields, el, opn = {}, None, False
                for x in ([a0] if a0 else []) + list(spread):
                    for loc in x.locs:
                        o = st.heap.get(loc)
                        if o is not None:
                            fields.update(o.fields)
                            el = el or o.elem
                            opn = opn or o.open
                fields.update(kwargs)
                one = a0 is not None and not spread and len(
                    a0.locs) == 1 and st.heap[next(iter(
                        a0.locs))].kind == 'dict'
                nd = self.alloc(st, node, 'dict', fields=fields, elem=el,
                                open=opn or (bool(a0) and not one),
                                typ='dict',
                                t=term if a0 else None).tag(atags)
                self.set_par(st, nd, ([a0] if a0 else []) + list(spread))
                return nd
            if nm in ('zip', 'enumerate'):
                if nm == 'enumerate' and len(args) == 1 and \
                        'start' in kwargs:
                    args = list(args) + [kwargs['start']]
                v = self.alloc(st, node, 'wrap', data=(nm, list(args)),
                               t=term)
                its = [self.known_items(st, a) for a in args[:1]] \
                    if nm == 'enumerate' else [
                        self.known_items(st, a) for a in args]
                if nm == 'enumerate' and len(args) > 1 and \
                        args[1].t.op != 'const':
                    its = []
                if its and all(i is not None for i in its):
                    if nm == 'zip':
                        rows = [self.mk_tuple(st, list(r), node, 'z%d' % i)
                                for i, r in enumerate(zip(*its))]
                    else:
                        k0 = args[1].t.args[0] if len(args) > 1 else 0
                        rows = [self.mk_tuple(st, [Val(const(i + k0)), r],
                                              node, 'z%d' % i)
                                for i, r in enumerate(its[0])]
                    return self.mk_list(st, rows, node, 'rows')
                return v.tag(atags)
            if nm.split('.')[-1] in ('tqdm',) and a0 is not None:
                return a0
            if nm == 'range' and args and all(
                    a.t.op == 'const' and isinstance(a.t.args[0], int)
                    for a in args):
                r = range(*[a.t.args[0] for a in args])
                if len(r) <= 24:
                    return self.mk_list(st, [Val(const(i)) for i in r],
                                        node)
            if nm == 'numpy.nan_to_num' and a0 is not None:
                c = kwargs.get('copy')
                if c is not None and c.t is const(False):
                    self.mutate(st, a0, 'nan_to_num(copy=False)', node)
                    return Val(a0.t, atags, a0.locs, a0.typ)
                return Val(term, atags, E, 'ndarray')
            if nm in VIEW_FUNCS and a0 is not None:
                return Val(term, atags, a0.locs, 'ndarray')
            if nm in INPLACE_FUNCS and len(args) > INPLACE_FUNCS[nm]:
                self.mutate(st, args[INPLACE_FUNCS[nm]], nm, node, args)
            if 'out' in kwargs and kwargs['out'].t is not NONE:
                self.mutate(st, kwargs['out'], 'out=', node, args)
            if nm == 'getattr' and len(args) >= 2 and \
                    args[1].t.op == 'const':
                return self.get_attr(st, a0, args[1].t.args[0], node)
            if nm == 'setattr' and len(args) == 3:
                self.set_field(st, a0, self.key_of(st, args[1]), args[2],
                               node, 'setattr')
                return NONEV
            if nm == 'isinstance' and len(args) == 2:
                return self.isinst(st, a0, args[1], term, atags)
            if nm == 'len' and a0 is not None:
                items = self.known_items(st, a0)
                if items is not None and not a0.tags:
                    return Val(const(len(items)), atags, E, 'int')
                return Val(term, atags, E, 'int')
            if nm in ('str', 'float', 'int', 'bool', 'abs', 'min', 'max',
                      'sum', 'round', 'repr'):
                if a0 is not None and a0.t.op == 'const' and nm in (
                        'str', 'float', 'int', 'bool') and len(args) == 1:
                    try:
                        return Val(const(getattr(builtins, nm)(
                            a0.t.args[0])), atags, E, nm)
                    except Exception:
                        pass
                return Val(term, atags, E, nm if nm in (
                    'str', 'float', 'int', 'bool') else None)
            if nm in ('any', 'all') and a0 is not None:
                tr = self.truth(term)
                if tr is not None:
                    return Val(const(tr), atags)
            if nm.startswith('numpy.'):
                if nm in ('numpy.zeros', 'numpy.empty', 'numpy.ones',
                          'numpy.full', 'numpy.zeros_like',
                          'numpy.empty_like', 'numpy.ones_like',
                          'numpy.array', 'numpy.copy', 'numpy.tile',
                          'numpy.concatenate', 'numpy.arange',
                          'numpy.linspace', 'numpy.full_like',
                          'numpy.delete', 'numpy.vstack', 'numpy.hstack'):
                    v = self.alloc(st, node, 'nd', t=term, typ='ndarray')
                    st.heap[next(iter(v.locs))].tags = atags
                    if nm == 'numpy.array' and a0 is not None and \
                            'copy' in kwargs:
                        return Val(term, atags, a0.locs | v.locs, 'ndarray')
                    return v.tag(atags)
                return Val(term, atags, E, 'ndarray')
            return None
        # methods
        kinds = self.kinds(st, recv)
        if m in ('copy', '__copy__') and not args:
            return self.copy_val(st, recv, node, term,
                                 deep=recv.typ in STREAM_TYPES
                                 or self.cls_of(st, recv) is not None)
        if m == '__getattribute__' and a0 is not None and \
                a0.t.op == 'const':
            return self.get_attr(st, recv, a0.t.args[0], node)
        if m in VIEW_METHODS:
            return Val(term, atags, recv.locs, recv.typ)
        if m in ('items', 'keys', 'values') and not args:
            ks = None
            if len(recv.locs) == 1:
                o = st.heap.get(next(iter(recv.locs)))
                if o is not None and o.kind == 'dict' and o.elem is None \
                        and not o.open:
                    ks = o
            if ks is not None and len(ks.fields) <= 24:
                rows = []
                for i, (k, v) in enumerate(ks.fields.items()):
                    kv = Val(const(k[1] if isinstance(k, tuple) else k))
                    if m == 'items':
                        rows.append(self.mk_tuple(st, [kv, v], node,
                                                  'it%d' % i))
                    else:
                        rows.append(kv if m == 'keys' else v)
                return self.mk_list(st, rows, node, 'its')
            return self.alloc(st, node, 'wrap', data=(m, [recv]),
                              t=term).tag(atags)
        if m == 'get' and args and recv.locs:
            k = self.key_of(st, a0)
            d = args[1] if len(args) > 1 else NONEV
            if k is not None and len(recv.locs) == 1:
                o = st.heap[next(iter(recv.locs))]
                if k in o.fields and o.kind == 'dict':
                    return o.fields[k].tag(atags)
                if o.kind == 'dict' and not o.open and o.elem is None:
                    return d
            v = self.get_item(st, recv, a0, node)
            j = self.join_vals(v, d)
            locs = j.locs
            if not v.locs and all(
                    st.heap[x].kind in ('list', 'dict', 'tuple', 'set')
                    and not st.heap[x].fields and not st.heap[x].open
                    and st.heap[x].elem is None for x in d.locs
                    if x in st.heap):
                # the empty default says nothing about the value
                locs = E
            return Val(term, j.tags | atags, locs, j.typ)
        if m == 'setdefault' and args and recv.locs:
            self.mutate(st, recv, '.setdefault', node, args)
            k = self.key_of(st, a0)
            d = args[1] if len(args) > 1 else NONEV
            for loc in recv.locs:
                o = st.heap[loc].clone()
                if k is not None:
                    o.fields[k] = self.join_vals(o.fields[k], d) \
                        if k in o.fields else d
                else:
                    o.elem = d if o.elem is None else self.join_vals(
                        o.elem, d)
                st.heap[loc] = o
            v = self.get_item(st, recv, a0, node)
            return Val(v.t, v.tags, v.locs | d.locs, v.typ)
        if m in MUTATORS and (recv.locs or m not in ('sort',)):
            if m == 'update' and kinds & {'dict', 'inst', 'ext'}:
                self.mutate(st, recv, '.update', node, args)
                for loc in recv.locs:
                    o = st.heap[loc].clone()
                    for x in ([a0] if a0 else []) + list(spread):
                        for l2 in x.locs:
                            o2 = st.heap.get(l2)
                            if o2 is None:
                                continue
                            for kk, vv in o2.fields.items():
                                o.fields[kk] = vv.tag(ctl)
                                self.rec(st, 'setitem', kk if not isinstance(
                                    kk, tuple) else kk[1], node, recv, [vv],
                                    extra={'via': 'update'})
                            if o2.open or o2.elem is not None:
                                o.open = True
                        if not x.locs:
                            o.open = True
                    for kk, vv in kwargs.items():
                        o.fields[kk] = vv.tag(ctl)
                        self.rec(st, 'setitem', kk, node, recv, [vv],
                                 extra={'via': 'update'})
                    st.heap[loc] = o
                return NONEV
            self.mutate(st, recv, '.' + m, node, args, sig=tuple(
                [self.deep(st, a) for a in args] + [
                    mk('kw', k, self.deep(st, v))
                    for k, v in sorted(kwargs.items())])
                if m == 'sort' else None)
            if m in ('append', 'add', 'insert') and args:
                v = args[-1]
                if self.guards is not None:
                    self.entered(st, recv, node, m)
                for loc in recv.locs:
                    o = st.heap[loc].clone()
                    o.dt = None
                    if m == 'append' and o.kind == 'list' and o.elem is \
                            None and not o.open and len(recv.locs) == 1 \
                            and not self.in_widening():
                        o.fields[('i', len(o.fields))] = v.tag(ctl)
                    else:
                        vv = v.tag(ctl)
                        o.elem = vv if o.elem is None else self.join_vals(
                            o.elem, vv)
                        if o.kind == 'list':
                            o.open = True
                    st.heap[loc] = o
                return NONEV
            if m == 'extend' and args:
                if 'list' in kinds:
                    self.list_extend(st, recv, a0, node)
                else:
                    e, tg = self.iter_elem(st, a0, node, node)
                    for loc in recv.locs:
                        o = st.heap[loc].clone()
                        o.elem = e if o.elem is None else self.join_vals(
                            o.elem, e)
                        st.heap[loc] = o
                return NONEV
            if m in ('sort', 'reverse', 'clear', 'pop', 'remove'):
                for loc in recv.locs:
                    o = st.heap[loc]
                    if o.kind == 'list' and m in ('remove', 'pop') and \
                            len(recv.locs) == 1:
                        ex = self.drop_item(st, loc, o, m, args)
                        if ex is not None:
                            return ex
                    if o.kind == 'list':
                        src = self.deep(st, Val(recv.t, E,
                                                frozenset([loc])))
                        n = o.clone()
                        if m == 'clear':
                            n.fields, n.elem, n.dt = {}, None, None
                            n.open = False
                        else:
                            el = o.elem
                            for x in o.fields.values():
                                el = x if el is None else self.join_vals(
                                    el, x)
                            n.fields, n.elem, n.open = {}, el, True
                            n.dt = mk('call', mk('ref', {
                                'sort': 'sorted'}.get(m, m)), src, *[
                                mk('kw', k, self.deep(st, x))
                                for k, x in sorted(kwargs.items())])
                        st.heap[loc] = n
                    elif o.kind == 'dict' and m == 'pop' and args:
                        k = self.key_of(st, a0)
                        if k is not None:
                            n = o.clone()
                            v = n.fields.pop(k, None)
                            st.heap[loc] = n
                            if v is not None:
                                return v
                    elif m == 'pop' and args:
                        k = self.key_of(st, a0)
                        if k is not None and k in o.fields:
                            n = o.clone()
                            v = n.fields.pop(k)
                            st.heap[loc] = n
                            return v
            if m in ('pop',):
                e = self.elem_of(st, recv, node) if recv.locs else Val(term)
                return Val(term, atags, e.locs, e.typ)
            return Val(term, atags)
        if m in STREAM_MUTATORS and (
                recv.typ in STREAM_TYPES or 'ext' in kinds
                or self.is_streamish(recv)):
            self.mutate(st, recv, '.' + m, node, args)
            return Val(recv.t, atags, recv.locs, recv.typ)
        if m in ('select', 'slice', 'sort', 'slide') and \
                self.is_streamish(recv):
            e = self.elem_of(st, recv, node)
            v = self.alloc(st, node, 'inst', cls=recv.typ, elem=e, t=term,
                           typ=recv.typ, open=True, extra='sel')
            return v.tag(atags)
        if recv.t.op == 'const' and isinstance(recv.t.args[0], str) and \
                m in ('lower', 'upper', 'strip', 'split', 'startswith',
                      'endswith', 'replace') and all(
                          a.t.op == 'const' for a in args):
            try:
                r = getattr(recv.t.args[0], m)(*[a.t.args[0] for a in args])
                if isinstance(r, list):
                    return self.mk_list(st, [Val(const(x)) for x in r], node)
                return Val(const(r), atags)
            except Exception:
                pass
        if m in FRESH_METHODS:
            v = self.alloc(st, node, 'nd' if recv.typ == 'ndarray' else
                           'ext', t=term, typ=recv.typ)
            return v.tag(atags)
        return None

    def is_streamish(self, v):
        if v.typ in STREAM_TYPES:
            return True
        c = self.p.by_qual.get(v.typ) if v.typ else None
        if isinstance(c, Cls):
            return any(b in STREAM_TYPES for b in self.p.external_bases(c))
        return False

    def isinst(self, st, v, k, term, tags):
        names = []
        kt = self.deep(st, k)
        for x in (kt.args if kt.op == 'tuple' else (kt,)):
            names.append(x.args[0] if x.op == 'ref' else None)
        t = v.t
        if t.op == 'const' and None not in names:
            tn = type(t.args[0]).__name__
            if all(n in BUILTINS for n in names):
                ok = any(isinstance(t.args[0], getattr(builtins, n))
                         for n in names)
                return Val(const(ok), tags)
            if t.args[0] is None or tn in ('str', 'int', 'float', 'bool'):
                if not any(n in BUILTINS for n in names):
                    return Val(const(False), tags)
        ks = self.kinds(st, v)
        if ks and len(ks) == 1 and None not in names and t.op != 'phi':
            kd = next(iter(ks))
            if kd in ('list', 'dict', 'tuple', 'set'):
                if kd in names:
                    return Val(const(True), tags)
                return Val(const(False), tags)
        return Val(term, tags, E, 'bool')

    def set_par(self, st, new, srcs):
        for x in srcs:
            if len(x.locs) == 1:
                sl = next(iter(x.locs))
                if sl in st.heap and (st.heap[sl].origin is not None
                                      or st.heap[sl].par is not None):
                    for loc in new.locs:
                        st.heap[loc].par = sl
                        if st.heap[loc].kind == 'dict':
                            st.heap[loc].kind = 'ext'

    def copy_val(self, st, v, node, term, deep, depth=4, path=''):
        if not v.locs:
            return Val(term if term is not None else v.t, v.tags, E, v.typ)
        if len(v.locs) > 1:
            o = None
            for loc in v.locs:
                p = st.heap.get(loc)
                if o is None:
                    o = p
            if o is None:
                return Val(term or v.t, v.tags, E, v.typ)
            src = Obj('ext', o.cls, open=True)
            for loc in v.locs:
                p = st.heap.get(loc)
                if p is not None:
                    src.tags |= p.tags
                    src.kind = p.kind
                    src.fields.update(p.fields)
                    src.elem = src.elem or p.elem
        else:
            src = st.heap.get(next(iter(v.locs)))
            if src is None:
                return Val(term or v.t, v.tags, E, v.typ)
        loc = self.site(node, ('copy', path))
        self.loops_at[loc] = tuple(
            x[2] for f in self.frames for x in f.loops)
        n = src.clone()
        n.origin = None
        if src.kind in ('ext', 'inst', 'nd') and src.origin is not None:
            if not deep and src.kind != 'nd' and len(v.locs) == 1:
                n.par = next(iter(v.locs))
        if deep and depth > 0:
            for k, x in list(src.fields.items()):
                n.fields[k] = self.copy_val(
                    st, x, node, x.t, True, depth - 1,
                    path + '/' + str(k))
            if src.elem is not None:
                n.elem = self.copy_val(st, src.elem, node, src.elem.t, True,
                                       depth - 1, path + '/[]')
        st.heap[loc] = n
        if n.kind in ('list', 'tuple', 'dict', 'set') and n.dt is None:
            t = mk('obj', n.kind, hash(loc))
        else:
            t = term if term is not None else v.t
        return Val(t, v.tags, frozenset([loc]), v.typ)


class _ModFunc:
    def __init__(self, module):
        self.module = module
        self.qual = module.name
        self.name = '<module>'
        self.outer = None
        self.cls = None
        self.node = module.tree
        self.params = []


FIELD_TYPES = {
    'CorrBulk': {'data': 'ndarray',
                 'stats': 'seismic.correlate.stats.CorrStats'},
    'CorrTrace': {'data': 'ndarray',
                  'stats': 'seismic.correlate.stats.CorrStats'},
    'CorrStats': {'npts': 'int', 'sampling_rate': 'float', 'delta': 'float',
                  'start_lag': 'float', 'end_lag': 'float',
                  'network': 'str', 'station': 'str'},
    'DV': {'value': 'ndarray', 'corr': 'ndarray', 'sim_mat': 'ndarray',
           'second_axis': 'ndarray'},
}


def doc_arrays(func):
    """Parameters that the docstring declares as arrays."""
    doc = ast.get_docstring(func.node) or ''
    return {m.group(1) for m in re.finditer(
        r':type\s+(\w+)\s*:[^\n]*(?:ndarray|np\.array)', doc)}


REDUCERS = {'argmax', 'argmin', 'nanargmax', 'nanargmin', 'max', 'min',
            'nanmax', 'nanmin', 'mean', 'nanmean', 'sum', 'nansum', 'median',
            'nanmedian', 'std', 'nanstd', 'any', 'all', 'count_nonzero',
            'searchsorted', 'round', 'floor', 'ceil', 'abs', 'absolute',
            'asarray', 'squeeze', 'interp', 'prod', 'dot', 'clip', 'ptp'}


def fancy_key(key):
    """Is the index certainly an array (advanced indexing)?"""
    t = key.t
    if t.op == 'call' and t.args[0].op == 'ref' and str(
            t.args[0].args[0]).startswith('numpy.'):
        n = t.args[0].args[0].rsplit('.', 1)[-1]
        if n in ('where', 'nonzero', 'isnan', 'isfinite', 'arange',
                 'argsort', 'logical_and', 'logical_or', 'logical_not',
                 'isinf', 'array', 'flatnonzero', 'argwhere'):
            return True
        if n in REDUCERS:
            return any(a.op == 'kw' and a.args[0] == 'axis'
                       and a.args[1] is not NONE for a in t.args[1:]
                       if isinstance(a, T))
    if t.op == 'cmp' or t.op == 'un' and t.args[0] in ('Invert', '~'):
        return True
    return False


def _sorted_for(have, want):
    """Does an order sorted with arguments `have` satisfy `want`?"""
    if have is None or want is None:
        return False
    if have == want:
        return True
    if len(have) != 1 or len(want) != 1:
        return False
    a, b = [x[0].args[1] if x[0].op == 'kw' else x[0] for x in (have, want)]
    return a.op == b.op and a.op in ('listof', 'list') and \
        len(b.args) <= len(a.args) and a.args[:len(b.args)] == b.args


def _load(t):
    n = ast.copy_location(
        {ast.Name: lambda: ast.Name(id=t.id, ctx=ast.Load()),
         ast.Attribute: lambda: ast.Attribute(
             value=t.value, attr=t.attr, ctx=ast.Load()),
         ast.Subscript: lambda: ast.Subscript(
             value=t.value, slice=t.slice, ctx=ast.Load())}[type(t)](), t)
    return n


def subsumed(b, c):
    """Is everything b may be already included in c?"""
    if b.t is c.t and b.locs == c.locs:
        return True
    return set(alts(b.t)) <= set(alts(c.t)) and b.locs <= c.locs


def _exc(name):
    return getattr(builtins, name, None) if name else None


def catches(types, name):
    for t in types:
        if t is None or t in ('Exception', 'BaseException') or name is None:
            return True
        if t == name:
            return True
        a, b = _exc(name), _exc(t)
        if a is not None and b is not None:
            if isinstance(a, type) and isinstance(b, type) and \
                    issubclass(a, b):
                return True
        elif a is None:
            # user-defined exception: may derive from anything but builtins
            continue
    return False


def catches_surely(types, name):
    for t in types:
        if t is None or t == 'BaseException':
            return True
        if t == 'Exception':
            return True
        if name is not None and t == name:
            return True
        a, b = _exc(name), _exc(t)
        if isinstance(a, type) and isinstance(b, type) and issubclass(a, b):
            return True
    return False
