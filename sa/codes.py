"""A domain of code strings: network, station and channel codes of two sides.

A code is an opaque non-empty word of letters and digits; strings built from
codes are kept as flat concatenations, so that joining, formatting and
splitting them are exact.  The order of the two sides is an oracle: every
comparison of keys is recorded and answered by it.
"""
import string
from .interp import Val, E
from .terms import T, mk, const, walk, NONE


SHARED = []     # kinds that are the same on both sides


def code(kind, side):
    return mk('code', kind, '=' if kind in SHARED else side)


def has_code(t):
    return any(x.op == 'code' for x in walk(t))


def sides(t):
    return {x.args[1] for x in walk(t) if x.op == 'code'} - {'='}


def parts(t):
    """Parts of a string term."""
    if t.op == 'cat':
        return list(t.args)
    if t.op == 'const':
        return [t] if t.args[0] != '' else []
    return [t]


def cat(ps):
    out = []
    for p in ps:
        for x in parts(p):
            if x.op == 'const' and not isinstance(x.args[0], str):
                x = const(str(x.args[0]))
            if out and x.op == 'const' and out[-1].op == 'const':
                out[-1] = const(out[-1].args[0] + x.args[0])
            else:
                out.append(x)
    if not out:
        return const('')
    return out[0] if len(out) == 1 else mk('cat', *out)


def split(t, sep, n=-1):
    """Exact split of a concatenation of codes and constants."""
    out, cur = [], []
    for x in parts(t):
        if x.op == 'const':
            bits = x.args[0].split(sep)
            for i, b in enumerate(bits):
                if i and n != 0:
                    out.append(cat(cur))
                    cur = []
                    n -= 1
                elif i:
                    cur.append(const(sep))
                cur.append(const(b))
        elif x.op == 'code':
            cur.append(x)
        else:
            return None
    out.append(cat(cur))
    return out


def closed(t):
    return all(x.op in ('code', 'cat', 'const', 'list', 'tuple')
               for x in walk(t))


def tokens(t):
    """Key as a sequence of codes and separators (None: tuple boundary)."""
    if t.op in ('tuple', 'list'):
        out = []
        for a in t.args:
            out += tokens(a) + [None]
        return out
    out = []
    for x in parts(t):
        if x.op == 'code':
            out.append(x.args[0])
        elif x.op == 'const':
            out.append(('sep', x.args[0]))
        else:
            out.append(('other', x.op))
    return out


def canonical(t, channels=True):
    """Does the key order as (network, station, channel) whole codes?"""
    want = ['n', 's', 'c'] if channels else ['n', 's']
    toks = [x for x in tokens(t)]
    k = 0
    fresh = True
    for x in toks:
        if k == len(want):
            # what follows only breaks ties
            return True
        if x is None:
            fresh = True
        elif isinstance(x, tuple) and x[0] == 'sep':
            if x[1] and x[1][0] >= '0':
                return False
            fresh = fresh or bool(x[1])
        elif x == want[k] and fresh:
            k += 1
            fresh = False
        else:
            return False
    return k == len(want)


class Codes:
    """Hooks for one interpretation with side `first` ordered first."""

    def __init__(self, first, headers=None):
        self.first = first
        self.decided = []     # (key of side 0, key of side 1, func, node)
        self.undecided = []
        self.headers = headers or {}

    def hooks(self):
        return {'on_call': self.on_call, 'on_cmp': self.on_cmp,
                'on_bin': self.on_bin, 'on_fstr': self.on_fstr}

    # ---- strings
    def on_bin(self, i, st, op, a, b, node):
        ta, tb = i.deep(st, a), i.deep(st, b)
        strs = ('code', 'cat')
        if op == 'Add' and (ta.op in strs or tb.op in strs):
            return Val(cat([ta, tb]), a.tags | b.tags, E, 'str')
        if op == 'Mod' and ta.op == 'const' and isinstance(
                ta.args[0], str) and has_code(tb):
            args = i.known_items(st, b) if tb.op in (
                'tuple', 'obj') or b.locs else None
            args = [i.deep(st, x) for x in args] if args is not None else (
                list(tb.args) if tb.op == 'tuple' else [tb])
            bits = ta.args[0].split('%s')
            if len(bits) == len(args) + 1 and '%' not in ''.join(bits):
                ps = [const(bits[0])]
                for x, b2 in zip(args, bits[1:]):
                    ps += [x, const(b2)]
                return Val(cat(ps), a.tags | b.tags, E, 'str')
        return None

    def on_fstr(self, i, st, ps, tags, node):
        if any(has_code(p) for p in ps):
            return Val(cat(ps), tags, E, 'str')
        return None

    def fmt(self, text, args, kwargs):
        ps, n = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(text):
                ps.append(const(lit))
                if name is None:
                    continue
                if spec or conv:
                    return None
                if name == '':
                    ps.append(args[n])
                    n += 1
                elif name.isdigit():
                    ps.append(args[int(name)])
                else:
                    ps.append(kwargs[name])
        except (KeyError, IndexError, ValueError):
            return None
        return cat(ps)

    # ---- order
    def decide(self, i, ka, kb, node):
        """True if key ka comes before kb."""
        if ka == kb:
            return True
        sa, sb = sides(ka), sides(kb)
        if len(sa) != 1 or len(sb) != 1 or sa == sb:
            self.undecided.append((ka, kb, i.frames[-1].func, node))
            return None
        a, b = (ka, kb) if sa == {0} else (kb, ka)
        self.decided.append((a, b, i.frames[-1].func, node))
        return sa == {self.first}

    def order(self, i, st, items, kw, node):
        """The two items in ascending order, or None."""
        if len(items) != 2:
            return None
        keys = [i.deep(st, x) for x in items]
        if 'key' in kw:
            keys = []
            for x in items:
                k = i.call(st, None, None, kw['key'], [x], {}, (), node)
                keys.append(i.deep(st, k))
        if not any(has_code(k) for k in keys):
            return None
        d = self.decide(i, keys[0], keys[1], node)
        if d is None:
            return None
        if 'reverse' in kw:
            r = kw['reverse'].t
            if r.op != 'const':
                return None
            d = d != bool(r.args[0])
        return list(items) if d else [items[1], items[0]]

    def on_cmp(self, i, st, out):
        t = out.t
        if t.op == 'bool':
            return None
        if t.op != 'cmp':
            return None
        op, a, b = t.args
        if a.op == b.op == 'param' and op in ('Is', 'IsNot'):
            return Val(const((a == b) == (op == 'Is')), out.tags, E, 'bool')
        if not (has_code(a) or has_code(b)):
            return None
        r = None
        if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            if a == b and any(x.op in ('phi', 'var') for x in walk(a)):
                return None
            if a == b:
                r = True
            elif closed(a) and closed(b):
                r = False
            if r is not None and op in ('NotEq', 'IsNot'):
                r = not r
        elif op in ('Lt', 'LtE', 'Gt', 'GtE') and a == b:
            r = op in ('LtE', 'GtE')
        elif op in ('Lt', 'LtE', 'Gt', 'GtE'):
            d = self.decide(i, a, b, t)
            if d is not None:
                r = d == (op in ('Lt', 'LtE'))
        elif op in ('In', 'NotIn'):
            if a.op == 'const' and isinstance(a.args[0], str) and \
                    b.op in ('cat', 'code') and not any(
                        c.isalnum() for c in a.args[0]):
                ps = parts(b)
                if any(x.op == 'const' and a.args[0] in x.args[0]
                       for x in ps):
                    r = op == 'In'
                elif closed(b):
                    r = op != 'In'
            elif closed(a) and b.op in ('list', 'tuple') and closed(b):
                r = (a in b.args) == (op == 'In')
        if r is None:
            if op in ('Eq', 'NotEq') and has_code(a) and has_code(b) \
                    and len(sides(a) | sides(b)) > 1:
                self.undecided.append((a, b, i.frames[-1].func, t))
            return None
        return Val(const(r), out.tags, E, 'bool')

    # ---- calls
    def on_call(self, i, st, name, recv, args, kwargs, node):
        if not name:
            return None
        m = name[1:] if name.startswith('.') else None
        a0 = args[0] if args else None
        if m is not None and recv is not None:
            rt = i.deep(st, recv)
            if m == 'join' and a0 is not None and rt.op == 'const':
                items = i.known_items(st, a0)
                if items is not None:
                    ts = [i.deep(st, x) for x in items]
                    if any(has_code(x) for x in ts):
                        ps = []
                        for n, x in enumerate(ts):
                            ps += ([rt] if n else []) + [x]
                        return Val(cat(ps), recv.tags, E, 'str')
            if m == 'format' and rt.op == 'const' and isinstance(
                    rt.args[0], str):
                ks = {k: i.deep(st, x) for k, x in kwargs.items()}
                ts = [i.deep(st, x) for x in args]
                if any(has_code(x) for x in list(ks.values()) + ts):
                    r = self.fmt(rt.args[0], ts, ks)
                    if r is not None:
                        return Val(r, E, E, 'str')
            if m in ('split', 'partition') and rt.op in ('cat', 'code') \
                    and a0 is not None and a0.t.op == 'const':
                n = args[1].t.args[0] if len(args) > 1 and \
                    args[1].t.op == 'const' else -1
                r = split(rt, a0.t.args[0], 1 if m == 'partition' else n)
                if r is not None:
                    if m == 'partition':
                        r = [r[0], a0.t, r[1]] if len(r) > 1 else [
                            r[0], const(''), const('')]
                    return i.mk_list(st, [Val(x, recv.tags, E, 'str')
                                          for x in r], node)
            if m in ('sort', 'reverse') and len(recv.locs) == 1:
                items = i.known_items(st, recv)
                if items is not None and len(items) == 2:
                    new = items[::-1] if m == 'reverse' else self.order(
                        i, st, items, kwargs, node)
                    if new is not None:
                        loc = next(iter(recv.locs))
                        o = st.heap[loc].clone()
                        o.fields = {('i', n): x for n, x in enumerate(new)}
                        st.heap[loc] = o
                        return Val(NONE)
            if m == 'index' and a0 is not None:
                items = i.known_items(st, recv)
                if items is not None:
                    ts = [i.deep(st, x) for x in items]
                    at = i.deep(st, a0)
                    if has_code(at) and at in ts:
                        return Val(const(ts.index(at)))
            return None
        if name == 'sorted' and a0 is not None:
            items = i.known_items(st, a0)
            if items is not None:
                new = self.order(i, st, items, kwargs, node)
                if new is not None:
                    return i.mk_list(st, new, node)
        if name in ('min', 'max') and a0 is not None:
            items = args if len(args) > 1 else i.known_items(st, a0)
            if items is not None:
                new = self.order(i, st, items, kwargs, node)
                if new is not None:
                    return new[0 if name == 'min' else 1]
        if name == 'zip' and args:
            its = [i.known_items(st, x) for x in args]
            if all(x is not None for x in its):
                return i.mk_list(st, [
                    i.mk_tuple(st, list(x), node, 'z%d' % n)
                    for n, x in enumerate(zip(*its))], node)
        if name == 'enumerate' and a0 is not None:
            it = i.known_items(st, a0)
            if it is not None:
                return i.mk_list(st, [
                    i.mk_tuple(st, [Val(const(n)), x], node, 'e%d' % n)
                    for n, x in enumerate(it)], node)
        if name == 'range' and args and all(
                x.t.op == 'const' and isinstance(x.t.args[0], int)
                for x in args):
            r = range(*[x.t.args[0] for x in args])
            if len(r) < 10:
                return i.mk_list(st, [Val(const(x)) for x in r], node)
        if name == 'len' and a0 is not None:
            it = i.known_items(st, a0)
            if it is not None:
                return Val(const(len(it)))
        if name == 'isinstance' and a0 is not None and a0.t.op in (
                'code', 'cat'):
            return Val(const(True), E, E, 'bool')
        if name in ('all', 'any') and a0 is not None:
            it = i.known_items(st, a0)
            if it is not None and all(x.t.op == 'const' for x in it):
                f = all if name == 'all' else any
                return Val(const(f(x.t.args[0] for x in it)))
        if name == 'str' and a0 is not None and a0.t.op in ('code', 'cat'):
            return a0
        if name == 'os.path.join':
            ts = [i.deep(st, x) for x in args]
            if any(has_code(x) for x in ts):
                ps = []
                for n, x in enumerate(ts):
                    ps += ([const('/')] if n else []) + [x]
                return Val(cat(ps), E, E, 'str')
        return None
