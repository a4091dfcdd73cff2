"""Abstract cases of pairs of traces, shared by C04 and C25.

Extracted conditions over the codes of two traces are evaluated for every
pair of a small set of traces that covers equal and different networks,
stations, channels and components.
"""
from sa.terms import walk
from sa.interp import Interp, State, Val
from sa.terms import const
from sa import model as MD

IDS = ('network', 'station', 'channel', 'location')
TRACES = [('A', 'S1', 'HHE', ''), ('A', 'S1', 'HHZ', ''),
          ('A', 'S2', 'HHZ', ''), ('B', 'S1', 'HHZ', '')]
SORTED = sorted(TRACES)
EXTRA = ('A', 'S1', 'BHZ', '')


class Tr(tuple):
    """One trace: (codes, start time)."""


class Path(tuple):
    pass


def canonical(a, b):
    """[nets], [stats], [chas] of the canonical order."""
    x, y = sorted([a[:3], b[:3]])
    return ([x[0], y[0]], [x[1], y[1]], [x[2], y[2]])


def attr_of(tr, name):
    codes, start = tr
    if name in IDS:
        return codes[IDS.index(name)]
    if name == 'id':
        return '%s.%s.%s.%s' % (codes[0], codes[1], codes[3], codes[2])
    if name == 'starttime':
        return start
    return None


def text_leaf(t, leaf):
    """Strings, tuples and lists on top of model.ev."""
    op = t.op
    if op == 'const' and isinstance(t.args[0], str):
        return t.args[0]
    if op in ('tuple', 'list'):
        vs = [MD.ev(x, leaf) for x in t.args]
        return tuple(vs) if op == 'tuple' else vs
    if op == 'attr' and isinstance(t.args[0], object):
        b = base(t.args[0], leaf)
        if isinstance(b, Tr):
            if t.args[1] == 'stats':
                return b
            return attr_of(b, t.args[1])
    if op == 'item' and t.args[0].op in ('listof', 'comp') and \
            t.args[1].op == 'const' and isinstance(t.args[1].args[0], int):
        # entry k of (f(x) for x in xs)
        k = t.args[1].args[0]

        def leaf2(u):
            if u.op == 'elem':
                v = MD.ev(u.args[0], leaf)
                if isinstance(v, (list, tuple)) and k < len(v):
                    return v[k]
                raise MD.Undecided(u)
            r = text_leaf(u, leaf2) if u.op == 'fstr' else None
            return leaf(u) if r is None else r
        return MD.ev(t.args[0].args[0], leaf2)
    if op == 'item':
        b = base(t.args[0], leaf)
        if isinstance(b, Path):
            return Path(b + (MD.ev(t.args[1], leaf),))
        k = t.args[1]
        if isinstance(b, Tr) and k.op == 'const':
            return attr_of(b, k.args[0])
        if isinstance(b, (str, tuple, list)) and not isinstance(b, Tr):
            i = MD.ev(k, leaf)
            if isinstance(i, int):
                try:
                    return b[i]
                except IndexError:
                    raise MD.Undecided(t)
    if op == 'slice' or op == 'item' and t.args[1].op == 'slice':
        pass
    if op == 'fstr':
        out = ''
        for x in t.args:
            v = MD.ev(x, leaf)
            if isinstance(v, (list, tuple, set, frozenset)):
                raise MD.Undecided(t)
            out += v if isinstance(v, str) else str(v)
        return out
    if op == 'bin' and t.args[0] == 'Mod':
        a = MD.ev(t.args[1], leaf)
        if isinstance(a, str):
            try:
                return a % MD.ev(t.args[2], leaf)
            except TypeError:
                raise MD.Undecided(t)
    if op == 'bin' and t.args[0] == 'Add':
        a, b = MD.ev(t.args[1], leaf), MD.ev(t.args[2], leaf)
        if type(a) is type(b) and isinstance(a, (str, list, tuple)):
            return a + b
    if op == 'cmp' and t.args[0] in ('In', 'NotIn'):
        b = MD.ev(t.args[2], leaf)
        if isinstance(b, (list, tuple, str)) and not isinstance(
                b, (Path, Tr)):
            return (MD.ev(t.args[1], leaf) in b) == (t.args[0] == 'In')
    if op == 'call':
        n = MD.cname(t)
        h = t.args[0]
        pos = [a for a in t.args[1:] if a.op != 'kw']
        if h.op == 'attr' and n in ('upper', 'lower', 'strip') and not pos:
            v = MD.ev(h.args[0], leaf)
            if isinstance(v, str):
                return getattr(v, n)()
        if h.op == 'attr' and n == 'endswith' and len(pos) == 1:
            v = MD.ev(h.args[0], leaf)
            if isinstance(v, str):
                return v.endswith(MD.ev(pos[0], leaf))
        if h.op == 'attr' and n == 'get' and pos:
            b = base(h.args[0], leaf)
            if isinstance(b, Path):
                return Path(b + (MD.ev(pos[0], leaf),))
            if isinstance(b, Tr) and pos[0].op == 'const':
                return attr_of(b, pos[0].args[0])
        if h.op == 'attr' and n == 'join' and len(pos) == 1:
            s, v = MD.ev(h.args[0], leaf), MD.ev(pos[0], leaf)
            if isinstance(s, str) and isinstance(v, (list, tuple)):
                return s.join(map(str, v))
        if h.op == 'attr' and n == 'format':
            s = MD.ev(h.args[0], leaf)
            if isinstance(s, str):
                kw = {a.args[0]: MD.ev(a.args[1], leaf)
                      for a in t.args[1:] if a.op == 'kw'}
                try:
                    return s.format(*[MD.ev(x, leaf) for x in pos], **kw)
                except (KeyError, IndexError):
                    raise MD.Undecided(t)
        if n in ('list', 'tuple', 'sorted', 'set', 'str') and \
                len(pos) == 1 and h.op == 'ref':
            v = MD.ev(pos[0], leaf)
            if n == 'str':
                return v if isinstance(v, str) else str(v)
            if isinstance(v, (list, tuple, set)):
                return {'list': list, 'tuple': tuple, 'sorted': sorted,
                        'set': frozenset}[n](v)
        if n in ('max', 'min') and len(pos) == 1:
            v = MD.ev(pos[0], leaf)
            if isinstance(v, (list, tuple)):
                return (max if n == 'max' else min)(v)
        if n == 'len' and len(pos) == 1:
            v = MD.ev(pos[0], leaf)
            if isinstance(v, (list, tuple, str, set, frozenset)):
                return len(v)
    return None


def base(t, leaf):
    try:
        return MD.ev(t, leaf)
    except MD.Undecided:
        return None


def holds(pc, leaf, skip=('exc',)):
    """Whether a path can be taken (conditions not known are open)."""
    for c in pc:
        if c.kind in ('for', 'iter', 'loop') or c.t.op in ('iter',):
            continue
        if c.kind == 'exc' or c.t.op == 'exc':
            continue
        try:
            if bool(MD.ev(c.t, leaf)) != c.pol:
                return False
        except MD.Undecided:
            continue
    return True


def decided(pc, leaf):
    """True/False, or None if a condition cannot be decided."""
    und = False
    for c in pc:
        if c.kind in ('for', 'iter', 'loop') or c.t.op in ('iter',):
            continue
        if c.kind == 'exc' or c.t.op == 'exc':
            if c.pol:
                return False
            continue
        try:
            if bool(MD.ev(c.t, leaf)) != c.pol:
                return False
        except MD.Undecided:
            und = True
    return None if und else True


def index_syms(ts):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == 'index' and len(x.args) > 1 and x not in out:
                out.append(x)
    return out


def elem_syms(ts):
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == 'elem' and len(x.args) > 1 and x not in out:
                out.append(x)
    return out
