"""Value of an extracted formula in an abstract model (order domain).

A model maps the roles of a formula (start of a window, end of a window, an
instant) to positions on a line; the formula is judged in every relative
position of the roles, including coincidences.
"""
import itertools
import math
from fractions import Fraction
from .terms import T, GATES

CMP = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
       'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
       'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b,
       'Is': lambda a, b: a is b, 'IsNot': lambda a, b: a is not b}
PASS = ('array', 'asarray', 'squeeze', 'atleast_1d', 'nonzero', 'where',
        'flatnonzero', 'list', 'tuple', 'bool', 'float', 'ravel',
        'asanyarray', 'UTCDateTime', 'astype', 'argwhere', 'flatten',
        'copy', 'compress')


class Undecided(Exception):
    pass


def cname(t):
    h = t.args[0]
    if not isinstance(h, T):
        return ''
    return str(h.args[0]).split('.')[-1] if h.op == 'ref' else str(
        h.args[1]) if h.op == 'attr' else ''


def ev(t, leaf):
    v = leaf(t)
    if v is not None:
        return v
    op = t.op
    if op == 'const':
        if isinstance(t.args[0], (bool, int, float)):
            return t.args[0]
        raise Undecided(t)
    if op == 'cmp':
        if t.args[0] not in CMP:
            raise Undecided(t)
        return CMP[t.args[0]](ev(t.args[1], leaf), ev(t.args[2], leaf))
    if op == 'bool':
        # three-valued: a part that cannot be decided may not matter
        und = None
        for a in t.args[1:]:
            try:
                v = ev(a, leaf)
            except Undecided as e:
                und = e
                continue
            if bool(v) != (t.args[0] == 'and'):
                return v
        if und is not None:
            raise und
        return v if t.args[0] == 'and' else False
    if op == 'un':
        v = ev(t.args[1], leaf)
        if t.args[0] in ('inv', 'not'):
            return not v
        if t.args[0] in ('neg', 'USub'):
            return -v
        raise Undecided(t)
    if op == 'inv' or op == 'not':
        return not ev(t.args[-1], leaf)
    if op == 'neg':
        return -ev(t.args[-1], leaf)
    if op == 'bin':
        a, b = ev(t.args[1], leaf), ev(t.args[2], leaf)
        o = t.args[0]
        bb = isinstance(a, bool) and isinstance(b, bool)
        if o in ('Mult', 'BitAnd'):
            return (a and b) if bb else a * b
        if o in ('BitOr',) and bb or o == 'Add' and bb:
            return a or b
        if o == 'BitXor' and bb:
            return a != b
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Div':
            if b == 0:
                raise Undecided(t)
            return Fraction(a) / Fraction(b)
        if o == 'FloorDiv':
            if b == 0:
                raise Undecided(t)
            return a // b
        raise Undecided(t)
    if op == 'call':
        n = cname(t)
        pos = [a for a in t.args[1:] if a.op != 'kw']
        h = t.args[0]
        method = h.op == 'attr' and isinstance(h.args[0], T)
        if n in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or'):
            a, b = ev(pos[0], leaf), ev(pos[1], leaf)
            return (a and b) if n.endswith('and') else (a or b)
        if n in ('logical_not', 'invert', 'bitwise_not'):
            return not ev(pos[0], leaf)
        if n in ('all', 'any', 'reduce'):
            x = pos[0] if pos else h.args[0]
            if x.op in ('list', 'tuple'):
                vs = [ev(a, leaf) for a in x.args]
                if n == 'reduce':
                    raise Undecided(t)
                return all(vs) if n == 'all' else any(vs)
            if x.op in ('comp', 'gen') or x.op == 'genexp':
                return comp(x, leaf, n == 'all')
            return ev(x, leaf)
        if n in ('floor', 'ceil', 'trunc', 'int', 'round', 'rint',
                 'around') and (pos or method):
            v = ev(pos[0] if pos else h.args[0], leaf)
            return {'floor': math.floor, 'ceil': math.ceil,
                    'trunc': math.trunc, 'int': math.trunc}.get(
                        n, round)(v)
        if n in ('max', 'min', 'maximum', 'minimum') and len(pos) == 2:
            a, b = ev(pos[0], leaf), ev(pos[1], leaf)
            return max(a, b) if n.startswith('max') else min(a, b)
        if n == 'clip' and len(pos) == 3:
            a, b, c = (ev(x, leaf) for x in pos)
            return min(max(a, b), c)
        if n == 'abs':
            return abs(ev(pos[0], leaf))
        if n in PASS and len(pos) == 1 and not method:
            return ev(pos[0], leaf)
        if n in PASS and method:
            return ev(h.args[0], leaf)
        raise Undecided(t)
    if op == 'item' and t.args[1].op == 'const' and t.args[1].args[0] == 0 \
            and t.args[0].op == 'call' and cname(t.args[0]) in (
                'nonzero', 'where'):
        return ev(t.args[0], leaf)
    if op in ('listof', 'elem') and isinstance(t.args[0], T):
        return ev(t.args[0], leaf)
    if op == 'ifexp':
        return ev(t.args[1] if ev(t.args[0], leaf) else t.args[2], leaf)
    if op == 'phi' and GATES.get(t.id):
        return gated(t, GATES[t.id], leaf)
    if op == 'phi':
        vs = []
        for a in t.args:
            vs.append(ev(a, leaf))
        if all(v == vs[0] for v in vs):
            return vs[0]
        raise Undecided(t)
    raise Undecided(t)


def gated(t, branches, leaf):
    """Value of the branches that may be taken."""
    vs = []
    for conds, x in branches:
        maybe = True
        for c, pol in conds:
            try:
                if bool(ev(c, leaf)) != pol:
                    maybe = False
                    break
            except Undecided:
                pass
        if maybe:
            vs.append(ev(x, leaf))
    if vs and all(v == vs[0] for v in vs):
        return vs[0]
    raise Undecided(t)


def comp(x, leaf, conj):
    """any/all over a comprehension with one element per source."""
    for c in x.args[2].args:
        if not ev(c, leaf):
            return conj
    return bool(ev(x.args[0], leaf))


def models(roles, less=(), leq=(), span=None):
    """All weak orderings of the roles with the given constraints."""
    n = len(roles)
    seen = set()
    for vals in itertools.product(range(span or n), repeat=n):
        m = dict(zip(roles, vals))
        if any(not m[a] < m[b] for a, b in less):
            continue
        if any(not m[a] <= m[b] for a, b in leq):
            continue
        rank = {v: k for k, v in enumerate(sorted(set(vals)))}
        key = tuple(rank[v] for v in vals)
        if key in seen:
            continue
        seen.add(key)
        yield dict(zip(roles, key))
