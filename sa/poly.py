"""Polynomial normal form of arithmetic terms (Laurent polynomials)."""
from fractions import Fraction
from .terms import T, mk, const, show

CALLS = {'float', 'numpy.float64', 'numpy.float32', 'int64'}


def add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        c = out.get(m, 0) + k * c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            e = tuple(sorted((x, k) for x, k in e.items() if k))
            s = out.get(e, 0) + c * d
            if s:
                out[e] = s
            else:
                out.pop(e, None)
    return out


_atoms = {}


def atom(t):
    _atoms[t.id] = t
    return {((t.id, 1),): Fraction(1)}


def poly(t, leaf=None):
    """Normal form; leaf(term) -> term or None renames leaves first."""
    if leaf is not None:
        r = leaf(t)
        if isinstance(r, dict):
            return r
        if r is not None and r != t:
            return poly(r, leaf)
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return atom(t)
        return {(): Fraction(v).limit_denominator(10**9)} if v else {}
    if t.op == 'bin':
        op = t.args[0]
        a, b = t.args[1], t.args[2]
        if op in ('Add', 'Sub'):
            return add(poly(a, leaf), poly(b, leaf), 1 if op == 'Add'
                       else -1)
        if op == 'Mult':
            return mul(poly(a, leaf), poly(b, leaf))
        if op == 'Div':
            pb = poly(b, leaf)
            return mul(poly(a, leaf), inv(pb))
        if op == 'Pow' and b.op == 'const' and isinstance(
                b.args[0], int) and 0 <= b.args[0] < 6:
            out = {(): Fraction(1)}
            pa = poly(a, leaf)
            for _ in range(b.args[0]):
                out = mul(out, pa)
            return out
        if op == 'Pow' and b == const(-1):
            return inv(poly(a, leaf))
    if t.op == 'un' and t.args[0] == 'neg':
        return mul({(): Fraction(-1)}, poly(t.args[1], leaf))
    if t.op == 'un' and t.args[0] == 'pos':
        return poly(t.args[1], leaf)
    if t.op == 'call' and t.args[0].op == 'ref' and str(
            t.args[0].args[0]) in CALLS and len(t.args) == 2:
        return poly(t.args[1], leaf)
    return atom(norm(t, leaf))


def norm(t, leaf=None):
    """Normalise the arguments of an opaque term."""
    args = tuple(canon(a, leaf) if isinstance(a, T) else a for a in t.args)
    return t if args == t.args else mk(t.op, *args)


def canon(t, leaf=None):
    """A term that is equal for equal normal forms."""
    p = poly(t, leaf)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    if not p:
        return const(0)
    if list(p) == [()] and p[()].denominator == 1:
        return const(int(p[()]))
    return mk('poly', tuple(sorted(p.items())))


def inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((x, -k) for x, k in m): 1 / c}
    if not p:
        return atom(mk('zerodiv'))
    t = mk('inv', tuple(sorted(p.items())))
    return atom(t)


def same(a, b, leaf=None):
    return poly(a, leaf) == poly(b, leaf)


def text(p):
    out = []
    for m, c in sorted(p.items()):
        out.append(' * '.join([str(c)] + [
            '%s%s' % (show(_atoms[x])[:40], '' if k == 1 else '^%d' % k)
            for x, k in m]))
    return ' + '.join(out) or '0'
