"""Hash-consed value-numbering terms."""

_table = {}


class T:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op,) + tuple(
        ('t', a.id) if isinstance(a, T) else (type(a).__name__, a)
        for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        _table[key] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk('unk', repr(v)[:40])
    return mk('const', v)


def is_const(t):
    return t.op == 'const'


NONE = const(None)


# phi term id -> ((conditions), value) per branch; False if it is not known
# (or not the same everywhere) which branch yields which value
GATES = {}


def gate(t, branches):
    if t.op == 'phi':
        if GATES.setdefault(t.id, branches) != branches:
            GATES[t.id] = False


def phi(*ts, limit=10, branches=False):
    flat = []
    for t in ts:
        for a in (t.args if t.op == 'phi' else (t,)):
            if a not in flat:
                flat.append(a)
    if len(flat) == 1:
        return flat[0]
    if len(flat) > limit:
        flat = flat[:limit] + [mk('more')]
    flat.sort(key=lambda x: x.id)
    r = mk('phi', *flat)
    if branches is not None:
        gate(r, branches)
    return r


def alts(t):
    return list(t.args) if t.op == 'phi' else [t]


def walk(t, seen=None):
    """All distinct sub-terms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(a for a in x.args if isinstance(a, T))


def subst(t, fn, memo=None):
    """Bottom-up rewriting; fn(term) -> term or None."""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    args = tuple(subst(a, fn, memo) if isinstance(a, T) else a
                 for a in t.args)
    n = t if args == t.args else mk(t.op, *args)
    r = fn(n)
    n = n if r is None else r
    memo[t.id] = n
    return n


_bin = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//',
        'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^',
        'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}
_cmp = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
        'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in',
        'NotIn': 'not in'}


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)  # noqa: E731
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'var', 'ref'):
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), _bin.get(a[0], a[0]), s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), _cmp.get(a[0], a[0]), s(a[2]))
    if o == 'un':
        return '%s(%s)' % (a[0], s(a[1]))
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join(s(x) for x in a[1:]))
    if o == 'kw':
        return '%s=%s' % (a[0], s(a[1]))
    if o == 'phi':
        return '{%s}' % ' | '.join(s(x) for x in a)
    if o == 'slice':
        return '%s:%s:%s' % tuple('' if x is NONE else s(x) for x in a)
    return '%s<%s>' % (o, ', '.join(s(x) for x in a))
