"""Helpers shared by the rules."""
import ast
from .interp import Interp, State, Val, Obj, E, PC
from .terms import mk, const, walk, show, alts, NONE
from .project import AnalysisBroken


def short(q):
    return (q or '').replace('seismic.', '', 1)


def site(ev):
    """Stable name of an event's location: function + callee/name."""
    return '%s -> %s' % (short(ev.func.qual), ev.name)


def reraises(handler):
    """Does every path of the handler end by raising?"""
    def ends(body):
        if not body:
            return False
        s = body[-1]
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If):
            return bool(s.orelse) and ends(s.body) and ends(s.orelse)
        if isinstance(s, ast.With):
            return ends(s.body)
        return False
    return ends(handler.body)


def make_self(interp, cls, st, init=True):
    """Run the constructor of cls symbolically; returns (state, self)."""
    selfv = interp.param(st, 'self', cls.qual, None)
    f = interp.p.method(cls, '__init__')
    if init and f is not None and f.module.name.startswith('seismic'):
        st, _ = interp.run(f, None, selfv, st)
        st.pc = ()
        st.must = E
    return st, selfv
