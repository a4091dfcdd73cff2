#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property statically."""
import argparse
import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.project import Project, AnalysisBroken  # noqa: E402
from sa.report import Ctx, finish  # noqa: E402


def guard(mod, ctx0):
    """A rule that cannot cope with the code it meets decides nothing: it
    is recorded as undecided, and the other rules still run."""
    if os.environ.get('SA_STRICT'):
        return
    import functools
    import types

    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            try:
                return f(*a, **k)
            except Exception as e:      # noqa: BLE001
                ctx0.undecided('%s.%s: %s %s' % (
                    f.__module__, f.__name__, type(e).__name__,
                    str(e)[:120]))
                return None
        return g
    for n, f in list(vars(mod).items()):
        if isinstance(f, types.FunctionType) and \
                f.__module__ == mod.__name__ and \
                f.__code__.co_varnames[:1] == ('ctx',):
            setattr(mod, n, wrap(f))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    try:
        ctx = Ctx(a.pid, Project(), a.tier)
        mod = importlib.import_module('rules.' + a.pid.lower())
        guard(mod, ctx)
        mod.run(ctx)
        if not ctx.obs:
            raise AnalysisBroken('no rule could be decided')
        return finish(ctx, t0)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.pid, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
