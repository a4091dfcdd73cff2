"""Obligations, violations, evidence and the exit protocol of one check."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, project, tier='quick'):
        self.pid = pid
        self.p = project
        self.tier = tier
        self.obs = []          # (rule, construct, ok, msg)
        self.viol = {}         # key -> record
        self.funcs = set()
        self.notes = []
        self.rules = {}
        self.steps = 0
        self.expect = []
        self.gaps = False

    def rule(self, rid, text):
        self.rules[rid] = text

    def saw(self, interp):
        self.funcs |= interp.funcs_seen
        self.steps += interp.steps

    def ob(self, rule, construct, ok, msg='', where=''):
        """One obligation.  construct identifies the code location by name
        (never by line); where is the current file:line for the reader."""
        self.obs.append((rule, construct, bool(ok)))
        if not ok:
            key = '%s | %s' % (rule, construct)
            self.viol.setdefault(key, {
                'property': self.pid, 'rule': rule, 'construct': construct,
                'message': msg, 'where': where})
        return ok

    def undecided(self, text):
        """A rule gave up; nothing is claimed for what it did not see."""
        self.notes.append('undecided: ' + text)
        self.gaps = True
        print('UNDECIDED %s' % text)

    def count(self, rule):
        return len({c for r, c, _ in self.obs if r == rule})

    def atleast(self, rule, n):
        """The rule must have found at least n instances."""
        self.expect.append((rule, n))


def load_known():
    path = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, _, rest = line[6:].partition(' :: ')
                key, _, what = rest.partition(' :: ')
                out[(head.split('=')[1].strip(), key.strip())] = what
    return out


def finish(ctx, t0):
    from .project import AnalysisBroken
    known = load_known()
    fresh = [k for k in ctx.viol if (ctx.pid, k) not in known]
    if not ctx.obs:
        raise AnalysisBroken('no rule found anything to decide')
    short = [(rule, n) for rule, n in ctx.expect if ctx.count(rule) < n]
    if short and not fresh and not ctx.gaps:
        rule, n = short[0]
        text = 'rule %s found %d instances, at least %d expected' % (
            rule, ctx.count(rule), n)
        if len(short) == len(ctx.expect) or os.environ.get('SA_STRICT'):
            raise AnalysisBroken(text)
        # the other rules stand; this one decided less than on the tree it
        # was written for
        ctx.undecided(text)
    ev = os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    new, listed = [], []
    for key, v in sorted(ctx.viol.items()):
        (listed if (ctx.pid, key) in known else new).append((key, v))
    replay = os.path.join(ev, '%s.replay.json' % ctx.pid)
    if new:
        with open(replay, 'w') as f:
            json.dump({'property': ctx.pid,
                       'how': 'python3 /verif/check.py %s' % ctx.pid,
                       'violations': [v for _, v in new]}, f, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    uniq = {}
    for r, c, ok in ctx.obs:
        uniq[(r, c)] = uniq.get((r, c), True) and ok
    per = {}
    for (r, c), ok in uniq.items():
        d = per.setdefault(r, {'instances': 0, 'held': 0})
        d['instances'] += 1
        d['held'] += ok
    cov = {
        'explanation': 'Static analysis of the syntax trees of the current '
        '/repo/src/seismic; nothing of the analysed code is executed. '
        'Per rule: instances found in the source and instances that hold.',
        'rules': [{'rule': r, 'text': ctx.rules.get(r, ''), **per[r]}
                  for r in sorted(per)],
        'obligations': len(uniq),
        'discharged': sum(uniq.values()),
        'functions_analysed': len(ctx.funcs),
        'functions': sorted(x.replace('seismic.', '', 1)
                            for x in ctx.funcs)[:400],
        'interpretation_steps': ctx.steps,
        'instances': sorted('%s: %s' % k for k in uniq)[:600],
        'modules': len(ctx.p.modules),
        'source_digest': ctx.p.digest,
    }
    if ctx.notes:
        cov['notes'] = ctx.notes
    rec = {
        'property': ctx.pid, 'tier': ctx.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': cov,
        'wall_s': round(time.time() - t0, 3),
        'violations': [dict(v, key=k) for k, v in new],
    }
    with open(os.path.join(ev, '%s.json' % ctx.pid), 'w') as f:
        json.dump(rec, f, indent=1)
    for key, v in listed:
        print('KNOWN-FINDING: property=%s %s (%s)' % (
            ctx.pid, key, v['where']))
    print('%s: %d rules, %d obligations, %d hold; %d functions, %.1fs' % (
        ctx.pid, len(per), len(uniq), sum(uniq.values()), len(ctx.funcs),
        time.time() - t0))
    for key, v in new:
        print('  %s\n    at %s\n    %s' % (key, v['where'], v['message']))
    if new:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, replay))
        return 1
    return 0
