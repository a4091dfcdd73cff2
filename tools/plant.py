#!/usr/bin/env python3
"""Confirm planted changes in scratch copies and store them in seeded/.

Usage: plant.py SPEC.py [ID ...]     (or plant.py --recheck [ID ...])
SPEC.py defines P = {id: dict(property=, needs=, breaks=, edits=[(file, old,
new), ...], demo='python text')}.  For each: scratch copy, demo passes,
edits applied, demo fails, tests and flake8 pass, then the check is run.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True,
                          text=True, timeout=timeout)


def one(item):
    name, s = item
    out = os.path.join(ROOT, 'seeded', name)
    d = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        env = dict(os.environ, PYTHONPATH=repo + '/src', HOME='/root',
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                   PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
        tmp = os.path.join(d, 'seed')
        os.makedirs(tmp)
        if s is None:
            for f in os.listdir(out):
                shutil.copy(os.path.join(out, f), tmp)
            prop = json.load(open(tmp + '/meta.json'))['property']
        else:
            prop = s['property']
            with open(tmp + '/demo.py', 'w') as f:
                f.write(s['demo'].lstrip('\n'))
            with open(tmp + '/demo.sh', 'w') as f:
                f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 '
                        'MPLBACKEND=Agg\n' + PY +
                        ' "$(dirname "$0")/demo.py"\n')
            os.chmod(tmp + '/demo.sh', 0o755)
            with open(tmp + '/meta.json', 'w') as f:
                json.dump({'property': prop, 'needs': s['needs'],
                           'what_it_breaks': s['breaks']}, f, indent=1)
        r = sh(['bash', tmp + '/demo.sh'], repo, env, 300)
        if r.returncode:
            return name, 'demo fails unpatched', r.stdout[-600:] + \
                r.stderr[-900:]
        if s is None:
            r = sh(['git', 'apply', tmp + '/patch.diff'], repo)
            if r.returncode:
                return name, 'patch does not apply', r.stderr
        else:
            for f, old, new in s['edits']:
                q = repo + '/src/seismic/' + f
                t = open(q).read()
                if t.count(old) != 1:
                    return name, 'old text %d times in %s' % (
                        t.count(old), f), ''
                open(q, 'w').write(t.replace(old, new))
            r = sh(['git', 'diff'], repo)
            open(tmp + '/patch.diff', 'w').write(r.stdout)
        r = sh(['bash', tmp + '/demo.sh'], repo, env, 300)
        if not r.returncode:
            return name, 'demo passes patched', ''
        demo = (r.stdout + r.stderr).strip().split('\n')[-1][:150]
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                '--timeout=300', 'tests', 'formatting_test'], repo, env)
        if r.returncode:
            return name, 'tests fail', r.stdout[-900:]
        os.makedirs(d + '/ev')
        r = sh(['python3', ROOT + '/check.py', prop], ROOT, dict(
            os.environ, SA_REPO=repo, SA_EVIDENCE=d + '/ev'))
        res = {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, 'no answer')
        if s is not None:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        tail = [x for x in r.stdout.split('\n') if ' | ' in x][:2]
        return name, res, '%s || %s %s' % (
            demo, '; '.join(tail), r.stderr[-300:])
    finally:
        shutil.rmtree(d)


def note(name, res):
    if res not in ('missed', 'CAUGHT', 'no answer'):
        return
    f = ROOT + '/tools/caught.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[name] = {'CAUGHT': 'caught'}.get(res, res)
    with open(f, 'w') as h:
        json.dump(d, h, indent=1, sort_keys=True)


def main():
    a = sys.argv[1:]
    if a[0] == '--recheck':
        sel = a[1:] or sorted(os.listdir(ROOT + '/seeded'))
        items = [(n, None) for n in sel]
    else:
        sp = importlib.util.spec_from_file_location('m', a[0])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        items = [(k, v) for k, v in m.P.items()
                 if not a[1:] or k in a[1:]]
    with ThreadPoolExecutor(7) as ex:
        for name, res, txt in ex.map(one, items):
            note(name, res)
            print('%-10s %s  %s' % (name, res, txt))


main()
