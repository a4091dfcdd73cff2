#!/usr/bin/env python3
"""Mutation bench: run checks on edited copies of the sources.

Reads tools/mutants/*.py; each defines M = [(id, property, expect, file, old,
new), ...] with expect 'bad' (the check must exit 1) or 'ok' (it must exit 0).
Usage: mt.py [ID-or-property ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import importlib.util
import glob

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'mutants', '*.py'))):
        sp = importlib.util.spec_from_file_location('m', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.M
    return out


def one(m):
    mid, prop, expect, *edits = m
    d = tempfile.mkdtemp(prefix='mt')
    try:
        shutil.copytree(os.environ.get('SA_REPO', '/repo') + '/src',
                        d + '/src')
        for i in range(0, len(edits), 3):
            f, old, new = edits[i:i + 3]
            p = d + '/src/seismic/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return (mid, prop, 'STALE', 'old text not found in ' + f)
            s = s.replace(old, new, 1)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        os.makedirs(d + '/ev')
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, '..', 'check.py'), prop],
            env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + '/ev',
                     SA_STRICT='1'),
            capture_output=True, text=True)
        want = 1 if expect == 'bad' else 0
        res = 'good' if r.returncode == want else 'MISS' \
            if expect == 'bad' else 'FALSE-ALARM'
        return (mid, prop, res, '' if res == 'good' else
                (r.stdout[-4000:] + r.stderr[-4000:]))
    finally:
        shutil.rmtree(d)


def main():
    sel = set(sys.argv[1:])
    ms = [m for m in load() if not sel or m[0] in sel or m[1] in sel]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for mid, prop, res, out in ex.map(one, ms):
            if res != 'good':
                bad += 1
                print(mid, prop, res)
                print('   ' + out.replace('\n', '\n   ')[:2500])
    print('%d mutants, %d not as expected' % (len(ms), bad))


if __name__ == "__main__":
    main()
