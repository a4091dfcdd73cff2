#!/usr/bin/env python3
"""DESIGN.md from design_head.md, properties, manifest, evidence, seeded."""
import json
import os
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def wrap(s):
    return textwrap.fill(' '.join(s.split()), 78, break_long_words=False,
                         break_on_hyphens=False)


def main():
    out = [open(ROOT + '/tools/design_head.md').read().rstrip(), '',
           '## Properties', '']
    man = {c['property']: c for c in json.load(open(
        ROOT + '/MANIFEST.json'))['checks']}
    caught = json.load(open(ROOT + '/tools/caught.json'))
    seeded = {}
    for n in sorted(os.listdir(ROOT + '/seeded')):
        seeded[n] = json.load(open('%s/seeded/%s/meta.json' % (ROOT, n)))
    fixed = {}
    for ln in open(ROOT + '/known_findings.txt'):
        if 'property=' in ln:
            k = ln.split('property=')[1].split()[0]
            fixed.setdefault(k, []).append(
                'recorded' if ln.startswith('KNOWN') else ln.split(
                    'property=')[1].split()[1])
    for ln in open(ROOT + '/properties.jsonl'):
        d = json.loads(ln)
        c = man.get(d['id'])
        out += ['### %s %s' % (d['id'], d['title']), '']
        if c is None:
            out += ['Not applicable, see MANIFEST.json.', '']
            continue
        out += [wrap('Method: ' + c['technique'] + '.'), '',
                wrap('Bounds and trust: ' + c['level_note']), '',
                wrap('Why the tests cannot settle it: '
                     + d['why_tests_cant']), '', 'Rules (the oracle):', '']
        ev = json.load(open('%s/evidence/%s.json' % (ROOT, d['id'])))
        for r in ev['coverage']['rules']:
            out.append(textwrap.fill(
                '%s: %s' % (r['rule'], ' '.join(r['text'].split())), 78,
                initial_indent='* ', subsequent_indent='  ',
                break_long_words=False, break_on_hyphens=False))
        out.append('')
        if d['id'] in fixed:
            out += [wrap('Defects found: ' + ', '.join(fixed[d['id']])
                         + ' (known_findings.txt).'), '']
        mine = [n for n, m in seeded.items() if m['property'] == d['id']]
        if mine:
            out += [wrap('Planted bugs: ' + ', '.join(
                '%s (%s)' % (n, caught.get(n, 'not run')) for n in mine)
                + '.'), '']
    out += ['## Planted bugs', '',
            'Each was written from the text of the property, confirmed in a '
            'scratch copy', '(demonstration, build, tests, flake8) and is '
            'kept whether or not it is caught.', '']
    for n, m in seeded.items():
        out.append(textwrap.fill('%s, %s, %s: %s. Needs %s.' % (
            n, m['property'], caught.get(n, 'not run'),
            m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')), 78,
            initial_indent='* ', subsequent_indent='  ',
            break_long_words=False, break_on_hyphens=False))
    tail = ROOT + '/tools/design_tail.md'
    if os.path.exists(tail):
        out += ['', open(tail).read().rstrip()]
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
