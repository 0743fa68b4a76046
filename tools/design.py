#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design_src.md, the property list, the known
findings and the planted bugs."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(mod):
    t = ast.parse(open(os.path.join(ROOT, 'checks', mod + '.py')).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                and getattr(n.targets[0], 'id', '') in (
                    'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS', 'HOW'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    import sys
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    import designhow
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    props = {}
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        props[p['id']] = p
    chk = []
    claimed = set()
    for c in man['checks']:
        pid = c.get('property') or c.get('property_id') or c.get('id')
        claimed.add(pid)
        p = props[pid]
        mod = [w for w in str(c).replace("'", ' ').split()
               if w.startswith('c_')][0]
        k = consts(mod)
        chk.append('### %s %s (`checks/%s.py`)\n\n%s\n' % (
            pid, p['title'], mod, p['statement']))
        chk.append('*How:* %s\n' % designhow.HOW[pid])
        chk.append('*Bounds:* %s.\n' % k.get('BOUNDS', ''))
        if k.get('ASSUMPTIONS'):
            chk.append('*Assumptions:* %s.\n' % '; '.join(k['ASSUMPTIONS']))
        chk.append('*Outside:* %s.\n' % k.get('OUTSIDE', ''))
    na = []
    for n in man.get('not_applicable', []):
        pid = n.get('property') or n.get('property_id') or n.get('id')
        na.append('* **%s** %s: %s' % (pid, props[pid]['title'] if pid in
                                       props else '', n['reason']))
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    fi = []
    for e in kf:
        if e['status'] == 'fixed':
            fi.append('* %s, fixed in %s: %s' % (
                e['property'], (e.get('commit') or '')[:9],
                e['what'].split(' ', 3)[3]))
    fi.append('\nKnown, not repaired:\n')
    for e in kf:
        if e['status'] == 'known':
            fi.append('* %s, case `%s`: %s' % (e['property'], e['case'],
                                               e['what']))
    se = []
    sd = os.path.join(ROOT, 'seeded')
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        se.append('* `%s` (%s): %s. Needs %s. %s' % (
            b, m['property'], m['what_it_breaks'], m['needs'],
            designhow.MISSED.get(b, 'Caught.')))
    src = open(os.path.join(ROOT, 'tools', 'design_src.md')).read()
    for k, v in (('CHECKS', chk), ('NA', na), ('FINDINGS', fi),
                 ('SEEDED', se)):
        src = src.replace('{{%s}}' % k, '\n'.join(v))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(src)


if __name__ == '__main__':
    main()
