"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = ('symbolic execution of the real Python/Cython/C sources, claims '
        'decided by z3, counterexamples replayed on the real build')
P = []
NA = []


def prop(pid, module, title, statement, over, quant, why, files, mech,
         note, technique=TECH):
    P.append(dict(
        module=module, note=note, technique=technique,
        rec=dict(id=pid, title=title, statement=statement,
                 quantifier=dict(over=over, text=quant),
                 why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech]))))


def na(pid, reason, *args):
    P.append(dict(module=None, rec=dict(
        id=pid, title=args[0], statement=args[1],
        quantifier=dict(over=args[2], text=args[3]), why_tests_cant=args[4],
        anchors=dict(files=args[5], mechanism=[
            dict(name=n, where=w) for n, w in args[6]]))))
    NA.append(dict(property=pid, reason=reason))


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    ns = dict(prop=prop, na=na)
    with open(os.path.join(here, 'proplist.py')) as f:
        exec(compile(f.read(), 'proplist.py', 'exec'), ns)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            r = p['rec']
            assert len(r['title']) <= 80, r['title']
            f.write(json.dumps(r) + '\n')
    checks = []
    for p in P:
        if p['module'] is None:
            continue
        checks.append(dict(
            property=p['rec']['id'],
            quick_cmd='%s checks/run.py %s quick' % (PY, p['module']),
            thorough_cmd='%s checks/run.py %s thorough' % (PY, p['module']),
            technique=p['technique'], level='model_checking',
            level_note=p['note']))
    m = dict(version=1, setup_cmd='%s checks/setup.py' % PY, checks=checks,
             not_applicable=NA)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
