#!/usr/bin/env python3
"""Development tool: create and validate planted bugs.

bug.py new SPEC.py [IDS...]  - SPEC defines BUGS, a list of dicts with keys
    id, prop, edits [(file, old, new)], needs, breaks, demo (python source)
bug.py check IDS...          - validate existing ones again
bug.py detect IDS...         - only run the property check on them
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
BASE = '/tmp/w/rc'

DEMO = '''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export HOME="$W" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
R=$(pwd)
cd "$W" && PYTHONPATH="$R" /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def make(b):
    d = os.path.join(SEED, b['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BASE)
    try:
        diff = ''
        for k, fn in enumerate(sorted(set(e[0] for e in b['edits']))):
            src = open('/repo/' + fn).read()
            new = src
            for f, o, n in b['edits']:
                if f == fn:
                    assert new.count(o) == 1, (b['id'], f, new.count(o), o)
                    new = new.replace(o, n)
            for pre, txt in (('a', src), ('b', new)):
                p = os.path.join(tmp, pre, fn)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(txt)
            diff += sh('git diff --no-index --no-prefix a/%s b/%s' % (fn, fn),
                       cwd=tmp).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip())
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump(dict(property=b['prop'], needs=b['needs'],
                       what_it_breaks=b['breaks']), f, indent=1)
        f.write('\n')
    ap = sh('git -C /repo apply --check %s/patch.diff' % d)
    assert ap.returncode == 0, ap.stderr


SCRIPT = r'''
mount --bind {copy} /repo || exit 99
cd /repo
git checkout -q -- .
if [ "{full}" = 1 ]; then
bash {d}/demo.sh > {out}/demo0.log 2>&1; echo "demo0 $?"
git apply {d}/patch.diff || echo "apply failed"
bash /opt/vp/build.sh > {out}/build.log 2>&1; echo "build $?"
bash /opt/vp/test.sh {out}/test.json > {out}/test.log 2>&1
bash {d}/demo.sh > {out}/demo1.log 2>&1; echo "demo1 $?"
else
git apply {d}/patch.diff || echo "apply failed"
fi
cd {root}
mod=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='{prop}'][0])")
echo "cmd $mod"
VERIF_SEED=1 VERIF_TIER=quick timeout 900 $mod > {out}/check.log 2>&1; echo "check $?"
cd /repo; git checkout -q -- .
'''


def validate(i, full=True):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    out = os.path.join(BASE, 'out_' + i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    copy = os.path.join(BASE, 'c_' + i)
    # private copy of /verif too: evidence is rewritten
    root = os.path.join(BASE, 'v_' + i)
    sh('cp -a /repo %s' % copy)
    sh('mkdir -p %s && cp -a %s/. %s && rm -rf %s/seeded' %
       (root, ROOT, root, root))
    sc = os.path.join(out, 'run.sh')
    open(sc, 'w').write(SCRIPT.format(copy=copy, d=d, out=out, root=root,
                                      prop=meta['property'],
                                      full=int(full)))
    r = sh('unshare -m bash %s' % sc)
    txt = r.stdout + r.stderr
    fail = ''
    if full:
        try:
            t = json.load(open(out + '/test.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            ids = base['stable_pass'] if 'stable_pass' in base else base
            passed = set(t.get('passed', []))
            bad = [x for x in _ids(base) if x not in passed]
            fail = 'tests failing: %d %s' % (len(bad), bad[:4])
        except Exception as exc:
            fail = 'tests: %r' % exc
    chk = open(out + '/check.log').read() if os.path.exists(
        out + '/check.log') else ''
    v = [x for x in chk.splitlines() if x.startswith('VIOLATION')
         or x.startswith('  case')][:2]
    print('==', i, ' '.join(txt.split('\n')), fail, '|', '; '.join(v) or
          chk.strip().splitlines()[-2:])
    sys.stdout.flush()
    sh('rm -rf %s %s' % (copy, root))


def _ids(base):
    for k in ('stable', 'passed', 'tests', 'stable_pass'):
        if k in base:
            return base[k]
    raise KeyError(list(base))


def main():
    os.makedirs(BASE, exist_ok=True)
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        ns = {}
        exec(open(args[0]).read(), ns)
        ids = []
        for b in ns['BUGS']:
            if args[1:] and b['id'] not in args[1:]:
                continue
            make(b)
            ids.append(b['id'])
        full = True
    else:
        ids = args or sorted(os.listdir(SEED))
        full = cmd == 'check'
    for i in ids:
        validate(i, full)


main()
