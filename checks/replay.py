"""
Replay counterexamples on the real code:  replay.py FILE...

Exit 1 if the (first) violation reproduces, 0 if the property holds at these
inputs.
"""
import os
import sys
import json
import shutil
import tempfile
import traceback
import fnmatch

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env


def main():
    args = sys.argv[1:]
    batch = '--batch' in args
    files = [os.path.abspath(a) for a in args if not a.startswith('--')]
    own = None
    if 'SYMX_BUILD' not in os.environ:
        own = tempfile.mkdtemp(prefix='symx_rp_')
        os.environ['SYMX_BUILD'] = os.path.join(own, 'build')
        os.makedirs(os.environ['SYMX_BUILD'])
        os.environ['HOME'] = own
    env.setup_conc(os.environ['SYMX_BUILD'])
    wd = tempfile.mkdtemp(prefix='symx_wd_')
    os.chdir(wd)
    rc = 0
    try:
        for fn in files:
            st = one(fn, batch)
            if batch:
                print('REPLAY ' + json.dumps(st))
                sys.stdout.flush()
            else:
                print(st['status'], st['msg'])
            if st['status'] == 'fail':
                rc = 1
    finally:
        os.chdir('/')
        shutil.rmtree(wd, ignore_errors=True)
        if own:
            shutil.rmtree(own, ignore_errors=True)
    sys.exit(rc)


def one(fn, batch):
    from symx import driver
    from symx.runner import load_check, silence
    with open(fn) as f:
        d = json.load(f)
    mod = load_check(d['module'])
    silence()
    params = d['params']
    for c in mod.cases(d.get('tier', 'quick')):
        if c.name == d['case']:
            params = c.params
            break
    vals = {k: driver.parse_val(v) for k, v in d['values'].items()}
    ctx = driver.Ctx('conc', values=vals, seed=d.get('seed', 1))
    out = sys.stdout
    if batch:
        sys.stdout = open(os.devnull, 'w')
    try:
        getattr(mod, d['fun'])(ctx, **params)
    except driver.PathInfeasible as exc:
        return dict(file=fn, status='infeasible', msg=str(exc))
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        last = tb[-1].filename
        # raised below repository code called by the harness
        inrepo = any(fr.filename.startswith(env.REPO + '/') for fr in tb) \
            and not last.startswith(env.VERIF + '/')
        msg = '%s: %s' % (type(exc).__name__, exc)
        if not batch:
            traceback.print_exc()
        if ctx.failures:
            return dict(file=fn, status='fail', msg=ctx.failures[0])
        if inrepo or 'extmods' in last:
            return dict(file=fn, status='fail', msg='exception ' + msg)
        # an exception of the harness itself
        api = isinstance(exc, (TypeError, AttributeError, ImportError,
                               NameError, KeyError))
        return dict(file=fn, status='fail' if d['kind'] == 'exception'
                    and not api else 'error', msg='exception in harness ' + msg + ' '
                    + last)
    finally:
        sys.stdout = out
    if ctx.failures:
        return dict(file=fn, status='fail', msg='; '.join(ctx.failures[:3]))
    return dict(file=fn, status='ok', msg='all %d claims hold'
                % ctx.nclaims)


if __name__ == '__main__':
    main()
