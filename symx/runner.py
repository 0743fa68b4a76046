"""
Runs the cases of one property, decides them, replays counterexamples on the
real code, writes the evidence file and prints the verdict.
"""
import os
import sys
import json
import time
import pickle
import re
import select
import shutil
import signal
import subprocess
import tempfile
import traceback
import fnmatch

from . import env

VERIF = env.VERIF
PY = '/opt/venv/bin/python'


class Case:
    def __init__(self, name, fun, params=None, budget=None, max_paths=4000,
                 fork_timeout=10000, nra_timeout=20000, witness=True,
                 max_viol=3, thorough_only=False, alloc=True):
        self.name = name
        self.fun = fun
        self.params = params or {}
        self.budget = budget
        self.max_paths = max_paths
        self.fork_timeout = fork_timeout
        self.nra_timeout = nra_timeout
        self.witness = witness
        self.max_viol = max_viol
        self.thorough_only = thorough_only
        self.alloc = alloc


class Result:
    pass


def load_check(name):
    import importlib
    d = os.path.join(VERIF, 'checks')
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module(name)


def silence():
    """No sfepy chatter."""
    try:
        from sfepy.base.base import output
        output.set_output(quiet=True)
    except Exception:
        pass


def run_case(mod, case, deadline, seed):
    from . import driver, symnp
    symnp.ACTIVE = case.alloc
    fun = getattr(mod, case.fun)
    d = driver.Driver(case.name, fun, case.params, max_paths=case.max_paths,
                      fork_timeout=case.fork_timeout,
                      nra_timeout=case.nra_timeout, deadline=deadline,
                      seed=seed, max_viol=case.max_viol)
    d.want_witness = case.witness
    d.run()
    return dict(name=case.name, stats=d.stats.as_dict(),
                violations=[dict(label=v.label, values={
                    k: driver.frac_str(x) for k, x in v.values.items()},
                    detail=v.detail, kind=v.kind) for v in d.violations],
                inconclusive=d.inconclusive[:5],
                ninconclusive=len(d.inconclusive),
                reach=sorted(d.reach_labels),
                witness=[{k: driver.frac_str(x) for k, x in w.items()}
                         for w in d.witnesses],
                functions=env.functions_used(),
                ninputs=d.ninputs)


def child(mod, case, wfd, deadline, seed):
    t0 = time.time()
    try:
        try:
            r = run_case(mod, case, deadline, seed)
        except BaseException as exc:
            r = dict(name=case.name, error='%s: %s' % (type(exc).__name__,
                                                       exc),
                     tb=traceback.format_exc(limit=-8))
        r['wall'] = time.time() - t0
        data = pickle.dumps(r)
        with os.fdopen(wfd, 'wb') as fd:
            fd.write(data)
    finally:
        sys.stdout.flush()
        os._exit(0)


def pool(mod, cases, nproc, default_budget, t_end, seed):
    todo = list(cases)[::-1]
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < nproc:
            case = todo.pop()
            now = time.time()
            if now > t_end:
                results[case.name] = dict(name=case.name,
                                          error='not started: out of time')
                continue
            bud = case.budget or default_budget
            deadline = min(now + bud, t_end)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                devnull = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get('SYMX_DEBUG'):
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                child(mod, case, w, deadline, seed)
            os.close(w)
            running[r] = (pid, case, b'', deadline)
        if not running:
            continue
        rs, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rs:
            pid, case, buf, dl = running[fd]
            data = os.read(fd, 1 << 20)
            if data:
                running[fd] = (pid, case, buf + data, dl)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            try:
                results[case.name] = pickle.loads(buf)
            except Exception:
                results[case.name] = dict(name=case.name,
                                          error='worker died')
        now = time.time()
        for fd, (pid, case, buf, dl) in list(running.items()):
            if now > dl + 45:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[case.name] = dict(name=case.name,
                                          error='time limit (killed)')
    return results


def replay_cmd(files, scratch, timeout=400):
    e = dict(os.environ)
    e['HOME'] = scratch
    e['SYMX_BUILD'] = os.path.join(scratch, 'build')
    os.makedirs(e['SYMX_BUILD'], exist_ok=True)
    p = subprocess.run([PY, os.path.join(VERIF, 'checks', 'replay.py')]
                       + files, env=e, capture_output=True, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return []


def is_known(kf, prop, case, label):
    for k in kf:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if fnmatch.fnmatchcase(case, k['case']) and \
                re.search(k['label'], label):
            return k
    return None


def main(modname, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    pat = None
    nowit = False
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--only='):
            pat = a[7:]
        elif a == '--nowit':
            nowit = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='symx_')
    old = os.environ.get('HOME')
    os.environ['HOME'] = scratch
    os.chdir(scratch)
    rc = 2
    try:
        rc = _main(modname, tier, pat, nowit, seed, t0, scratch)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def warm(mod):
    """Fill caches before forking; failures are left to the cases."""
    import signal

    def late(*args):
        raise TimeoutError('warm-up')
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(150)
    try:
        mod.warm()
    except Exception as exc:
        print('warm-up failed: %s: %s' % (type(exc).__name__, str(exc)[:200]))
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _main(modname, tier, pat, nowit, seed, t0, scratch):
    env.setup_sym()
    import numpy as np
    import random
    np.random.seed(seed)
    random.seed(seed)
    mod = load_check(modname)
    silence()
    prop = mod.PROPERTY
    cases = [c for c in mod.cases(tier)
             if tier == 'thorough' or not c.thorough_only]
    if pat:
        cases = [c for c in cases if fnmatch.fnmatch(c.name, pat)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    from . import driver  # loads z3 before forking
    total = getattr(mod, 'TOTAL', {}).get(tier, 420 if tier == 'quick'
                                          else 3000)
    bud = getattr(mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick'
                                         else 900)
    if hasattr(mod, 'warm'):
        warm(mod)
    env.import_time_reset()
    nproc = int(os.environ.get('SYMX_NPROC', os.cpu_count() or 4))
    # long cases first
    order = sorted(cases, key=lambda c: -(c.budget or 0))
    res = pool(mod, order, nproc, bud, t0 + total, seed)

    # --- counterexample replay, witness replay
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '.'):
            os.unlink(os.path.join(rdir, f))
    todo = []
    k = 0
    for c in cases:
        r = res[c.name]
        for v in r.get('violations', []):
            fn = os.path.join(rdir, '%s.%d.json' % (prop, k))
            k += 1
            with open(fn, 'w') as f:
                json.dump(dict(module=modname, property=prop, case=c.name,
                               fun=c.fun, params=_jsonable(c.params),
                               values=v['values'], label=v['label'],
                               detail=v['detail'], kind=v['kind'],
                               tier=tier, seed=seed), f, indent=1)
            todo.append((c, v, fn, 'cex'))
    nwit = 0
    if not nowit:
        for c in cases:
            r = res[c.name]
            if r.get('violations'):
                continue
            for j, w in enumerate(r.get('witness', [])[:2]):
                fn = os.path.join(scratch, 'wit_%d_%d.json' % (nwit, j))
                nwit += 1
                with open(fn, 'w') as f:
                    json.dump(dict(module=modname, property=prop,
                                   case=c.name, fun=c.fun,
                                   params=_jsonable(c.params), values=w,
                                   label='path witness', detail='',
                                   kind='witness', tier=tier, seed=seed), f)
                todo.append((c, None, fn, 'wit'))
    conf, unconf, witok, witbad, rerr = [], [], 0, [], []
    if todo:
        chunks = [[] for _ in range(min(8, len(todo)))]
        cex = [t for t in todo if t[3] == 'cex']
        wit = [t for t in todo if t[3] == 'wit']
        for i, t in enumerate(cex + wit):
            chunks[i % len(chunks)].append(t)
        bd = os.path.join(scratch, 'build')
        os.makedirs(bd, exist_ok=True)
        os.environ['SYMX_BUILD'] = bd
        try:
            stale = env.changed_exts()
            if stale and cex:
                tb = env.build_exts(stale, bd)
                with open(os.path.join(bd, 'table.json'), 'w') as f:
                    json.dump(tb, f)
            elif stale:
                # Extension modules in /repo do not match its sources and
                # there is nothing to confirm: no witness replay.
                chunks = []
        except Exception as exc:
            rerr.append('build of extension modules failed: %s' % exc)
        e = dict(os.environ)
        e['OMP_NUM_THREADS'] = '1'
        procs = []
        for ch in chunks:
            if not ch:
                continue
            p = subprocess.Popen([PY, os.path.join(VERIF, 'checks',
                                                   'replay.py'), '--batch']
                                 + [t[2] for t in ch], env=e,
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, text=True)
            procs.append((ch, p))
        for ch, p in procs:
            try:
                out, err = p.communicate(timeout=max(
                    60, min(300, t0 + 850 - time.time())))
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            st = {}
            for line in out.splitlines():
                if line.startswith('REPLAY '):
                    q = json.loads(line[7:])
                    st[q['file']] = q
            for c, v, fn, kind in ch:
                q = st.get(fn)
                if q is None:
                    rerr.append('%s: replay died: %s' % (c.name, err[-300:]))
                elif kind == 'cex':
                    (conf if q['status'] == 'fail' else unconf).append(
                        (c, v, fn, q))
                elif q['status'] == 'fail':
                    witbad.append((c, fn, q))
                elif q['status'] == 'ok':
                    witok += 1
                else:
                    rerr.append('%s: witness: %s' % (c.name, q))
    kf = known_findings()
    nviol = 0
    seen_known = set()
    out_lines = []
    for c, v, fn, q in conf:
        kn = is_known(kf, prop, c.name, v['label'] + ' ' + q.get('msg', ''))
        if kn is not None:
            if kn['id'] not in seen_known:
                seen_known.add(kn['id'])
                out_lines.append('KNOWN-FINDING: property=%s %s'
                                 % (prop, kn['what']))
            continue
        nviol += 1
        out_lines.append('VIOLATION property=%s replay=%s' % (prop, fn))
        out_lines.append('  case %s: %s' % (c.name, v['label'][:300]))
        out_lines.append('  replayed on the real code: %s'
                         % q.get('msg', '')[:400])
    for c, fn, q in witbad:
        keep = os.path.join(rdir, '%s.w%d.json' % (prop, nviol))
        kn = is_known(kf, prop, c.name, q.get('msg', ''))
        if kn is not None:
            if kn['id'] not in seen_known:
                seen_known.add(kn['id'])
                out_lines.append('KNOWN-FINDING: property=%s %s'
                                 % (prop, kn['what']))
            continue
        shutil.copy(fn, keep)
        nviol += 1
        out_lines.append('VIOLATION property=%s replay=%s' % (prop, keep))
        out_lines.append('  case %s: the real code fails on a path witness '
                         'of the solver: %s' % (c.name,
                                                q.get('msg', '')[:400]))
    # known findings that were not decided again are reported as listed
    inc = []
    for c in cases:
        r = res[c.name]
        if 'error' in r:
            inc.append('%s: %s' % (c.name, r['error']))
        for m in r.get('inconclusive', []):
            inc.append('%s: %s' % (c.name, m))
        if 'error' not in r and not r['stats']['claims'] \
                and not r['violations']:
            inc.append('%s: no claim reached (vacuous)' % c.name)
    for c, v, fn, q in unconf:
        inc.append('%s: counterexample not reproduced (%s): %s'
                   % (c.name, q.get('msg', '')[:120], v['label'][:300]))
        if os.environ.get('SYMX_DEBUG'):
            inc.append(v['detail'])
    inc += rerr
    bad = set(x.split(':')[0] for x in inc)
    decided = [c for c in cases if c.name not in bad]
    st = {}
    funs = set()
    for r in res.values():
        for kk, x in r.get('stats', {}).items():
            st[kk] = st.get(kk, 0) + x
        funs |= set(r.get('functions', []))
    wall = time.time() - t0
    slow = sorted(((r.get('wall', 0), n) for n, r in res.items()),
                  reverse=True)[:5]
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=int(st.get('paths', 0)),
            transitions=int(st.get('forks', 0) + st.get('claims', 0)),
            traces_validated_against_impl=witok,
            samples=[dict(case=c.name, params=_jsonable(c.params),
                          inputs=res[c.name].get('ninputs'),
                          claims=res[c.name].get('stats', {}).get('claims'),
                          witness=_short(res[c.name].get('witness')),
                          wall_s=round(res[c.name].get('wall', 0), 2))
                     for c in cases[:400]],
            cases=len(cases), cases_decided=len(decided),
            claims=st.get('claims', 0),
            claims_proved=st.get('claims_proved', 0),
            claims_syntactic=st.get('syntactic', 0),
            solver_queries=st.get('queries', 0),
            solver_time_s=round(st.get('solver_time', 0), 2),
            unsat=st.get('unsat', 0), sat=st.get('sat', 0),
            unknown=st.get('unknown', 0),
            functions_encoded=sorted(funs), bounds=mod.BOUNDS,
            outside=getattr(mod, 'OUTSIDE', ''),
            inconclusive=inc[:50],
            explanation='Symbolic execution of the current sources; each '
            'claim is decided by z3 for all values of the symbolic inputs '
            'of its case (see bounds); states = symbolic paths, transitions '
            '= branch decisions and claims decided.'),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'double arithmetic is modelled by exact real arithmetic '
            '(rounding, overflow and NaN are outside the claim)',
            'numpy/scipy/sympy used by the code are trusted',
            'clang -O1 IR of the C sources and Cython parse trees of the '
            'pyx sources have the meaning the translators give them'],
        wall_s=round(wall, 2), violations=nviol)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in inc[:40]:
        print('INCONCLUSIVE', x)
    print('property %s [%s]: %d cases, %d decided, %d claims (%d proved), '
          '%d paths, %d queries, solver %.1f s, wall %.1f s, %d witness '
          'replays' % (prop, tier, len(cases), len(decided),
                       st.get('claims', 0), st.get('claims_proved', 0),
                       st.get('paths', 0), st.get('queries', 0),
                       st.get('solver_time', 0), wall, witok))
    print('slowest:', ', '.join('%s %.1f s' % (n, w) for w, n in slow))
    for line in out_lines:
        print(line)
    if nviol:
        return 1
    if cases and not decided:
        print('ERROR: no case decided')
        return 2
    return 0


def _short(w):
    if not w:
        return w
    w = w[0]
    return dict(list(w.items())[:12])


def _jsonable(p):
    try:
        json.dumps(p)
        return p
    except TypeError:
        return {k: (v if isinstance(v, (str, int, float, bool, type(None),
                                        list, tuple, dict)) else repr(v))
                for k, v in p.items()}
