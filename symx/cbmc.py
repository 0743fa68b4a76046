"""
Bounded model checking of the C sources with CBMC.

A harness in C includes the repository source, reads its inputs from in[]
(symbolic under CBMC, concrete in a replay) and states claims by CLAIM().
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import env

HERE = os.path.dirname(os.path.abspath(__file__))

PRELUDE = r"""
#ifdef __CPROVER__
int nondet_int(void);
#ifdef REACH
#define CLAIM(c, msg) do { } while (0)
#define END() __CPROVER_assert(0, "reached")
#else
#define CLAIM(c, msg) __CPROVER_assert(c, "claim: " msg)
#define END() do { } while (0)
#endif
#define ASSUME(c) __CPROVER_assume(c)
int sx_in[SX_NIN + 1];
static void sx_init(void)
{
  int i;
  for (i = 0; i < SX_NIN; i++) {
    if (sx_lo[i] == sx_hi[i]) {
      sx_in[i] = sx_lo[i];
      continue;
    }
    sx_in[i] = nondet_int();
    __CPROVER_assume(sx_in[i] >= sx_lo[i] && sx_in[i] <= sx_hi[i]);
  }
}
#else
#include <stdio.h>
#include <stdlib.h>
#define CLAIM(c, msg) do { if (!(c)) { \
  printf("FAILED %s\n", msg); fflush(stdout); exit(7); } } while (0)
#define ASSUME(c) do { if (!(c)) exit(9); } while (0)
#define END() do { } while (0)
int sx_in[SX_NIN + 1] = SX_VALUES;
static void sx_init(void) { }
#endif
"""


class Cbmc:
    def __init__(self, includes=()):
        self.includes = list(includes)


def _write(d, harness, bounds, values=None, extra=''):
    lo = ', '.join(str(b[0]) for b in bounds) or '0'
    hi = ', '.join(str(b[1]) for b in bounds) or '0'
    with open(harness) as f:
        body = f.read()
    n = len(bounds)
    src = ['#define SX_NIN %d' % n]
    if values is None:
        src.append('#define __CPROVER__ 1')
    else:
        src.append('#define SX_VALUES {%s}'
                   % ', '.join([str(int(v)) for v in values] + ['0']))
    src += ['static const int sx_lo[] = {%s};' % lo,
            'static const int sx_hi[] = {%s};' % hi, extra, PRELUDE, body]
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, 'harness.c')
    with open(fn, 'w') as f:
        f.write('\n'.join(src) + '\n')
    return fn


def _cbmc(fn, incs, defs, opts, timeout):
    cmd = ['cbmc', fn, '--json-ui', '--trace'] + opts
    for i in incs:
        cmd += ['-I', i]
    for d in defs:
        cmd += ['-D', d]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, None, time.time() - t0
    try:
        out = json.loads(p.stdout)
    except ValueError:
        return 'error', p.stdout[-500:] + p.stderr[-500:], time.time() - t0
    res = None
    errs = []
    for o in out:
        if 'result' in o:
            res = o['result']
        if o.get('messageType') == 'ERROR':
            errs.append(o.get('messageText', ''))
    if res is None:
        return 'error', ' '.join(errs)[-500:], time.time() - t0
    return 'ok', res, time.time() - t0


def loops(fn, incs, d, unwind):
    """Loops of the repository code are unwound `unwind` times, those of the
    harness fully."""
    cmd = ['cbmc', fn, '--show-loops', '--json-ui']
    for i in incs:
        cmd += ['-I', i]
    p = subprocess.run(cmd, capture_output=True, text=True)
    out = []
    for o in json.loads(p.stdout):
        for lo in o.get('loops', []):
            f = lo['sourceLocation'].get('file', '')
            own = os.path.basename(f) == 'harness.c' and (
                lo['name'].startswith(('sx_', 'main.')))
            out.append('%s:%d' % (lo['name'], 1000 if own else max(unwind, 17)
                                if lo['name'].startswith('mesh_init.')
                                else unwind))
    return ','.join(out)


def _values(trace, n):
    vals = [0] * n
    for s in trace:
        if s.get('stepType') != 'assignment':
            continue
        m = re.match(r'sx_in\[(\d+)l?\]$', s.get('lhs', ''))
        if m and int(m.group(1)) < n:
            try:
                vals[int(m.group(1))] = int(s['value']['data'])
            except (KeyError, ValueError):
                pass
    return vals


def check(ctx, harness, inputs, extra='', incs=(), opts=(), unwind=8,
          timeout=None, cc=(), patch=()):
    """
    Decide all claims of a C harness.

    inputs : list of (name, lo, hi)
    """
    from . import driver
    harness = os.path.join(env.VERIF, 'checks', harness)
    vals = [ctx.int(*i) for i in inputs]
    bounds = [(i[1], i[2]) for i in inputs]
    incs = [os.path.join(HERE, 'cbmc_stub')] + list(incs)
    d = tempfile.mkdtemp(prefix='cbmc_')
    try:
        if not ctx.sym:
            fn = _write(d, harness, bounds, vals, extra)
            exe = os.path.join(d, 'a.out')
            cmd = ['gcc', '-g', '-w', '-fsanitize=address,undefined',
                   '-fno-sanitize-recover=all', '-o', exe, fn]
            for i in incs:
                cmd += ['-I', i]
            p = subprocess.run(cmd + list(cc) + ['-lm'],
                               capture_output=True, text=True, timeout=120)
            if p.returncode:
                raise RuntimeError('build of replay failed: '
                                   + p.stderr[-300:])
            e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
            p = subprocess.run([exe], capture_output=True, text=True,
                               timeout=120, env=e)
            if p.returncode == 9:
                raise driver.PathInfeasible('assumption')
            ctx.nclaims += 1
            ctx.true(p.returncode == 0, 'exit status %d: %s' % (
                p.returncode, (p.stdout + p.stderr)[-300:]))
            return
        for src, pats in patch:
            # constructs CBMC gives another meaning to
            with open(src) as f:
                text = f.read()
            for a, b in pats:
                text = re.sub(a, b, text)
            with open(os.path.join(d, os.path.basename(src)), 'w') as f:
                f.write(text)
        dr = ctx.driver
        tmo = timeout or 600
        if dr.deadline:
            tmo = max(5, min(tmo, dr.deadline - time.time()))
        t_end = time.time() + tmo
        fn = _write(d, harness, bounds, None, extra)
        opts = list(opts) + ['--unwindset',
                             loops(fn, incs, d, unwind)]
        # vacuity: the end of the harness is reachable
        st, res, dt = _cbmc(fn, incs, ['REACH'], list(opts)
                            + ['--no-standard-checks',
                               '--no-unwinding-assertions'],
                            t_end - time.time())
        dr.stats.queries += 1
        dr.stats.solver_time += dt
        wit = None
        if st == 'ok':
            for r in res:
                if r.get('description') == 'reached' and \
                        r['status'] == 'FAILURE':
                    wit = _values(r.get('trace', []), len(bounds))
        if wit is None:
            raise driver.Inconclusive('end of the harness not reached: %s'
                                      % (st if st != 'error' else res))
        st, res, dt = _cbmc(fn, incs, [], list(opts) + [
            '--no-standard-checks', '--unwinding-assertions'],
            t_end - time.time())
        dr.stats.solver_time += dt
        if st is None:
            raise driver.Inconclusive('time limit of cbmc')
        if st == 'error':
            raise driver.Inconclusive('cbmc: %s' % res)
        nbad = 0
        for r in res:
            dr.stats.queries += 1
            dr.stats.claims += 1
            ctx.nclaims += 1
            loc = r.get('sourceLocation', {})
            f = loc.get('file', '')
            if f.startswith(env.REPO):
                env.EXTRA_USED.add('C:%s:%s' % (
                    os.path.basename(f), loc.get('function')))
            if r['status'] == 'SUCCESS':
                dr.stats.claims_proved += 1
                continue
            desc = r.get('description', r.get('property', ''))
            if 'unwinding' in desc or '.unwind.' in r.get('property', '') \
                    or '.recursion' in r.get('property', ''):
                dr.inconclusive.append('bound: ' + desc + ' '
                                       + r.get('property', ''))
                continue
            if r['status'] != 'FAILURE':
                dr.inconclusive.append('%s: %s' % (desc, r['status']))
                continue
            nbad += 1
            if nbad > 3:
                continue
            v = _values(r.get('trace', []), len(bounds))
            dr.violations.append(driver.Violation(
                dr.case, '%s (%s line %s)' % (desc, loc.get('function'),
                                              loc.get('line')),
                {i[0]: x for i, x in zip(inputs, v)}, desc))
        dr.want_witness = False
        if not nbad:
            dr.witnesses.append({i[0]: x for i, x in zip(inputs, wit)})
        dr.reach_labels.add('end')
    finally:
        shutil.rmtree(d, ignore_errors=True)
