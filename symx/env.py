"""
Process environments.

setup_sym(): sfepy imported from the repository sources with numpy replaced by
the proxy of symnp.py and every compiled extension module replaced by a
translation of its current .pyx/.c sources.

setup_conc(): the unmodified sfepy with real extension modules; used to replay
counterexamples.  If the C/Cython sources differ from those the .so files in
/repo were built from, the affected extension modules are rebuilt into a
scratch directory.
"""
import os
import sys
import importlib.abc
import importlib.machinery
import importlib.util
import hashlib
import subprocess
import shutil
import tempfile

REPO = os.environ.get('SYMX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def base_env():
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.environ['MPLBACKEND'] = 'Agg'
    if VT not in sys.path:
        sys.path.append(VT)
    if REPO not in sys.path:
        sys.path.insert(1, REPO)


class PatchLoader(importlib.abc.Loader):
    def __init__(self, inner):
        self.inner = inner

    def create_module(self, spec):
        return self.inner.create_module(spec)

    def exec_module(self, module):
        self.inner.exec_module(module)
        from . import symnp
        symnp.patch_module(module)

    def __getattr__(self, name):
        return getattr(self.inner, name)


class ExtLoader(importlib.abc.Loader):
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        return LOADER.module(self.name)

    def exec_module(self, module):
        pass


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not name.startswith('sfepy'):
            return None
        if '.extmods.' in name and os.path.exists(
                os.path.join(REPO, name.replace('.', '/') + '.pyx')):
            return importlib.machinery.ModuleSpec(name, ExtLoader(name))
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or spec.loader is None:
            return spec
        if name in NOPATCH:
            return spec
        spec.loader = PatchLoader(spec.loader)
        return spec


NOPATCH = set()
LOADER = None
CODES = set()


def setup_sym(trace=True):
    global LOADER
    base_env()
    from . import symnp, pyxtr
    LOADER = pyxtr.Loader(REPO, symnp.proxy)
    sys.meta_path.insert(0, SymFinder())
    if trace:
        start_trace()
    return LOADER


def start_trace():
    """Record the functions of the repository that are executed."""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    pre = REPO + '/'

    def cb(code, off):
        if code.co_filename.startswith(pre):
            CODES.add((code.co_filename[len(pre):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)


EXTRA_USED = set()


def functions_used():
    out = set('%s:%s' % c for c in CODES
              if '<module>' not in c[1] and '<' not in c[1].split('.')[-1])
    if LOADER is not None:
        out |= set(LOADER.used)
        for p in LOADER.programs.values():
            out |= set('C:' + str(u) for u in p.used)
    return sorted(out | EXTRA_USED)


def import_time_reset():
    CODES.clear()
    sys.monitoring.restart_events()


# --- concrete environment ---------------------------------------------------

def ext_sources():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'sfepy')):
        if os.path.basename(root) == 'extmods':
            for f in fs:
                if f.endswith(('.c', '.h', '.pyx', '.pxd')):
                    p = os.path.join(root, f)
                    pyx = p[:-2] + '.pyx'
                    if f.endswith('.c') and os.path.exists(pyx):
                        continue   # Cython output, if any
                    out.append(p)
    return sorted(out)


def _sha(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def so_file(e):
    p = os.path.join(REPO, 'sfepy', e.replace('.', '/'))
    d, b = os.path.split(p)
    have = [f for f in os.listdir(d) if f.startswith(b + '.')
            and f.endswith('.so')] if os.path.isdir(d) else []
    return os.path.join(d, have[0]) if len(have) == 1 else None


def ext_hashes():
    return {os.path.relpath(p, REPO): _sha(p) for p in ext_sources()}


def so_hashes():
    """The builds are reproducible: the hash of a .so identifies the sources
    it was built from."""
    return {'so:' + e: _sha(so_file(e)) for e in EXTMODS if so_file(e)}


class SoFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(
            name, so, loader=importlib.machinery.ExtensionFileLoader(
                name, so))


EXTMODS = ['discrete.common.extmods._fmfield',
           'discrete.common.extmods.cmapping',
           'discrete.common.extmods._geommech',
           'discrete.common.extmods.assemble',
           'discrete.common.extmods.cmesh',
           'discrete.common.extmods.crefcoors',
           'discrete.fem.extmods.bases',
           'discrete.fem.extmods.lobatto_bases',
           'discrete.iga.extmods.igac',
           'mechanics.extmods.ccontres', 'terms.extmods.terms']


def changed_exts():
    """Extension modules whose .so in /repo may be stale: names."""
    import json
    try:
        with open(os.path.join(VERIF, 'symx', 'extbase.json')) as f:
            old = json.load(f)
    except OSError:
        old = {}
    new = ext_hashes()
    diff = [k for k in set(old) | set(new)
            if not k.startswith('so:') and old.get(k) != new.get(k)]
    names = []
    if VT not in sys.path:
        sys.path.append(VT)
    so = so_hashes()
    for e in EXTMODS:
        k = 'so:' + e
        if so.get(k) is None or so[k] != old.get(k):
            names.append(e)
    if diff:
        # headers / pxd / common C: rebuild everything that may depend
        for e in EXTMODS:
            if e in names:
                continue
            if _depends(e, diff):
                names.append(e)
    return names


def _depends(e, diff):
    own = 'sfepy/' + e.replace('.', '/')
    from .pyxtr import Loader
    try:
        srcs = set(Loader(REPO).csources('sfepy.' + e))
    except OSError:
        srcs = set()
    for k in diff:
        if k.endswith(('.h', '.pxd')):
            return True
        if k == own + '.pyx' or k in srcs:
            return True
    return False


def build_exts(names, out):
    """Build extension modules from the current sources into `out`."""
    import sysconfig
    import numpy as np
    from . import pyxtr, llir
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + np.get_include()]
    tmp = os.path.join(out, 'obj')
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ)
    # private copy of the sources: cython and cmake-generated headers
    src = os.path.join(out, 'src')
    shutil.copytree(os.path.join(REPO, 'sfepy'), os.path.join(src, 'sfepy'),
                    ignore=shutil.ignore_patterns('*.so', '*.vtk', '*.mesh',
                                                  '__pycache__', 'examples',
                                                  'tests'))
    flags = ['-O2', '-fPIC', '-DNDEBUG', '-DSFEPY_PLATFORM=0',
             '-Dinline=inline', '-w',
             '-DNPY_NO_DEPRECATED_API=NPY_2_0_API_VERSION'] + inc
    for d in ('discrete/common', 'discrete/fem', 'discrete/iga', 'terms',
              'mechanics'):
        flags.append('-I' + os.path.join(src, 'sfepy', d, 'extmods'))
    vd = llir.version_dir(REPO, tmp)
    flags += vd
    L = pyxtr.Loader(REPO)
    table = {}
    jobs = {}
    need = {}
    for e in names:
        need[e] = L.csources('sfepy.' + e)
        for c in need[e]:
            jobs[c] = None
    procs = []
    for i, c in enumerate(jobs):
        o = os.path.join(tmp, 'c%d.o' % i)
        jobs[c] = o
        procs.append((c, subprocess.Popen(
            ['gcc', '-c', os.path.join(src, c), '-o', o] + flags,
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for e in names:
        pyx = os.path.join(src, 'sfepy', e.replace('.', '/') + '.pyx')
        cf = os.path.join(tmp, e.replace('.', '_') + '.c')
        cmd = ('%s -m cython -3 -o %s %s && gcc -c %s -o %s %s'
               % (sys.executable, cf, os.path.relpath(pyx, src), cf,
                  cf[:-2] + '.o', ' '.join(flags)))
        procs.append((e, subprocess.Popen(
            cmd, shell=True, cwd=src, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)))
    for nm, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError('build of %s failed:\n%s'
                               % (nm, o.decode()[-2000:]))
    for e in names:
        so = os.path.join(out, e.replace('.', '_') + '.so')
        subprocess.check_call(
            ['gcc', '-shared', '-o', so,
             os.path.join(tmp, e.replace('.', '_') + '.o')]
            + [jobs[c] for c in need[e]] + ['-lm'])
        table['sfepy.' + e] = so
    shutil.rmtree(src)
    shutil.rmtree(tmp)
    return table


def setup_conc(scratch=None):
    base_env()
    names = changed_exts()
    if names:
        scratch = scratch or tempfile.mkdtemp(prefix='symx_build_')
        tabf = os.path.join(scratch, 'table.json')
        import json
        if os.path.exists(tabf):
            table = json.load(open(tabf))
        else:
            table = build_exts(names, scratch)
            json.dump(table, open(tabf, 'w'))
        sys.meta_path.insert(0, SoFinder(table))
    return names
