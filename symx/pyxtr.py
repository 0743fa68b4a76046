"""
Cython (.pyx/.pxd) -> Python, by a walk over Cython's own parse tree.

C typed variables, pointers, structs and address-of are mapped to the memory
model of llir.py; calls of extern C functions go to the IR program.  The
result is a Python module with the same interface as the extension module,
that works on symbolic data.
"""
import os
import types
import math
import numpy as np

from . import expr as E
from . import llir
from .llir import Mem, ArrMem, NULL, MemoryError_

PRIM = {'int32': ('int', 4), 'uint32': ('int', 4), 'int': ('int', 4),
        'unsigned int': ('int', 4), 'float64': ('flt', 8),
        'double': ('flt', 8), 'char': ('int', 1), 'size_t': ('int', 8),
        'npy_intp': ('int', 8), 'long': ('int', 8), 'bint': ('int', 4),
        'complex128': ('cplx', 16), 'void': ('void',), 'float': ('flt', 8),
        'FILE': ('void',), 'int64': ('int', 8), 'uint64': ('int', 8)}
OBJ = ('obj',)


class PyxUnsupported(Exception):
    pass


def parse_file(path, name):
    from Cython.Compiler import Main, Errors
    from Cython.Compiler.Scanning import FileSourceDescriptor
    from Cython.Compiler.Symtab import ModuleScope
    Errors.init_thread()
    opts = Main.CompilationOptions(Main.default_options, language_level=3)
    ctx = Main.Context.from_options(opts)
    sd = FileSourceDescriptor(path, path)
    scope = ModuleScope(name, None, ctx)
    return ctx.parse(sd, scope, path.endswith('.pxd'), name)


# --- runtime --------------------------------------------------------------

def LD(p, t):
    if p[0] is None:
        raise MemoryError_('null pointer read')
    v = p[0].ld(p[1], t)
    return v


def LDP(p):
    if p[0] is None:
        raise MemoryError_('null pointer read')
    return llir.h_ldp(p[0].ld(p[1], 8))


def ST(p, t, v):
    if p[0] is None:
        raise MemoryError_('null pointer write')
    if isinstance(v, np.generic):
        v = v.item()
    p[0].st(p[1], t, v)


def PADD(p, n, sz):
    return (p[0], p[1] + int(n) * sz)


def NEW(size, name='local'):
    return (Mem(size, name), 0)


def ADDR(arr, idx, esz):
    """&arr[idx]"""
    if isinstance(arr, tuple):
        return PADD(arr, idx[0], esz)
    if arr is None:
        raise TypeError('NoneType is not subscriptable')
    m = ArrMem(arr, isz=esz)
    off = 0
    isz = np.ndarray.dtype.__get__(arr).itemsize
    for n, st, i in zip(arr.shape, arr.strides, idx):
        off += int(i) * (st // isz)
    return (m, off * m.isz)


def _okdt(arr, kind, esz):
    dt = arr.dtype
    if dt == object:
        return True
    if kind == 'flt':
        return dt == np.float64
    if kind == 'int':
        return dt.kind in 'iu' and dt.itemsize == esz
    if kind == 'cplx':
        return dt == np.complex128
    return True


def MV(arr, kind, esz, ndim, notnone=False, name=''):
    if arr is None:
        if notnone:
            raise TypeError("Argument '%s' must not be None" % name)
        return None
    if not isinstance(arr, np.ndarray):
        raise TypeError("Argument '%s' has incorrect type" % name)
    if arr.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions'
                         ' (expected %d, got %d)' % (ndim, arr.ndim))
    if not _okdt(arr, kind, esz):
        raise ValueError('Buffer dtype mismatch (%s)' % arr.dtype)
    if not arr.flags.c_contiguous:
        if arr.size == 0:
            return arr
        raise ValueError('ndarray is not C-contiguous')
    return arr


def ND(arr, kind, esz, ndim, notnone=False, name='', mode='c'):
    if arr is None:
        if notnone:
            raise TypeError("Argument '%s' must not be None" % name)
        return None
    if not isinstance(arr, np.ndarray):
        raise TypeError("Argument '%s' has incorrect type (%s)"
                        % (name, type(arr)))
    if ndim is not None and arr.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions'
                         ' (expected %d, got %d)' % (ndim, arr.ndim))
    if kind is not None and not _okdt(arr, kind, esz):
        raise ValueError('Buffer dtype mismatch (%s)' % arr.dtype)
    if mode == 'c' and ndim is not None and not arr.flags.c_contiguous:
        raise ValueError('ndarray is not C-contiguous')
    return arr


def CINT(v):
    if type(v) is int:
        return v
    if isinstance(v, E.Sym):
        if v.op == 'c':
            return int(v.a)
        return v
    if isinstance(v, E.SymBool):
        return E.ite(v, 1, 0)
    if isinstance(v, (float, np.floating)):
        return int(v)    # as Cython does (nb_int)
    if v is None:
        raise TypeError('an integer is required')
    return int(v)


def CFLT(v):
    if isinstance(v, (E.Sym, float)):
        return v
    if isinstance(v, np.ndarray):
        if v.ndim != 0 and v.size != 1:
            raise TypeError('only size-1 arrays can be converted to scalars')
        return v.reshape(-1)[0]
    if isinstance(v, (np.floating,)):
        return float(v)
    if v is None:
        raise TypeError('must be real number, not NoneType')
    return v


def FROMDATA(ndim, shape, typ, ptr):
    n = shape[0].ld(shape[1], 8)
    dt = {'u4': np.uint32}[typ]
    out = np.zeros(n, dtype=dt)
    if ptr[0] is None:
        return out
    if isinstance(ptr[0], Mem):
        ptr[0].attach(ptr[1], out)
    else:
        raise PyxUnsupported('FROMDATA')
    return out


def PTREQ(a, b):
    return a == b


class _NPX:
    """numpy as seen by translated modules."""


_wrapsuf = '__symx_wrap'


class cython_function_or_method:
    """Looks like a Cython function to code that checks the class name."""

    def __init__(self, f):
        self.__wrapped__ = f
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__
        self.__module__ = f.__module__

    def __call__(self, *a, **k):
        return self.__wrapped__(*a, **k)


class Module:
    def __init__(self, loader, name, pyx):
        self.loader = loader
        self.name = name
        self.pyx = pyx
        self.structs = {}
        self.externs = {}      # python name -> (cname, rettype, argtypes)
        self.cfuncs = {}       # cdef functions defined in pyx: name -> types
        self.classes = {}      # cdef classes: name -> attr types
        self.modalias = {}     # cimported modules
        self.headers = []
        self.ctypedefs = {}
        self.failed = {}

    # --- types
    def base_type(self, n, allow_unknown=False):
        k = type(n).__name__
        if k == 'CSimpleBaseTypeNode':
            name = n.name
            if name is None:
                return OBJ
            if n.module_path:
                mod = self.modalias.get(n.module_path[0])
                if n.module_path[0] == 'np':
                    return PRIM.get(name, OBJ)
                if mod is not None:
                    return mod.named_type(name)
                return OBJ
            if n.is_basic_c_type:
                return PRIM.get(name, ('int', 4))
            t = self.named_type(name)
            return t
        if k == 'TemplatedTypeNode':
            b = self.base_type(n.base_type_node)
            pos = n.positional_args
            from Cython.Compiler.ExprNodes import IntNode
            if len(pos) == 1 and type(pos[0]).__name__ == 'IntNode':
                # T[3]: C array type
                return ('arr', int(pos[0].value), b)
            et = PRIM.get(pos[0].name if hasattr(pos[0], 'name') else None)
            nd = 1
            mode = None
            kw = n.keyword_args
            if kw is not None:
                for it in kw.key_value_pairs:
                    if it.key.value == 'ndim':
                        nd = int(it.value.value)
                    if it.key.value == 'mode':
                        mode = it.value.value
            return ('nd', et, nd, mode)
        if k == 'MemoryViewSliceTypeNode':
            b = self.base_type(n.base_type_node)
            return ('mv', b, len(n.axes))
        if k == 'CComplexBaseTypeNode':
            b = self.base_type(n.base_type)
            _, t = self.declarator(n.declarator, b)
            return t
        raise PyxUnsupported('type node %s' % k)

    def named_type(self, name):
        if name in self.structs:
            return ('struct', name, self)
        if name in self.classes:
            return ('cls', name, self)
        if name in self.ctypedefs:
            return self.ctypedefs[name]
        if name in self.imported:
            return self.imported[name].named_type(name)
        if name in PRIM:
            return PRIM[name]
        return OBJ

    imported = {}

    def declarator(self, d, base):
        """(name, type)"""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, base
        if k == 'CPtrDeclaratorNode':
            return self.declarator(d.base, ('ptr', base))
        if k == 'CArrayDeclaratorNode':
            return self.declarator(d.base,
                                   ('arr', int(d.dimension.value), base))
        if k == 'CFuncDeclaratorNode':
            args = [self.declarator(a.declarator, self.base_type(
                a.base_type)) for a in d.args]
            return self.declarator(d.base, ('fun', base, args))
        raise PyxUnsupported('declarator %s' % k)

    def sizeof(self, t):
        if t[0] in ('int', 'flt', 'cplx'):
            return t[1]
        if t[0] in ('ptr', 'fun'):
            return 8
        if t[0] == 'arr':
            return t[1] * self.sizeof(t[2])
        if t[0] == 'struct':
            return self.loader.layout(t[1])['__size__'][0]
        raise PyxUnsupported('sizeof %r' % (t,))

    # --- declarations
    def collect(self, tree, is_pxd):
        self._collect(tree.body, is_pxd)

    def _stats(self, n):
        if type(n).__name__ == 'StatListNode':
            for s in n.stats:
                yield from self._stats(s)
        else:
            yield n

    def _collect(self, body, is_pxd):
        for s in self._stats(body):
            k = type(s).__name__
            if k == 'CDefExternNode':
                if s.include_file:
                    self.headers.append(str(s.include_file))
                for x in self._stats(s.body):
                    self._extern(x)
            elif k == 'FromCImportStatNode':
                for item in s.imported_names:
                    pos, name, as_name = item[:3]
                    self._cimport_from(str(s.module_name), str(name),
                                       str(as_name or name))
            elif k == 'CImportStatNode':
                mn = str(s.module_name)
                if mn.startswith('sfepy'):
                    self.modalias[str(s.as_name)] = self.loader.decl(mn)
            elif k == 'CClassDefNode':
                self._class(s)
            elif k == 'CFuncDefNode':
                base = self.base_type(s.base_type)
                nm, t = self.declarator(s.declarator, base)
                self.cfuncs[nm] = t
            elif k == 'CVarDefNode' and is_pxd:
                base = self.base_type(s.base_type)
                for d in s.declarators:
                    nm, t = self.declarator(d, base)
                    if t[0] == 'fun':
                        self.cfuncs[nm] = t
            elif k == 'CTypeDefNode':
                self._typedef(s)

    def _typedef(self, s):
        nm, t = self.declarator(s.declarator, self.base_type(s.base_type))
        if nm in PRIM:
            t = PRIM[nm]
        self.ctypedefs[nm] = t

    def _cimport_from(self, mod, name, as_name):
        if not mod.startswith('sfepy'):
            return
        try:
            sub = self.loader.decl(mod + '.' + name)
        except FileNotFoundError:
            sub = None
        if sub is not None:
            self.modalias[as_name] = sub
            return
        m = self.loader.decl(mod)
        self.imported = dict(self.imported)
        self.imported[as_name] = m

    def _extern(self, x):
        k = type(x).__name__
        if k == 'CVarDefNode':
            base = self.base_type(x.base_type)
            for d in x.declarators:
                nm, t = self.declarator(d, base)
                if t[0] == 'fun':
                    dd = d
                    while not hasattr(dd, 'cname'):
                        dd = dd.base
                    cname = dd.cname or nm
                    self.externs[nm] = (str(cname), t)
                else:
                    # pointer to a function result: T *f(args)
                    f = self._ptrfun(t)
                    if f is not None:
                        self.externs[nm] = (nm, f)
                    else:
                        self.externs[nm] = (nm, t)
        elif k == 'CStructOrUnionDefNode':
            fields = {}
            self.structs[x.name] = fields
            for a in x.attributes:
                base = self.base_type(a.base_type)
                for d in a.declarators:
                    nm, t = self.declarator(d, base)
                    fields[nm] = t
        elif k == 'CTypeDefNode':
            self._typedef(x)
        elif k == 'StatListNode':
            for y in self._stats(x):
                self._extern(y)

    def _ptrfun(self, t):
        return None

    def _class(self, s):
        at = self.classes.setdefault(s.class_name, {})
        if s.body is None:
            return
        for x in self._stats(s.body):
            if type(x).__name__ == 'CVarDefNode':
                base = self.base_type(x.base_type)
                for d in x.declarators:
                    nm, t = self.declarator(d, base)
                    if t[0] != 'fun':
                        at[nm] = t

    # --- lookup
    def lookup_extern(self, name):
        if name in self.externs:
            return self, self.externs[name]
        if name in self.imported:
            return self.imported[name].lookup_extern(name)
        return None

    def lookup_cfunc(self, name):
        if name in self.cfuncs:
            return self, self.cfuncs[name]
        if name in self.imported:
            return self.imported[name].lookup_cfunc(name)
        return None


class FunGen:
    """Code generation of one function body."""

    def __init__(self, mg, cls=None):
        self.mg = mg
        self.m = mg.m
        self.vars = {}
        self.boxed = set()
        self.out = []
        self.cls = cls
        self.tmp = 0

    # -- analysis: names whose address is taken
    def find_boxed(self, n):
        k = type(n).__name__
        if k == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
            nm = n.operand.name
            t = self.vars.get(nm)
            if t is not None and t[0] in ('int', 'flt', 'ptr', 'cplx'):
                self.boxed.add(nm)
        for a in n.child_attrs or ():
            v = getattr(n, a, None)
            if v is None:
                continue
            for x in (v if isinstance(v, list) else [v]):
                if x is not None:
                    self.find_boxed(x)

    def find_vars(self, n):
        k = type(n).__name__
        if k == 'CVarDefNode':
            base = self.m.base_type(n.base_type)
            for d in n.declarators:
                nm, t = self.m.declarator(d, base)
                self.vars[nm] = t
        if k in ('DefNode', 'CFuncDefNode', 'LambdaNode'):
            return
        for a in n.child_attrs or ():
            v = getattr(n, a, None)
            if v is None:
                continue
            for x in (v if isinstance(v, list) else [v]):
                if x is not None:
                    self.find_vars(x)

    def w(self, ind, s):
        self.out.append('    ' * ind + s)

    # -- function
    def function(self, n, ind, name=None, method=False):
        k = type(n).__name__
        args = []
        names = []
        conv = []
        if k == 'CFuncDefNode':
            d = n.declarator
            while type(d).__name__ != 'CFuncDeclaratorNode':
                d = d.base
            fargs = d.args
            dd = d.base
            while not hasattr(dd, 'name'):
                dd = dd.base
            fname = dd.name
        else:
            fargs = n.args
            fname = n.name
        for a in fargs:
            base = self.m.base_type(a.base_type)
            nm, t = self.m.declarator(a.declarator, base)
            if nm == '' or nm is None:
                # "def f(x)": the name is in the base type node
                nm, t = a.base_type.name, OBJ
            if t is OBJ and type(a.base_type).__name__ == \
                    'CSimpleBaseTypeNode' and (a.base_type.name == 'ndarray'):
                t = ('nd', None, None, None)
            if nm == 'self' and self.cls is not None and t is OBJ:
                t = ('cls', self.cls, self.m)
            self.vars[nm] = t
            names.append(nm)
            dv = ''
            if a.default is not None:
                dv = '=' + self.ex(a.default)[0]
            args.append(nm + dv)
            c = self.coerce(nm, t, bool(getattr(a, 'not_none', False)), nm)
            if c is not None:
                conv.append((nm, c))
        star = getattr(n, 'star_arg', None)
        if star is not None:
            args.append('*' + star.name)
        ss = getattr(n, 'starstar_arg', None)
        if ss is not None:
            args.append('**' + ss.name)
        body = n.body
        self.find_vars(body)
        self.find_boxed(body)
        classm = any(type(d_.decorator).__name__ == 'NameNode'
                     and d_.decorator.name == 'classmethod'
                     for d_ in (n.decorators or []))
        if classm:
            self.w(ind, '@classmethod')
        fn = name or fname
        self.w(ind, 'def %s(%s):' % (fn, ', '.join(args)))
        self.w(ind + 1, '_f(%r)' % ((self.cls + '.' if self.cls else '')
                                    + fname))
        for nm, c in conv:
            self.w(ind + 1, '%s = %s' % (nm, c))
        argset = set(names)
        for nm, t in self.vars.items():
            if nm in argset:
                if nm in self.boxed:
                    self.w(ind + 1, '%s__b = NEW(%d, %r)'
                           % (nm, self.m.sizeof(t), nm))
                    self.w(ind + 1, 'ST(%s__b, %d, %s)'
                           % (nm, self.m.sizeof(t), nm))
                continue
            if t[0] in ('struct', 'arr'):
                self.w(ind + 1, '%s = NEW(%d, %r)'
                       % (nm, self.m.sizeof(t), nm))
            elif nm in self.boxed:
                self.w(ind + 1, '%s__b = NEW(%d, %r)'
                       % (nm, self.m.sizeof(t), nm))
        self.stat(body, ind + 1)
        return fn

    def coerce(self, code, t, notnone, name):
        if t[0] == 'int':
            return 'CINT(%s)' % code
        if t[0] == 'flt':
            return 'CFLT(%s)' % code
        if t[0] == 'mv':
            return 'MV(%s, %r, %d, %d, %s, %r)' % (
                code, t[1][0], self.m.sizeof(t[1]), t[2], notnone, name)
        if t[0] == 'nd':
            et = t[1]
            return 'ND(%s, %r, %s, %r, %s, %r, %r)' % (
                code, et[0] if et else None,
                self.m.sizeof(et) if et else None, t[2], notnone, name,
                t[3])
        if t[0] == 'cls' and notnone and name != 'self':
            return 'NOTNONE(%s, %r)' % (code, name)
        return None

    # -- statements
    def stat(self, n, ind):
        k = type(n).__name__
        f = getattr(self, 's_' + k, None)
        if f is None:
            raise PyxUnsupported('statement %s in %s' % (k, self.m.name))
        f(n, ind)

    def s_StatListNode(self, n, ind):
        if not n.stats:
            self.w(ind, 'pass')
        for s in n.stats:
            self.stat(s, ind)

    def s_CVarDefNode(self, n, ind):
        base = self.m.base_type(n.base_type)
        for d in n.declarators:
            nm, t = self.m.declarator(d, base)
            dd = d
            while not hasattr(dd, 'default') and hasattr(dd, 'base'):
                dd = dd.base
            de = getattr(dd, 'default', None)
            if de is not None:
                c, tt = self.ex(de)
                self.assign_name(nm, self.rv(c, tt, t), ind)
        self.w(ind, 'pass')

    def s_PassStatNode(self, n, ind):
        self.w(ind, 'pass')

    def s_ContinueStatNode(self, n, ind):
        self.w(ind, 'continue')

    def s_BreakStatNode(self, n, ind):
        self.w(ind, 'break')

    def s_GlobalNode(self, n, ind):
        self.w(ind, 'global ' + ', '.join(n.names))

    def s_ExprStatNode(self, n, ind):
        self.w(ind, self.ex(n.expr)[0])

    def s_ReturnStatNode(self, n, ind):
        if n.value is None:
            self.w(ind, 'return')
        else:
            self.w(ind, 'return ' + self.ex(n.value)[0])

    def s_RaiseStatNode(self, n, ind):
        self.w(ind, 'raise ' + (self.ex(n.exc_type)[0] if n.exc_type
                                else ''))

    def s_AssertStatNode(self, n, ind):
        cond = getattr(n, 'condition', None)
        if cond is None:
            cond = n.cond
        self.w(ind, 'assert ' + self.ex(cond)[0])

    def s_IfStatNode(self, n, ind):
        for i, c in enumerate(n.if_clauses):
            self.w(ind, '%sif %s:' % ('el' if i else '',
                                      self.cond(c.condition)))
            self.stat(c.body, ind + 1)
        if n.else_clause is not None:
            self.w(ind, 'else:')
            self.stat(n.else_clause, ind + 1)

    def cond(self, n):
        c, t = self.ex(n)
        if t[0] == 'ptr':
            return '(%s != NULL)' % c
        return c

    def s_WhileStatNode(self, n, ind):
        self.w(ind, 'while %s:' % self.cond(n.condition))
        self.stat(n.body, ind + 1)

    def s_ForInStatNode(self, n, ind):
        it, t = self.ex(n.iterator.sequence)
        if t[0] in ('mv',):
            t = OBJ
        tgt = n.target
        if type(tgt).__name__ == 'NameNode' and tgt.name not in self.boxed:
            self.w(ind, 'for %s in %s:' % (tgt.name, it))
        elif type(tgt).__name__ == 'TupleNode':
            self.w(ind, 'for %s in %s:' % (self.ex(tgt)[0], it))
        else:
            self.tmp += 1
            nm = '_t%d' % self.tmp
            self.w(ind, 'for %s in %s:' % (nm, it))
            self.assign(tgt, (nm, OBJ), ind + 1)
        self.stat(n.body, ind + 1)
        if n.else_clause is not None:
            self.w(ind, 'else:')
            self.stat(n.else_clause, ind + 1)

    def s_TryExceptStatNode(self, n, ind):
        self.w(ind, 'try:')
        self.stat(n.body, ind + 1)
        for c in n.except_clauses:
            pat = c.pattern
            s = 'except'
            if pat:
                ps = [self.ex(p)[0] for p in
                      (pat if isinstance(pat, list) else [pat])]
                s += ' ' + (ps[0] if len(ps) == 1
                            else '(' + ', '.join(ps) + ')')
                if c.target is not None:
                    s += ' as ' + c.target.name
            self.w(ind, s + ':')
            self.stat(c.body, ind + 1)
        if n.else_clause is not None:
            self.w(ind, 'else:')
            self.stat(n.else_clause, ind + 1)

    def s_SingleAssignmentNode(self, n, ind):
        r = n.rhs
        if type(r).__name__ == 'ImportNode':
            mod = r.module_name.value
            lhs = n.lhs.name
            if '.' in mod and not getattr(r, 'name_list', None):
                self.w(ind, 'import %s as %s' % (mod, lhs)
                       if getattr(r, 'get_top_level_module', 0) is False
                       or lhs != mod.split('.')[0]
                       else 'import %s' % mod)
            else:
                self.w(ind, 'import %s as %s' % (mod, lhs))
            if lhs in ('np', 'nm') and mod == 'numpy':
                self.w(ind, '%s = NPX()' % lhs)
            return
        self.assign(n.lhs, self.ex(r), ind)

    def s_FromImportStatNode(self, n, ind):
        mod = n.module.module_name.value
        for nm, tgt in n.items:
            self.w(ind, 'from %s import %s as %s'
                   % (mod, nm, self.ex(tgt)[0]))

    def s_CascadedAssignmentNode(self, n, ind):
        c, t = self.ex(n.rhs)
        self.tmp += 1
        nm = '_t%d' % self.tmp
        self.w(ind, '%s = %s' % (nm, c))
        for l in n.lhs_list:
            self.assign(l, (nm, t), ind)

    def s_InPlaceAssignmentNode(self, n, ind):
        c, t = self.ex(n.lhs)
        r, tr = self.ex(n.rhs)
        op = n.operator
        if t[0] == 'ptr':
            sz = self.m.sizeof(t[1])
            r = r if op == '+' else '-(%s)' % r
            self.assign(n.lhs, ('PADD(%s, %s, %d)' % (c, r, sz), t), ind)
        elif t is OBJ and type(n.lhs).__name__ in ('NameNode', 'IndexNode',
                                                   'AttributeNode'):
            self.w(ind, '%s %s= %s' % (c, op, r))
        else:
            self.assign(n.lhs, ('(%s) %s (%s)' % (c, op, r), t), ind)

    def rv(self, c, t, target):
        """Convert a value for assignment to target type."""
        if target[0] == 'int' and t is OBJ:
            return 'CINT(%s)' % c
        if target[0] == 'flt' and t is OBJ:
            return 'CFLT(%s)' % c
        if target[0] == 'mv' and t[0] != 'mv':
            return 'MV(%s, %r, %d, %d)' % (c, target[1][0],
                                           self.m.sizeof(target[1]),
                                           target[2])
        if target[0] == 'nd' and t[0] != 'nd' and target[2] is not None:
            et = target[1]
            return 'ND(%s, %r, %s, %r, False, "", %r)' % (
                c, et[0] if et else None,
                self.m.sizeof(et) if et else None, target[2], target[3])
        return c

    def assign_name(self, nm, code, ind):
        if nm in self.boxed:
            self.w(ind, 'ST(%s__b, %d, %s)'
                   % (nm, self.m.sizeof(self.vars[nm]), code))
        else:
            self.w(ind, '%s = %s' % (nm, code))

    def assign(self, lhs, ct, ind):
        c, t = ct
        k = type(lhs).__name__
        if k == 'NameNode':
            tt = self.vars.get(lhs.name, OBJ)
            if lhs.name not in self.vars and self.cls is not None \
                    and t[0] in ('ptr', 'struct', 'cls') \
                    and not self.mg.at_module:
                # inferred C type of an untyped local
                self.vars[lhs.name] = t
                tt = t
            elif lhs.name not in self.vars and t[0] == 'ptr' \
                    and not self.mg.at_module:
                self.vars[lhs.name] = t
                tt = t
            self.assign_name(lhs.name, self.rv(c, t, tt), ind)
            return
        if k in ('TupleNode', 'ListNode'):
            self.tmp += 1
            nm = '_t%d' % self.tmp
            self.w(ind, '%s = %s' % (nm, c))
            for i, x in enumerate(lhs.args):
                self.assign(x, ('%s[%d]' % (nm, i), OBJ), ind)
            return
        lv = self.lvalue(lhs)
        if lv is not None:
            p, tt = lv
            if tt[0] in ('int', 'flt', 'cplx', 'ptr', 'fun'):
                self.w(ind, 'ST(%s, %d, %s)' % (p, self.m.sizeof(tt),
                                                self.rv(c, t, tt)))
                return
            raise PyxUnsupported('assignment to %r' % (tt,))
        if k == 'AttributeNode':
            ob, ot = self.ex(lhs.obj)
            tt = OBJ
            if ot[0] == 'cls':
                tt = ot[2].classes[ot[1]].get(lhs.attribute, OBJ)
            self.w(ind, '%s.%s = %s' % (ob, lhs.attribute,
                                        self.rv(c, t, tt)))
            return
        if k in ('IndexNode', 'SliceIndexNode'):
            self.w(ind, '%s = %s' % (self.ex(lhs)[0], c))
            return
        raise PyxUnsupported('assignment to %s' % k)

    # -- lvalues in C memory: (pointer code, type)
    def lvalue(self, n):
        k = type(n).__name__
        if k == 'NameNode':
            if n.name in self.boxed:
                return n.name + '__b', self.vars[n.name]
            t = self.vars.get(n.name)
            if t is not None and t[0] in ('struct', 'arr'):
                return n.name, t
            return None
        if k == 'AttributeNode':
            ob, t = self.ex(n.obj)
            if t[0] == 'cls':
                at = t[2].classes[t[1]].get(n.attribute)
                if at is not None and at[0] in ('struct', 'arr'):
                    return '%s.%s' % (ob, n.attribute), at
                return None
            while t[0] == 'arr':
                t = ('ptr', t[2])
            if t[0] == 'ptr':
                t = t[1]
            if t[0] == 'struct':
                off, cty = self.m.loader.layout(t[1])[n.attribute]
                ft = t[2].structs[t[1]][n.attribute]
                if ft[0] == 'ptr' and cty.endswith(']'):
                    ft = ('arr', int(cty[cty.rindex('[') + 1:-1]), ft[1])
                return 'PADD(%s, %d, 1)' % (ob, off), ft
            return None
        if k == 'IndexNode':
            ob, t = self.ex(n.base)
            if t[0] in ('ptr', 'arr'):
                et = t[1] if t[0] == 'ptr' else t[2]
                i, _ = self.ex(n.index)
                return 'PADD(%s, %s, %d)' % (ob, i, self.m.sizeof(et)), et
            return None
        return None

    def load(self, lv):
        p, t = lv
        if t[0] in ('int', 'flt', 'cplx'):
            return 'LD(%s, %d)' % (p, self.m.sizeof(t)), t
        if t[0] in ('ptr', 'fun'):
            return 'LDP(%s)' % p, t
        if t[0] in ('arr', 'struct'):
            return p, t
        raise PyxUnsupported('load %r' % (t,))

    # -- expressions
    def ex(self, n):
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise PyxUnsupported('expression %s in %s' % (k, self.m.name))
        return f(n)

    def e_NameNode(self, n):
        nm = n.name
        if nm in self.boxed:
            return self.load((nm + '__b', self.vars[nm]))
        if nm in self.vars:
            return nm, self.vars[nm]
        if nm == 'self' and self.cls is not None:
            return nm, ('cls', self.cls, self.m)
        ext = self.m.lookup_extern(nm)
        if ext is not None and nm not in self.mg.pyglobals:
            mod, (cname, t) = ext
            if t[0] != 'fun':
                return self.load(('CG(%r)' % cname, t))
            return 'CF(%r)' % cname, t
        cf = self.m.lookup_cfunc(nm)
        if cf is not None:
            mod, t = cf
            if mod is not self.m:
                return 'MODF(%r, %r)' % (mod.name, nm), t
            return nm, t
        if nm == 'stdout':
            return 'NULL', ('ptr', ('void',))
        return nm, OBJ

    def e_IntNode(self, n):
        return str(n.value).rstrip('uUlL'), ('int', 4)

    def e_FloatNode(self, n):
        return n.value, ('flt', 8)

    def e_BoolNode(self, n):
        return str(bool(n.value)), OBJ

    def e_NoneNode(self, n):
        return 'None', OBJ

    def e_NullNode(self, n):
        return 'NULL', ('ptr', ('void',))

    def e_UnicodeNode(self, n):
        return repr(str(n.value)), OBJ

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return repr(bytes(n.value, 'latin1') if isinstance(n.value, str)
                    else bytes(n.value)), OBJ

    def e_TupleNode(self, n):
        return '(' + ''.join(self.ex(a)[0] + ', ' for a in n.args) + ')', OBJ

    def e_ListNode(self, n):
        return '[' + ', '.join(self.ex(a)[0] for a in n.args) + ']', OBJ

    def e_DictNode(self, n):
        return '{' + ', '.join('%s: %s' % (self.ex(i.key)[0],
                                           self.ex(i.value)[0])
                               for i in n.key_value_pairs) + '}', OBJ

    def e_ComprehensionNode(self, n):
        loop = n.loop
        app = loop.body
        tgt = self.ex(loop.target)[0]
        it = self.ex(loop.iterator.sequence)[0]
        cond = ''
        if type(app).__name__ == 'IfStatNode':
            cond = ' if ' + self.cond(app.if_clauses[0].condition)
            app = app.if_clauses[0].body
        if type(app).__name__ == 'StatListNode':
            app = app.stats[0]
        return '[%s for %s in %s%s]' % (self.ex(app.expr)[0], tgt, it,
                                        cond), OBJ

    def e_AttributeNode(self, n):
        if type(n.obj).__name__ == 'NameNode':
            nm = n.obj.name
            mod = self.m.modalias.get(nm)
            if mod is not None and nm not in self.vars:
                ext = mod.lookup_extern(n.attribute)
                if ext is not None:
                    _, (cname, t) = ext
                    return 'CF(%r)' % cname, t
                if n.attribute in mod.cfuncs:
                    return 'MODF(%r, %r)' % (mod.name, n.attribute), \
                        mod.cfuncs[n.attribute]
                return 'MODF(%r, %r)' % (mod.name, n.attribute), OBJ
            if nm == 'np' and n.attribute == 'PyArray_SimpleNewFromData':
                return 'FROMDATA', OBJ
            if nm == 'np' and n.attribute == 'NPY_UINT32':
                return "'u4'", OBJ
            if nm == 'np' and n.attribute == 'import_array':
                return '(lambda: None)', OBJ
        ob, t = self.ex(n.obj)
        if t[0] == 'cls':
            at = t[2].classes[t[1]].get(n.attribute)
            return '%s.%s' % (ob, n.attribute), at or OBJ
        if t[0] in ('ptr', 'arr', 'struct'):
            lv = self.lvalue(n)
            if lv is not None:
                return self.load(lv)
            raise PyxUnsupported('attribute %s of %r' % (n.attribute, t))
        if t[0] in ('mv', 'nd') and n.attribute == 'shape':
            return '%s.shape' % ob, OBJ
        if n.attribute == 'iteritems':
            return '%s.items' % ob, OBJ
        return '%s.%s' % (ob, n.attribute), OBJ

    def e_IndexNode(self, n):
        lv = self.lvalue(n)
        if lv is not None:
            return self.load(lv)
        ob, t = self.ex(n.base)
        i, _ = self.ex(n.index)
        rt = OBJ
        if t[0] in ('mv', 'nd') and t[1] is not None:
            nd = t[2]
            ni = len(n.index.args) if type(n.index).__name__ == 'TupleNode' \
                else 1
            if ni == nd and 'SliceNode' not in [
                    type(a).__name__ for a in
                    getattr(n.index, 'args', [n.index])]:
                rt = t[1] if t[0] == 'mv' else OBJ
        return '%s[%s]' % (ob, i), rt

    def e_SliceNode(self, n):
        def p(x):
            return '' if type(x).__name__ == 'NoneNode' else self.ex(x)[0]
        s = '%s:%s' % (p(n.start), p(n.stop))
        if type(n.step).__name__ != 'NoneNode':
            s += ':' + p(n.step)
        return 'slice(%s, %s, %s)' % (self.ex(n.start)[0],
                                      self.ex(n.stop)[0],
                                      self.ex(n.step)[0]), OBJ

    def e_SliceIndexNode(self, n):
        ob, t = self.ex(n.base)
        a = self.ex(n.start)[0] if n.start is not None else ''
        b = self.ex(n.stop)[0] if n.stop is not None else ''
        return '%s[%s:%s]' % (ob, a, b), OBJ

    def e_AmpersandNode(self, n):
        op = n.operand
        k = type(op).__name__
        if k == 'NameNode':
            nm = op.name
            if nm in self.boxed:
                return nm + '__b', ('ptr', self.vars[nm])
            t = self.vars.get(nm)
            if t is not None and t[0] in ('struct', 'arr'):
                return nm, ('ptr', t)
            c, t = self.ex(op)
            if t[0] == 'fun':
                return c, t
            raise PyxUnsupported('address of %s' % nm)
        lv = self.lvalue(op)
        if lv is not None:
            return lv[0], ('ptr', lv[1])
        if k == 'IndexNode':
            ob, t = self.ex(op.base)
            if t[0] in ('mv', 'nd') or t is OBJ:
                if type(op.index).__name__ == 'TupleNode':
                    idx = [self.ex(a)[0] for a in op.index.args]
                else:
                    idx = [self.ex(op.index)[0]]
                et = t[1] if t[0] in ('mv', 'nd') and t[1] else ('flt', 8)
                return 'ADDR(%s, (%s,), %d)' % (ob, ', '.join(idx),
                                                self.m.sizeof(et)), \
                    ('ptr', et)
        raise PyxUnsupported('address of %s' % k)

    def e_TypecastNode(self, n):
        c, t = self.ex(n.operand)
        base = self.m.base_type(n.base_type)
        _, tt = self.m.declarator(n.declarator, base)
        if tt[0] == 'int' and t is OBJ:
            return 'CINT(%s)' % c, tt
        if tt[0] == 'int' and t[0] == 'flt':
            return 'h_fptosi(%s)' % c, tt
        if tt[0] == 'flt':
            return c, tt
        return c, tt

    def e_SizeofTypeNode(self, n):
        base = self.m.base_type(n.base_type)
        _, t = self.m.declarator(n.declarator, base)
        return str(self.m.sizeof(t)), ('int', 8)

    def e_SizeofVarNode(self, n):
        nm = n.operand.name
        t = self.vars.get(nm)
        if t is None:
            t = self.m.named_type(nm)
        return str(self.m.sizeof(t)), ('int', 8)

    def _args(self, args):
        out = []
        for a in args:
            out.append(self.ex(a)[0])
        return out

    def e_SimpleCallNode(self, n):
        f, t = self.ex(n.function)
        args = self._args(n.args)
        if t[0] == 'ptr' and t[1][0] == 'fun':
            return 'h_icall(%s)(%s)' % (f, ', '.join(args)), t[1][1]
        if t[0] == 'fun':
            cargs = []
            for i, a in enumerate(n.args):
                c, at = self.ex(a)
                if i < len(t[2]):
                    c = self.rv(c, at, t[2][i][1])
                cargs.append(c)
            if f.startswith('LDP('):
                f = 'h_icall(%s)' % f
            return '%s(%s)' % (f, ', '.join(cargs)), t[1]
        rt = OBJ
        if type(n.function).__name__ == 'NameNode' \
                and n.function.name in self.m.classes:
            rt = ('cls', n.function.name, self.m)
        return '%s(%s)' % (f, ', '.join(args)), rt

    def e_GeneralCallNode(self, n):
        f, t = self.ex(n.function)
        pa = n.positional_args
        if type(pa).__name__ == 'TupleNode':
            args = self._args(pa.args)
        else:
            args = ['*' + self.ex(pa)[0]]
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    args.append('%s=%s' % (it.key.value,
                                           self.ex(it.value)[0]))
            else:
                args.append('**' + self.ex(kw)[0])
        return '%s(%s)' % (f, ', '.join(args)), OBJ

    def binop(self, n, op):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        if op in '+-':
            for x, y, t, s in ((a, b, ta, 1), (b, a, tb, 2)):
                if t[0] == 'arr':
                    t = ('ptr', t[2])
                if t[0] == 'ptr':
                    if (ta[0] in ('ptr', 'arr')) and (tb[0] in
                                                      ('ptr', 'arr')):
                        raise PyxUnsupported('pointer difference')
                    sg = '' if op == '+' else '-'
                    return 'PADD(%s, %s(%s), %d)' % (
                        x, sg, y, self.m.sizeof(t[1])), t
        rt = OBJ
        if ta[0] in ('int', 'flt') and tb[0] in ('int', 'flt'):
            rt = ('flt', 8) if 'flt' in (ta[0], tb[0]) else ta
        return '(%s %s %s)' % (a, op, b), rt

    def e_AddNode(self, n): return self.binop(n, '+')
    def e_SubNode(self, n): return self.binop(n, '-')
    def e_MulNode(self, n): return self.binop(n, '*')
    def e_DivNode(self, n): return self.binop(n, n.operator)
    def e_ModNode(self, n): return self.binop(n, '%')
    def e_PowNode(self, n): return self.binop(n, '**')
    def e_IntBinopNode(self, n): return self.binop(n, n.operator)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.cond(n.operand1), n.operator,
                               self.cond(n.operand2)), OBJ

    def e_NotNode(self, n):
        return '(not %s)' % self.cond(n.operand), OBJ

    def e_UnaryMinusNode(self, n):
        c, t = self.ex(n.operand)
        return '(-%s)' % c, t

    def e_UnaryPlusNode(self, n):
        return self.ex(n.operand)

    def e_TildeNode(self, n):
        return '(~%s)' % self.ex(n.operand)[0], OBJ

    def e_CondExprNode(self, n):
        t = self.ex(n.true_val)
        f = self.ex(n.false_val)
        return '(%s if %s else %s)' % (t[0], self.cond(n.test
                                       if hasattr(n, 'test') else
                                       n.condition), f[0]), t[1]

    def e_PrimaryCmpNode(self, n):
        a, ta = self.ex(n.operand1)
        b, tb = self.ex(n.operand2)
        op = n.operator
        if ta[0] in ('ptr', 'fun') or tb[0] in ('ptr', 'fun'):
            op = {'is': '==', 'is_not': '!=', 'is not': '!='}.get(op, op)
        op = {'is_not': 'is not', 'not_in': 'not in'}.get(op, op)
        s = '%s %s %s' % (a, op, b)
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (c.operator, self.ex(c.operand2)[0])
            c = c.cascade
        return '(%s)' % s, OBJ


class ModGen:
    def __init__(self, m, tree):
        self.m = m
        self.tree = tree
        self.out = []
        self.pyglobals = set()
        self.at_module = True

    def run(self):
        for s in self.m._stats(self.tree.body):
            self.top(s)
        return '\n'.join(self.out)

    def fun(self, n, ind, cls=None, name=None):
        self.at_module = False
        fg = FunGen(self, cls)
        try:
            fg.function(n, ind, name)
            self.out += fg.out
        except (PyxUnsupported, AttributeError, KeyError, IndexError,
                TypeError, NotImplementedError) as exc:
            nm = name or getattr(n, 'name', None) \
                or n.declarator.base.name
            self.m.failed[nm] = repr(exc)
            self.out += ['    ' * ind + 'def %s(*a, **k):' % nm,
                         '    ' * ind + '    UNSUP(%r, %r)'
                         % (nm, repr(exc))]
        self.at_module = True

    def top(self, s):
        k = type(s).__name__
        if k in ('CImportStatNode', 'FromCImportStatNode', 'CDefExternNode',
                 'CTypeDefNode', 'CStructOrUnionDefNode'):
            return
        if k in ('DefNode', 'CFuncDefNode'):
            self.fun(s, 0)
            return
        if k == 'CClassDefNode':
            self.cclass(s)
            return
        if k == 'CVarDefNode':
            return
        fg = FunGen(self)
        fg.stat(s, 0)
        self.out += fg.out

    def cclass(self, s):
        cn = s.class_name
        at = self.m.classes.get(cn, {})
        o = self.out
        o.append('class %s(object):' % cn)
        o.append('    def __new__(cls, *a, **k):')
        o.append('        self = object.__new__(cls)')
        for nm, t in at.items():
            if t[0] in ('struct', 'arr'):
                o.append('        self.%s = NEW(%d, %r)'
                         % (nm, self.m.sizeof(t), cn + '.' + nm))
                o.append('        self.%s[0].memset0(0, %d)'
                         % (nm, self.m.sizeof(t)))
            elif t[0] == 'ptr':
                o.append('        self.%s = NULL' % nm)
            elif t[0] in ('int', 'flt'):
                o.append('        self.%s = 0' % nm)
            else:
                o.append('        self.%s = None' % nm)
        o.append('        if hasattr(self, "__cinit__"): '
                 'self.__cinit__(*a, **k)')
        o.append('        return self')
        o.append('    def __init__(self, *a, **k): pass')
        o.append('    def __eq__(self, o): return self is o')
        o.append('    def __hash__(self): return id(self)')
        for x in self.m._stats(s.body):
            k = type(x).__name__
            if k in ('DefNode', 'CFuncDefNode'):
                nm = getattr(x, 'name', None)
                if nm == '__dealloc__':
                    continue
                self.fun(x, 1, cls=cn)
            elif k == 'PropertyNode':
                g = sset = 'None'
                for y in self.m._stats(x.body):
                    if type(y).__name__ == 'DefNode':
                        nn = '_prop%s_%s' % (y.name, x.name)
                        self.fun(y, 1, cls=cn, name=nn)
                        if y.name == '__get__':
                            g = nn
                        elif y.name == '__set__':
                            sset = nn
                o.append('    %s = property(%s, %s)' % (x.name, g, sset))
            elif k in ('CVarDefNode', 'PassStatNode', 'ExprStatNode'):
                continue
            else:
                raise PyxUnsupported('class statement %s' % k)
        o.append('')


class Loader:
    """Declarations and translated modules of a repository tree."""

    def __init__(self, repo, numpy_proxy=None):
        self.repo = repo
        self.decls = {}
        self.trees = {}
        self.mods = {}
        self.layouts = None
        self.programs = {}
        self.npx = numpy_proxy or np
        self.used = set()
        self.sources = {}

    def path(self, name, ext):
        return os.path.join(self.repo, name.replace('.', '/') + ext)

    def decl(self, name):
        m = self.decls.get(name)
        if m is not None:
            return m
        pyx, pxd = self.path(name, '.pyx'), self.path(name, '.pxd')
        if not (os.path.exists(pyx) or os.path.exists(pxd)):
            raise FileNotFoundError(name)
        m = self.decls[name] = Module(self, name, pyx)
        if os.path.exists(pxd):
            m.collect(parse_file(pxd, name), True)
        if os.path.exists(pyx):
            tree = self.trees[name] = parse_file(pyx, name)
            m.collect(tree, False)
        return m

    def layout(self, struct):
        if self.layouts is None:
            hs = ['common.h', 'fmfield.h', 'refmaps.h', 'geommech.h',
                  'mesh.h', 'meshutils.h', 'refcoors.h', 'lagrange.h',
                  'nurbs.h', 'lobatto.h']
            inc = []
            for h in hs:
                for d in ('sfepy/discrete/common/extmods',
                          'sfepy/discrete/fem/extmods',
                          'sfepy/discrete/iga/extmods'):
                    p = os.path.join(self.repo, d, h)
                    if os.path.exists(p):
                        inc.append(p)
            self.layouts = llir.struct_layouts(self.repo, inc)
        return self.layouts[struct]

    COMMON = ['fmfield.c', 'geommech.c', 'common_python.c']
    C = 'sfepy/discrete/common/extmods/'

    def csources(self, name):
        """C files linked into an extension module (see CMakeLists.txt)."""
        c = self.C
        common = [c + x for x in self.COMMON]
        base = name.rsplit('.', 1)[-1]
        d = os.path.join(self.repo, *name.split('.')[:-1])
        if base == 'terms':
            return common + sorted(
                'sfepy/terms/extmods/' + f for f in os.listdir(d)
                if f.endswith('.c') and f != 'terms.c')
        if base == 'cmesh':
            return [c + x for x in ('geomtrans.c', 'mesh.c', 'meshutils.c',
                                    'sort.c', 'common_python.c')]
        if base == 'crefcoors':
            return common + [c + x for x in ('refcoors.c', 'geomtrans.c',
                                             'mesh.c', 'sort.c')]
        if base == 'bases':
            return common + [c + x for x in ('refcoors.c', 'geomtrans.c',
                                             'mesh.c', 'sort.c')] + \
                ['sfepy/discrete/fem/extmods/lagrange.c']
        if base == 'lobatto_bases':
            return common + ['sfepy/discrete/fem/extmods/lobatto.c',
                             'sfepy/discrete/fem/extmods/lobatto1d.c']
        if base == 'igac':
            return common + [c + x for x in ('refcoors.c', 'geomtrans.c',
                                             'mesh.c', 'sort.c')] + \
                ['sfepy/discrete/iga/extmods/nurbs.c']
        if base == 'ccontres':
            return common + ['sfepy/mechanics/extmods/contres.c']
        return common

    def program(self, name):
        srcs = self.csources(name)
        srcs = [s for s in srcs if os.path.exists(os.path.join(self.repo,
                                                               s))]
        key = tuple(srcs)
        p = self.programs.get(key)
        if p is None:
            texts = []
            need = [s for s in srcs if s not in self.sources]
            for s, t in zip(need, llir.compile_ll(self.repo, need)):
                self.sources[s] = t
            texts = [self.sources[s] for s in srcs]
            p = self.programs[key] = llir.Program(texts)
            p.srcs = srcs
        return p

    def wrappers(self, prog, m):
        """C macros / static inline functions declared as extern functions
        are made callable by generated C wrappers."""
        ext = {}
        seen = set()
        todo = [m]
        while todo:
            mm = todo.pop()
            if id(mm) in seen:
                continue
            seen.add(id(mm))
            todo += list(mm.imported.values()) + list(mm.modalias.values())
            for nm, (cname, t) in mm.externs.items():
                if t[0] == 'fun' and (None, cname) not in prog.table \
                        and cname not in prog.ext:
                    ext[cname] = t
        return ext

    def ctype(self, t):
        if t[0] == 'int':
            return {1: 'char', 4: 'int', 8: 'long'}[t[1]]
        if t[0] == 'flt':
            return 'double'
        if t[0] == 'ptr':
            return self.ctype(t[1]) + ' *'
        if t[0] == 'struct':
            return t[1]
        if t[0] == 'void':
            return 'void'
        raise PyxUnsupported('C type %r' % (t,))

    def add_macros(self, prog, m):
        ext = self.wrappers(prog, m)
        if not ext:
            return prog
        hs = ['common.h', 'fmfield.h', 'refmaps.h', 'geommech.h',
              'mesh.h', 'meshutils.h', 'refcoors.h']
        d0 = os.path.join(self.repo, self.C)
        heads = ''.join('#include "%s"\n' % os.path.join(d0, h)
                        for h in hs if os.path.exists(os.path.join(d0, h)))
        cand = {}
        for cname, t in ext.items():
            isdef = self.is_macro(cname, heads)
            if not isdef:
                continue
            try:
                args = ['%s a%d' % (self.ctype(x[1]), i)
                        for i, x in enumerate(t[2])]
                call = '%s(%s)' % (cname, ', '.join(
                    'a%d' % i for i in range(len(args))))
                if t[1][0] in ('void', 'obj') or cname.startswith(
                        'FMF_Set'):
                    cand[cname] = 'void symxw_%s(%s) { %s; }' % (
                        cname, ', '.join(args), call)
                else:
                    cand[cname] = '%s symxw_%s(%s) { return %s; }' % (
                        self.ctype(t[1]), cname, ', '.join(args), call)
            except (PyxUnsupported, KeyError):
                continue
        if not cand:
            return prog
        import tempfile
        with tempfile.TemporaryDirectory(prefix='symx_mw_') as tmp:
            fn = os.path.join(tmp, 'w.c')
            with open(fn, 'w') as fd:
                fd.write(heads + '\n'.join(cand.values()) + '\n')
            txt = llir.compile_ll(self.repo, [fn])[0]
        p = llir.Program([self.sources[x] for x in prog.srcs] + [txt])
        p.srcs = prog.srcs
        for k, v in list(self.programs.items()):
            if v is prog:
                self.programs[k] = p
        return p

    def is_macro(self, cname, heads):
        import re
        d0 = os.path.join(self.repo, self.C)
        for h in os.listdir(d0):
            if h.endswith('.h'):
                with open(os.path.join(d0, h)) as fd:
                    if re.search(r'#\s*define\s+%s\b' % re.escape(cname),
                                 fd.read()):
                        return True
        return False

    def module(self, name):
        mod = self.mods.get(name)
        if mod is not None:
            return mod
        m = self.decl(name)
        tree = self.trees[name]
        src = ModGen(m, tree).run()
        self.last_src = src
        mod = types.ModuleType(name)
        mod.__file__ = m.pyx
        prog = self.add_macros(self.program(name), m)
        mod.__prog__ = prog
        used = self.used
        # Variables holding C types of module-level code are rare.
        g = mod.__dict__

        def CF(cname):
            if (None, cname) in prog.table or cname in prog.ext:
                return prog.func(':' + cname)
            if (None, 'symxw_' + cname) in prog.table:
                return prog.func(':symxw_' + cname)
            raise PyxUnsupported('extern function %s not found' % cname)
        def CG(cname):
            for tr in prog.mods:
                if cname in tr.globals and not tr.globals[cname][1]:
                    return (prog.glob('%d:%s' % (tr.mod, cname)), 0)
            raise PyxUnsupported('extern variable %s not found' % cname)

        g.update(dict(
            CG=CG, LD=LD, LDP=LDP, ST=ST, PADD=PADD, NEW=NEW, ADDR=ADDR, MV=MV,
            ND=ND, CINT=CINT, CFLT=CFLT, NULL=NULL, FROMDATA=FROMDATA,
            h_icall=llir.h_icall, h_fptosi=llir.h_fptosi, CF=CF,
            NOTNONE=notnone, UNSUP=unsup, MODF=self.modf, NPX=lambda: self.npx,
            _f=lambda nm: used.add(name.rsplit('.', 1)[-1] + '.pyx:' + nm)))
        code = compile(src, '<pyx:%s>' % name, 'exec')
        self.mods[name] = mod
        exec(code, g)
        for k, v in list(g.items()):
            if isinstance(v, types.FunctionType) and not k.startswith('_') \
                    and v.__code__.co_filename.startswith('<pyx:') \
                    and k not in m.cfuncs and k not in ('CF',):
                g[k] = cython_function_or_method(v)
        return mod

    def modf(self, mod, name):
        return getattr(self.module(mod), name)


def unsup(name, msg):
    raise E.Concretisation('no translation of %s: %s' % (name, msg))


def notnone(v, name):
    if v is None:
        raise TypeError("Argument '%s' must not be None" % name)
    return v
