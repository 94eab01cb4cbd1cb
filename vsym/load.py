"""
Loads pmesh's own source files from /repo.

SymEnv: Python modules are executed from source with numpy replaced by the symbolic facade, the
Cython modules are translated and the C code runs in the LLVM interpreter.
RealEnv: the modules as built (compiled extensions), with real numpy; MPI and PFFT are the same
in-process stand-ins.
"""
import ast
import builtins
import hashlib
import importlib
import os
import shutil
import subprocess
import sys
import tempfile
import types
import numpy as np
from . import core, llvm, cyx, mpi, snp
from .core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')

CSRC = {
    '_window': (['_window_imp.c'], []),
    '_whitenoise': (['_whitenoise_imp.c', 'gsl/ranlxd.c', 'gsl/missing.c', 'gsl/rng.c'], []),
    '_invariant': (['_invariant_imp.c'], []),
    '_domain': ([], []),
}

_MODCACHE = {}


def cmodule(name, repo):
    key = (name, repo)
    if key not in _MODCACHE:
        srcs, defs = CSRC.get(name, ([], []))
        p = os.path.join(repo, 'pmesh')
        files = [os.path.join(p, s) for s in srcs]
        if not files:
            _MODCACHE[key] = llvm.Module([])
        else:
            import sysconfig
            try:
                _MODCACHE[key] = llvm.Module.compile(files, [p, os.path.join(p, 'gsl'), sysconfig.get_paths()['include']], defs)
            except RuntimeError as e:
                raise Unsupported(str(e))
    return _MODCACHE[key]


class Pfft(types.ModuleType):
    pass


def jit_identity(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


SCALARS = set(k for k in dir(np) if isinstance(getattr(np, k), type) and issubclass(getattr(np, k), np.generic))


def _cast(f, x):
    """f(x) where f may be a scalar type of numpy"""
    if isinstance(f, type) and issubclass(f, np.generic):
        if isinstance(x, (snp.SArr, snp.PartView)):
            x = x.get() if isinstance(x, snp.PartView) else x
            return x.astype(f) if x.ndim else snp.scal(snp.coerce(x[()], np.dtype(f)), np.dtype(f))
        if isinstance(x, (core.SNum, core.SCplx)):
            return snp.scal(snp.coerce(x, np.dtype(f)), np.dtype(f))
        if isinstance(x, (list, tuple)) and snp.has_sym(x):
            return snp.snp.array(x).astype(f)
        return snp.wrap(f(x))
    return f(x)


class _Casts(ast.NodeTransformer):
    """float(x) and complex(x) keep symbolic numbers"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('float', 'complex') and len(n.args) == 1 and not n.keywords:
            n.func.id = '__sym_' + n.func.id + '__'
        elif isinstance(n.func, ast.Attribute) and n.func.attr in SCALARS and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__sym_cast__', ast.Load()), n.func), [n.func] + n.args, []), n)
        return n


def _tofloat(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, core.SCplx):
        raise TypeError("can't convert complex to float")
    return x if isinstance(x, core.SNum) else float(x)


def _tocomplex(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    return core.SCplx.of(x) if isinstance(x, (core.SNum, core.SCplx)) else complex(x)


class SymEnv(object):
    symbolic = True
    _trans = {}

    def __init__(self, repo=REPO, tables_uf=False, pfft=None, externs=None):
        self.repo = repo
        self.np = snp.snp
        self.MPI = mpi._MPIModule()
        self.mods = {}
        self.vms = {}
        self.tables_uf = tables_uf
        self.pfft = pfft
        self.externs = externs or {}
        self.pkg = types.ModuleType('pmesh')
        self.pkg.__path__ = []
        self.sources = set()
        self.bi = dict(builtins.__dict__)
        self.bi['__import__'] = self._import
        self.bi['__sym_cast__'] = _cast
        self.bi['__sym_float__'] = _tofloat
        self.bi['__sym_complex__'] = _tocomplex
        self.stub = {}
        for k, f in snp.BUILTINS.items():
            self.bi[k] = f

    def vm(self, name):
        if name not in self.vms:
            v = llvm.VM(cmodule(name, self.repo), externs=self.externs.get(name), tables_uf=self.tables_uf)
            v.override = tuple(self.externs.get(name, ()))
            self.vms[name] = v
        return self.vms[name]

    def spmd(self, n, fn):
        return mpi.spmd(n, fn)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        base = os.path.join(self.repo, 'pmesh')
        py = os.path.join(base, name + '.py')
        pyx = os.path.join(base, name + '.pyx')
        m = types.ModuleType('pmesh.' + name)
        self.mods[name] = m
        setattr(self.pkg, name, m)
        if os.path.exists(pyx):
            tmp = tempfile.mkdtemp(prefix='vq')
            try:
                g, code, tr = cyx.load_pyx(name, pyx, [base, os.path.join(base, 'gsl')], tmp, lambda: self.vm(name), self.bi)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            m.__dict__.update({k: v for k, v in g.items() if k != '__builtins__'})
            self.sources.add(pyx)
        elif os.path.exists(py):
            with open(py) as f:
                src = f.read()
            m.__dict__['__builtins__'] = self.bi
            m.__dict__['__name__'] = 'pmesh.' + name
            m.__dict__['__package__'] = 'pmesh'
            m.__dict__['__file__'] = py
            self.sources.add(py)
            exec(compile(_Casts().visit(ast.parse(src, py)), py, 'exec'), m.__dict__)
        else:
            raise Unsupported('no source for pmesh.%s' % name)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == 'pmesh' or name.startswith('pmesh.'):
            if level == 0:
                name = name[6:] if name.startswith('pmesh.') else ''
            if name:
                m = self.load(name.split('.')[0])
                return m if fromlist or level > 0 else self.pkg
            for f in fromlist or ():
                if os.path.exists(os.path.join(self.repo, 'pmesh', f + '.py')) or os.path.exists(os.path.join(self.repo, 'pmesh', f + '.pyx')):
                    self.load(f)
                elif not hasattr(self.pkg, f) and f == '__version__':
                    self.pkg.__version__ = '0'
            return self.pkg
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy' or not fromlist:
                return self.np
            r = self.np
            for p in name.split('.')[1:]:
                r = getattr(r, p)
            return r
        if top == 'mpi4py':
            ns = types.ModuleType('mpi4py')
            ns.MPI = self.MPI
            return ns if name == 'mpi4py' else self.MPI
        if top == 'pfft':
            if self.pfft is None:
                raise ImportError('pfft')
            return self.pfft
        if top == 'mpsort':
            if 'mpsort' not in self.stub:
                raise ImportError('mpsort')
            return self.stub['mpsort']
        if top == 'numba':
            ns = types.ModuleType('numba')
            ns.jit = ns.njit = jit_identity
            ns.float64 = ns.float32 = ns.int32 = ns.int64 = ns.void = None
            return ns
        if top == 'math':
            return snp.MATH
        if top in self.stub:
            return self.stub[top]
        return builtins.__import__(name, globals, locals, fromlist, level)


class RealEnv(object):
    symbolic = False

    def __init__(self, path, pfft=None, stub=None):
        self.np = np
        self.MPI = mpi._MPIModule()
        self.path = path
        ns = types.ModuleType('mpi4py')
        ns.MPI = self.MPI
        sys.modules['mpi4py'] = ns
        sys.modules['mpi4py.MPI'] = self.MPI
        if pfft is not None:
            sys.modules['pfft'] = pfft
        for k, v in (stub or {}).items():
            sys.modules[k] = v
        self.stub = stub or {}
        sys.dont_write_bytecode = True
        sys.path.insert(0, path)
        # a bare package: its __init__ would import every module, compiled or not
        pkg = types.ModuleType('pmesh')
        pkg.__path__ = [os.path.join(path, 'pmesh')]
        pkg.__version__ = '0'
        sys.modules['pmesh'] = pkg

    def spmd(self, n, fn):
        return mpi.spmd(n, fn)

    def load(self, name):
        return importlib.import_module('pmesh.' + name)
