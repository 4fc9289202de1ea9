"""Loads the transformed modules of /repo for one symbolic run."""
import importlib
import os
import sys
import types
from . import models, transform, terms as tm
from .terms import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}
SRC = {}
NATIVE = {'sympy', 'sympy.matrices', 'copy', 'collections', 're', 'functools', 'itertools', 'pathlib', 'os', 'os.path', 'sys', 'abc', 'types', 'string', 'enum', 'dataclasses', 'typing',
          'datetime', 'struct', 'warnings', 'shlex', 'operator', 'numbers', 'contextlib', 'math_'}


def path_of(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        q = os.path.join(p, '__init__.py')
        return q, True
    return p + '.py', False


def exists(name):
    return os.path.exists(path_of(name)[0]) or os.path.isdir(os.path.join(REPO, *name.split('.')))


def code(name):
    if name not in _code:
        p, pkg = path_of(name)
        if not os.path.exists(p):
            _code[name] = compile('', p, 'exec')
        else:
            src = open(p).read()
            SRC[name] = src
            _code[name] = transform.transform(src, p)
    return _code[name]


def load(E, name):
    m = E.modules.get(name)
    if m is not None:
        return m
    p, pkg = path_of(name)
    m = types.ModuleType(name)
    m.__file__ = p
    m.__package__ = name if pkg else name.rpartition('.')[0]
    if pkg:
        m.__path__ = [os.path.dirname(p)]
    E.modules[name] = m
    E.vmodules.add(name)
    if name in ('rsbeams', 'rsbeams.pkcli'):
        return m                # package __init__ only sets version metadata
    if E.bdict is None:
        E.bdict = models.make_builtins(E)
    m.__dict__['__builtins__'] = E.bdict
    exec(code(name), m.__dict__)
    return m


def importer(E):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'rsbeams' or name.startswith('rsbeams.'):
            if not exists(name):
                raise ImportError('No module named %r' % name)
            m = load(E, name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and exists(name + '.' + f):
                        setattr(m, f, load(E, name + '.' + f))
                return m
            parts = name.split('.')
            root = load(E, parts[0])
            cur = root
            for i in range(1, len(parts)):
                sub = load(E, '.'.join(parts[:i + 1]))
                setattr(cur, parts[i], sub)
                cur = sub
            return root
        m = external(E, name)
        if fromlist or '.' not in name:
            return m
        return external(E, name.split('.')[0])
    return imp


def external(E, name):
    m = E.ext.get(name)
    if m is None:
        m = E.ext[name] = make_external(E, name)
    return m


def make_external(E, name):
    if name in E.ext_override:
        return E.ext_override[name](E)
    if name == 'numpy':
        return models.np_mod()
    if name == 'math':
        return models.math_mod()
    if name == 'scipy.constants':
        return models.constants(E)
    if name == 'scipy':
        np = models.np_mod()
        return models.Mod('scipy', constants=external(E, 'scipy.constants'), zeros=np.zeros, average=np.average, sqrt=np.sqrt,
                          stats=models.Opaque('scipy.stats'), interpolate=models.Opaque('scipy.interpolate'), optimize=external(E, 'scipy.optimize'),
                          integrate=external(E, 'scipy.integrate'), special=external(E, 'scipy.special'))
    if name == 'random':
        return models.Mod('random', random=models.np_random('random', models.unit), seed=lambda *a: None)
    if name == '__future__':
        import __future__
        return __future__
    if name == 'future.utils':
        return models.Mod(name, iteritems=lambda d: list(d.items()), string_types=str)
    if name == 'future.builtins':
        return models.Mod(name, str=models.m_strc)
    if name == 'pykern.pkcollections':
        return models.Mod(name, PKDict=PKDict)
    if name == 'argparse':
        return models.Mod(name, ArgumentParser=ArgStub)
    if name == 'copy':
        return models.Mod(name, copy=m_copy, deepcopy=m_deepcopy)
    if name == 're':
        from . import regex
        return regex.Re()
    if name in NATIVE:
        return importlib.import_module(name)
    return models.Opaque(name)


def m_copy(x):
    import copy
    from .engine import SymList
    from .arrays import Arr
    if isinstance(x, SymList):
        return SymList(x.raw())
    if isinstance(x, Arr):
        return x.copy()
    return copy.copy(x)


def m_deepcopy(x):
    from .engine import subst_value
    return subst_value(x, {'!none': tm.ZERO})


class ArgStub:
    def __init__(self, *a, **k):
        pass

    def add_mutually_exclusive_group(self, *a, **k):
        return self

    def add_argument(self, *a, **k):
        pass


class PKDict(dict):
    _carry = True

    def __getattr__(self, n):
        if n in self:
            return self[n]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        self[n] = v

    def copy(self):
        return PKDict(self)
