"""Load welleng from the current source tree, either as it is (concrete) or
with numpy, math and scipy's geometry helpers replaced by the symbolic
stand-ins (symbolic).  Nothing of the repository is copied or edited: the
source text is read from disk, compiled and executed on every run."""
from __future__ import annotations
import ast
import importlib
import importlib.abc
import importlib.util
import inspect
import os
import sys
import textwrap
import types
import warnings

REPO = os.environ.get('WELLENG_REPO', '/repo')

# imported for real before anything is swapped
_PRE = ['numpy', 'numpy.typing', 'numpy.linalg', 'numpy.char', 'math', 'scipy',
        'scipy.spatial', 'scipy.spatial.distance', 'scipy.spatial.transform',
        'scipy.optimize', 'scipy.signal', 'scipy.interpolate', 'pandas',
        'pint', 'yaml', 'json', 'pyproj', 'pyproj.enums', 'vedo', 'trimesh',
        'networkx', 'openpyxl', 'magnetic_field_calculator', 'matplotlib',
        'copy', 'datetime', 'typing', 're', 'ast', 'statistics', 'itertools',
        'functools', 'dataclasses', 'pathlib', 'collections', 'numbers',
        'xml.etree.ElementTree', 'decimal', 'fractions', 'cmath', 'utm',
        'plotly', 'numba']


class _Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path, inject):
        self.path, self.inject = path, inject

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def path_stats(self, path):
        raise OSError

    def exec_module(self, module):
        code = compile(self.get_data(self.path), self.path, 'exec',
                       dont_inherit=True)
        module.__dict__.update(self.inject)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, inject):
        self.repo, self.inject = repo, inject

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'welleng' and not fullname.startswith('welleng.'):
            return None
        base = os.path.join(self.repo, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f, self.inject),
                submodule_search_locations=[base])
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            f = base + '.py'
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f, self.inject))
        return None


def _stub_missing():
    # vedo drags in a renderer that is slow to import and irrelevant here
    pass


def preload():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for n in _PRE:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                importlib.import_module(n)
        except Exception:
            pass


def _purge():
    for n in [n for n in sys.modules if n == 'welleng' or n.startswith('welleng.')]:
        del sys.modules[n]


def defer(cls, name):
    """Run method `name` of a Survey when one of the attributes it provides
    is first read, not at construction: the many surveys built on the way to
    other results then do not fork on the signs of their toolfaces."""
    orig = cls.__dict__.get(name)
    if orig is None:
        return

    def later(self, *a, **k):
        self.__dict__.setdefault('_deferred', []).append((name, a, k))

    def missing(self, attr):
        todo = self.__dict__.get('_deferred')
        if attr.startswith('__') or not todo:
            raise AttributeError(f'{type(self).__name__!r} object has no '
                                 f'attribute {attr!r}')
        i = [j for j, t in enumerate(todo) if attr in cls._sets[t[0]]]
        nm, a, k = todo.pop(i[0] if i else 0)
        had = dict(self.__dict__)
        cls._eager[nm](self, *a, **k)
        had['_deferred'] = todo
        self.__dict__.update(had)
        return getattr(self, attr)

    if '_eager' not in cls.__dict__:
        cls._eager, cls._sets = {}, {}
    cls._eager[name] = orig
    tree = ast.parse(textwrap.dedent(inspect.getsource(orig)))
    cls._sets[name] = {n.attr for n in ast.walk(tree)
                       if isinstance(n, ast.Attribute)
                       and isinstance(n.ctx, ast.Store)}
    setattr(cls, name, later)
    cls.__getattr__ = missing


def load(symbolic, repo=None, only=None):
    """Return a namespace of freshly loaded welleng modules."""
    repo = repo or REPO
    preload()
    _purge()
    inject, swaps = {}, {}
    if symbolic:
        from . import symnp, stubs
        inject = dict(symnp.BUILTINS)
        swaps = stubs.swaps()
    f = _Finder(repo, inject)
    saved = {n: sys.modules.get(n) for n in swaps}
    restore_attr = []
    sys.meta_path.insert(0, f)
    try:
        sys.modules.update(swaps)
        for n, m in swaps.items():
            # "from scipy import optimize" goes through the parent's attribute
            if '.' in n and not n.startswith('numpy'):
                par, leaf = n.rsplit('.', 1)
                p = sys.modules.get(par)
                if p is not None and p not in swaps.values():
                    restore_attr.append((p, leaf, getattr(p, leaf, None)))
                    setattr(p, leaf, m)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            importlib.import_module('welleng')
            for n in ('errors.interpreter', 'errors.copsegrove', 'exchange.wbp',
                      'exchange.edm', 'errors.tool_errors'):
                importlib.import_module('welleng.' + n)
        mods = {n: m for n, m in sys.modules.items()
                if n == 'welleng' or n.startswith('welleng.')}
    finally:
        sys.meta_path.remove(f)
        for n, m in saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        for p, leaf, v in restore_attr:
            setattr(p, leaf, v)
    W = types.SimpleNamespace()
    W.__dict__['_mods'] = mods
    for n, m in mods.items():
        leaf = n.split('.')[-1]
        if n != 'welleng':
            W.__dict__[leaf] = m
    W.pkg = mods['welleng']
    # the header would ask a web service for the magnetic field
    W.survey.MAG_CALC = False
    if symbolic:
        for n in ('_get_toolface_and_rates', '_get_vertical_section'):
            defer(W.survey.Survey, n)
    return W
