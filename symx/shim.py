"""Makes the real ajdmom sources executable on symbolic values.

The sources are taken as they are: before the package is imported, the names the
sources obtain from the standard library (math.*, fractions.Fraction,
collections.UserDict, builtins.sum order etc.) are replaced by wrappers that behave
identically on ordinary values and dispatch to the proxies on symbolic ones.  For the
checks with symbolic dictionary keys, dict and set displays are in addition compiled to
containers with solver-decided key equality.
"""
import ast
import builtins
import collections
import fractions
import importlib
import importlib.machinery
import importlib.util
import math
import os
import sys

from . import core, lp
from .core import SInt
from .lp import LP, GP

REPO = os.environ.get('AJDMOM_REPO', '/repo')
sys.dont_write_bytecode = True

_o = {n: getattr(math, n) for n in ('exp', 'sqrt', 'comb', 'factorial', 'pow', 'prod',
                                   'log', 'expm1', 'fabs', 'isclose', 'fsum', 'perm', 'floor')}
RealFraction = fractions.Fraction


def symbolic(x):
    return isinstance(x, (LP, GP, SInt))


def is_mp(x):
    return type(x).__name__ == 'mpf'


def m_exp(x):
    if symbolic(x):
        return lp.sym_exp(x if not isinstance(x, SInt) else lp.to_lp(x))
    if is_mp(x):
        import mpmath
        return mpmath.exp(x)
    return _o['exp'](x)


def m_expm1(x):
    if symbolic(x) or is_mp(x):
        return m_exp(x) - 1
    return _o['expm1'](x)


def m_sqrt(x):
    if symbolic(x):
        return lp.sym_sqrt(x)
    if is_mp(x):
        import mpmath
        return mpmath.sqrt(x)
    return _o['sqrt'](x)


def m_pow(a, b):
    if symbolic(a) or symbolic(b) or is_mp(a) or is_mp(b):
        return a ** b
    return _o['pow'](a, b)


def m_fabs(a):
    return abs(a) if symbolic(a) or is_mp(a) else _o['fabs'](a)


def m_fsum(xs):
    xs = list(xs)
    if any(symbolic(x) or is_mp(x) for x in xs):
        r = 0
        for x in xs:
            r = r + x
        return r
    return _o['fsum'](xs)


def m_log(*a):
    if any(symbolic(x) for x in a):
        raise core.Unsupported('log of a symbolic value')
    return _o['log'](*a)


class _FracMeta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, RealFraction)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, RealFraction)

    def __getattr__(cls, name):
        return getattr(RealFraction, name)


class FractionShim(metaclass=_FracMeta):
    """Stands for fractions.Fraction inside the package; yields a symbolic quotient
    on symbolic arguments and an ordinary Fraction otherwise."""

    def __new__(cls, numerator=0, denominator=None, **kw):
        if symbolic(numerator) or symbolic(denominator):
            d = 1 if denominator is None else denominator
            return lp.to_lp(numerator) / lp.to_lp(d)
        if denominator is None:
            return RealFraction(numerator, **kw)
        return RealFraction(numerator, denominator, **kw)


class _FractionsModule:
    Fraction = FractionShim

    def __getattr__(self, n):
        return getattr(fractions, n)


def patch_fraction():
    """Rebind every reference to Fraction held by a loaded ajdmom module."""
    for name, m in list(sys.modules.items()):
        if name == 'ajdmom' or name.startswith('ajdmom.'):
            for k, v in list(vars(m).items()):
                if v is RealFraction:
                    setattr(m, k, FractionShim)
                elif v is fractions:
                    setattr(m, k, _FractionsModule())


class SymUserDict(collections.UserDict):
    """UserDict over an association list with solver-decided key equality."""

    def __init__(self, dict=None, /, **kwargs):
        self.data = core.SymDict()
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    __hash__ = None

    def copy(self):
        import copy
        return copy.copy(self)


class _Rewrite(ast.NodeTransformer):
    """Dictionary / set displays and constructors become containers whose key equality is
    decided by the solver; nothing else of the source changes."""
    CTOR = {'dict': 'symx_rt_dict', 'set': 'symx_rt_set', 'defaultdict': 'symx_rt_defaultdict',
            'OrderedDict': 'symx_rt_dict', 'Counter': 'symx_rt_counter', 'frozenset': 'symx_rt_set'}

    @staticmethod
    def call(fn, *args):
        return ast.Call(ast.Name(fn, ast.Load()), list(args), [])

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            parts = [self.call('symx_rt_dict', v) if k is None else
                     self.call('symx_rt_mk', ast.List([ast.Tuple([k, v], ast.Load())], ast.Load()))
                     for k, v in zip(n.keys, n.values)]
            r = parts[0]
            for q in parts[1:]:
                r = ast.BinOp(r, ast.BitOr(), q)
            return r
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return self.call('symx_rt_mk', ast.List(pairs, ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.call('symx_rt_mk', ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.call('symx_rt_set', ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.call('symx_rt_set', ast.ListComp(n.elt, n.generators))

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else (
            f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and
            f.value.id == 'collections' else None)
        if nm in self.CTOR:
            n.func = ast.Name(self.CTOR[nm], ast.Load())
        return n


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = _Rewrite().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(symx_rt_dict=core.mk_symdict, symx_rt_mk=core.mk_symdict_pairs,
                               symx_rt_set=core.SymSet, symx_rt_defaultdict=core.SymDefaultDict,
                               symx_rt_counter=core.mk_counter)
        super().exec_module(module)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'ajdmom' and not name.startswith('ajdmom.'):
            return None
        base = os.path.join(REPO, 'src', *name.split('.'))
        pk = os.path.join(base, '__init__.py')
        if os.path.exists(pk):
            return importlib.util.spec_from_file_location(name, pk, loader=_Loader(name, pk),
                                                          submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(name, base + '.py'))
        return None


def patch_math():
    math.exp, math.sqrt, math.pow, math.fabs = m_exp, m_sqrt, m_pow, m_fabs
    math.fsum, math.log, math.expm1 = m_fsum, m_log, m_expm1


def load(symbolic_keys=False, symbolic_fraction=False):
    """Import ajdmom from the repository's current working tree under the shims."""
    global FRACTION_SHIM
    FRACTION_SHIM = symbolic_fraction
    patch_math()
    if os.environ.get('SYMX_REPLAY'):
        # counterexamples are replayed on the code as it is
        symbolic_keys = False
        FRACTION_SHIM = False
    if symbolic_keys:
        collections.UserDict = SymUserDict
        sys.meta_path.insert(0, _Finder)
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    pkg = importlib.import_module('ajdmom')
    if not os.path.realpath(pkg.__file__).startswith(os.path.realpath(src)):
        raise RuntimeError('ajdmom was not imported from %s' % src)
    return pkg


FRACTION_SHIM = False


def reload(**kw):
    """load again in another mode (only inside a worker or replay process)"""
    for n in [n for n in sys.modules if n == 'ajdmom' or n.startswith('ajdmom.')]:
        del sys.modules[n]
    return load(**kw)


def mod(name):
    m = importlib.import_module('ajdmom.' + name if name else 'ajdmom')
    if FRACTION_SHIM:
        patch_fraction()
    return m


class Quiet:
    """Swallow prints of the code under test."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o
