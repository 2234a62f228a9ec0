"""Import /repo's modules and rebind, in each of them, the names that stand for
numpy / scipy / lmfit / ... to their symbolic counterparts.  The bodies that
run are the ones in /repo's working tree."""
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

MODULES = ['misfit.general.general_utils', 'misfit.general.io', 'misfit.general.galaxy_utils',
           'misfit.instrument', 'misfit.galaxy', 'misfit.model.kin_functions',
           'misfit.model.kin_classes', 'misfit.model.aper_model', 'misfit.model.kin_model',
           'misfit.model.emission_lines_model', 'misfit.fit.fit_core', 'misfit.fit.fit_io',
           'misfit.fit.fit1D', 'misfit.fit.fit2D', 'misfit.mock.generate_basic',
           'misfit.plot.plot_utils', 'misfit.plot.plot_image_slit']


def prepare_env(jit):
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.environ.setdefault('ASTROPY_SKIP_CONFIG_UPDATE', '1')
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['NUMBA_DISABLE_JIT'] = '0' if jit else '1'
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')


def import_repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import misfit
    got = os.path.dirname(os.path.dirname(os.path.abspath(misfit.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError('misfit imported from %s, not %s' % (got, REPO))
    mods = {}
    for m in MODULES:
        mods[m] = importlib.import_module(m)
    # anything else the package has (refactorings may add modules)
    for name in list(sys.modules):
        if name.startswith('misfit') and sys.modules[name] is not None:
            mods[name] = sys.modules[name]
    return mods


def lift(mods):
    import math
    import numpy as np
    from . import arr, stubs
    import scipy.signal
    import scipy.stats
    from_np = {}
    for n in dir(arr.SHIM) + list(arr.SHIM.__dict__):
        v = arr.SHIM.__dict__.get(n)
        o = getattr(np, n, None)
        if v is not None and o is not None and callable(o):
            try:
                from_np[o] = v
            except TypeError:
                pass
    mathshim = types.ModuleType('math')
    mathshim.__dict__.update(math.__dict__)
    for n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan'):
        mathshim.__dict__[n] = arr.U1[n]
    mathshim.atan, mathshim.asin, mathshim.acos = arr.U1['arctan'], arr.U1['arcsin'], arr.U1['arccos']
    mathshim.radians, mathshim.degrees = arr.U1['radians'], arr.U1['degrees']
    mathshim.atan2 = arr.U2['arctan2']
    mathshim.hypot, mathshim.fabs = arr.e_hypot, arr.e_abs
    mathshim.pow = arr.e_pow
    mathshim.isfinite, mathshim.isnan = arr.e_isfinite, arr.e_isnan
    mathshim.fsum = lambda it: arr._psum([arr._el(x) for x in it])
    mathshim.copysign = lambda x, y: arr.e_abs(x) if bool(y >= 0) else -arr.e_abs(x)
    mathshim.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.: bool(
        arr.e_abs(a - b) <= arr.e_max(arr.e_max(arr.e_abs(a), arr.e_abs(b)) * rel_tol, abs_tol))
    mathshim.trunc = lambda x: int(x)
    mathshim.floor = lambda x: int(arr.U1['floor'](x))
    mathshim.ceil = lambda x: int(arr.U1['ceil'](x))

    import scipy
    import scipy.integrate
    import scipy.interpolate

    class Shim(types.ModuleType):
        """a module some of whose names are replaced"""
        def __init__(self, real, **names):
            types.ModuleType.__init__(self, real.__name__)
            self.__dict__.update(names, _real=real)

        def __getattr__(self, k):
            return getattr(self._real, k)
    sigshim = Shim(scipy.signal, fftconvolve=stubs.fftconvolve, convolve=stubs.fftconvolve, oaconvolve=stubs.fftconvolve)
    statshim = Shim(scipy.stats, norm=stubs.norm)
    itpshim = Shim(scipy.interpolate, interp1d=stubs.interp1d)
    trapz = arr.SHIM.trapezoid
    subs = [(np, arr.SHIM), (math, mathshim), (scipy.signal, sigshim), (scipy.stats, statshim),
            (scipy.interpolate, itpshim), (scipy.stats.norm, stubs.norm),
            (scipy.signal.fftconvolve, stubs.fftconvolve), (scipy.signal.convolve, stubs.fftconvolve),
            (scipy.signal.oaconvolve, stubs.fftconvolve), (scipy.interpolate.interp1d, stubs.interp1d),
            (scipy.integrate.trapezoid, trapz)]
    subs.append((scipy, Shim(scipy, signal=sigshim, stats=statshim, interpolate=itpshim)))
    for n, v in list(mathshim.__dict__.items()):
        o = math.__dict__.get(n)
        if callable(o) and v is not o:
            subs.append((o, v))
    subs = dict((id(o), (o, v)) for o, v in subs)
    np_funcs = {}
    for o, v in from_np.items():
        np_funcs[o] = v
    for name, m in mods.items():
        g = m.__dict__
        for k in list(g):
            v = g[k]
            if k.startswith('__'):
                continue
            if id(v) in subs:
                g[k] = subs[id(v)][1]
            elif callable(v) and getattr(v, '__module__', None) == 'numpy':
                try:
                    if v in np_funcs:
                        g[k] = np_funcs[v]
                except TypeError:
                    pass
        g['float'] = arr.SymFloat
    hook_imports(subs)
    return mods


def hook_imports(subs):
    """imports inside the lifted functions get the same counterparts"""
    import builtins
    plain = builtins.__import__

    class From(types.ModuleType):
        def __init__(self, real):
            types.ModuleType.__init__(self, real.__name__)
            self._real = real

        def __getattr__(self, k):
            v = getattr(self._real, k)
            return subs[id(v)][1] if id(v) in subs else v

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = plain(name, globals, locals, fromlist, level)
        if globals is not None and str(globals.get('__name__', '')).split('.')[0] == 'misfit':
            if id(m) in subs:
                return subs[id(m)][1]
            if fromlist and m.__name__.split('.')[0] in ('scipy', 'numpy', 'math'):
                return From(m)
        return m
    builtins.__import__ = imp


class Repo(object):
    """attribute access to the (lifted or real) modules for harnesses"""

    def __init__(self, mods):
        self.mods = mods
        g = mods.get
        self.kf = g('misfit.model.kin_functions')
        self.kc = g('misfit.model.kin_classes')
        self.km = g('misfit.model.kin_model')
        self.am = g('misfit.model.aper_model')
        self.el = g('misfit.model.emission_lines_model')
        self.ins = g('misfit.instrument')
        self.gal = g('misfit.galaxy')
        self.gu = g('misfit.general.galaxy_utils')
        self.utils = g('misfit.general.general_utils')
        self.io = g('misfit.general.io')
        self.fc = g('misfit.fit.fit_core')
        self.fio = g('misfit.fit.fit_io')
        self.f1 = g('misfit.fit.fit1D')
        self.f2 = g('misfit.fit.fit2D')
        self.mock = g('misfit.mock.generate_basic')
        self.misfit = sys.modules['misfit']

    def alias(self, mod):
        """every module object through which repo code may reach `mod` (the code
        imports some modules under two names)"""
        out = [mod]
        for m in self.mods.values():
            for v in list(m.__dict__.values()):
                if isinstance(v, types.ModuleType) and getattr(v, '__file__', None) and \
                        getattr(v, '__file__', None) == getattr(mod, '__file__', None) and v not in out:
                    out.append(v)
        return out
