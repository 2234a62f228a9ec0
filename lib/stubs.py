"""Symbolic counterparts of the scipy routines the lifted code calls."""
import math
import numpy as np
from . import sym as S
from . import arr as A
from .sym import Sym, Unsupported


def sym_convolve(a, b, mode='full'):
    """direct-definition N-d convolution (what fftconvolve computes exactly)"""
    a, b = A.mkarr(a), A.mkarr(b)
    if a.ndim != b.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    if a.size == 0 or b.size == 0:
        return A.mkarr(np.array([]))
    pa, pb = A.plain(a), A.plain(b)
    full = tuple(x + y - 1 for x, y in zip(pa.shape, pb.shape))
    if mode == 'full':
        start, shp = (0,) * a.ndim, full
    elif mode == 'same':
        shp = pa.shape
        start = tuple((f - s) // 2 for f, s in zip(full, shp))
    elif mode == 'valid':
        big = all(x >= y for x, y in zip(pa.shape, pb.shape))
        if not big:
            pa, pb = pb, pa
        shp = tuple(x - y + 1 for x, y in zip(pa.shape, pb.shape))
        start = tuple((f - s) // 2 for f, s in zip(full, shp))
    else:
        raise ValueError('mode')
    acc = {}
    for kx in np.ndindex(*pb.shape):
        kv = A._el(pb[kx])
        if not A.issym(kv) and kv == 0:
            continue
        for ox in np.ndindex(*shp):
            ix = tuple(o + s - k for o, s, k in zip(ox, start, kx))
            if any(i < 0 or i >= n for i, n in zip(ix, pa.shape)):
                continue
            v = A._el(pa[ix])
            if not A.issym(v) and v == 0:
                continue
            acc.setdefault(ox, []).append(A.e_mul(v, kv))
    out = np.empty(shp, dtype=object)
    for ox in np.ndindex(*shp):
        r = A._psum(acc.get(ox, []))
        out[ox] = float(r) if not A.issym(r) else r
    return out.view(A.SArr)


def fftconvolve(in1, in2, mode='full', axes=None):
    if axes is not None:
        a, b = A.mkarr(in1), A.mkarr(in2)
        ax = [axes] if isinstance(axes, int) else list(axes)
        ax = [x % a.ndim for x in ax]
        other = [i for i in range(a.ndim) if i not in ax]
        a2 = np.transpose(A.plain(a), other + ax)
        b2 = np.transpose(A.plain(b), other + ax)
        lead = np.broadcast_shapes(a2.shape[:len(other)], b2.shape[:len(other)])
        a2 = np.broadcast_to(a2, lead + a2.shape[len(other):])
        b2 = np.broadcast_to(b2, lead + b2.shape[len(other):])
        outs = None
        for ix in np.ndindex(*lead):
            r = sym_convolve(A.mkarr(a2[ix]), A.mkarr(b2[ix]), mode)
            if outs is None:
                outs = np.empty(lead + r.shape, dtype=object)
            outs[ix] = A.plain(r)
        inv = np.argsort(other + ax)
        return A.mkarr(np.transpose(outs, inv))
    return sym_convolve(A.mkarr(in1), A.mkarr(in2), mode)


class Norm(object):
    """scipy.stats.norm"""
    def pdf(self, x, loc=0., scale=1.):
        loc, scale = A.e_num(loc), A.e_num(scale)
        lo, hi = (scale.p.interval() if isinstance(scale, Sym) else (scale, scale))
        if not isinstance(scale, Sym) and not scale > 0:
            return A.apply1(lambda v: float('nan'), x)
        if isinstance(scale, Sym) and lo <= 0 and not (scale > 0):
            return A.apply1(lambda v: float('nan'), x)

        def f(v):
            u = A.e_div(A.e_sub(v, loc), scale)
            return A.e_div(A.U1['exp'](A.e_mul(A.e_mul(u, u), -0.5)), A.e_mul(scale, math.sqrt(2 * math.pi)))
        return A.apply1(f, x)

    def __getattr__(self, k):
        from scipy.stats import norm
        fn = getattr(norm, k)

        def g(*a, **kw):
            if A._tree_sym(a) or A._tree_sym(tuple(kw.values())):
                raise Unsupported('scipy.stats.norm.' + k)
            return fn(*A._tree_lower(a), **kw)
        return g


norm = Norm()


class interp1d(object):
    """scipy.interpolate.interp1d, linear"""
    def __new__(cls, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        from scipy.interpolate import interp1d as real
        if not (A._tree_sym(x) or A._tree_sym(y)):
            x, y = A._tree_lower(x), A._tree_lower(y)
        if kind not in ('linear', 'slinear', 1) or A.mkarr(y).ndim != 1 or (isinstance(fill_value, str) and fill_value == 'extrapolate'):
            if A._tree_sym(x) or A._tree_sym(y):
                raise Unsupported('interp1d of kind %s' % kind)
            f = real(x, y, kind, axis, copy, bounds_error, fill_value, assume_sorted)

            def g(v):
                if A._tree_sym(v):
                    raise Unsupported('interp1d')
                return A.SHIM.asarray(f(A._tree_lower(v)))
            return g
        if not assume_sorted and not A._tree_sym(x):
            o = np.argsort(np.asarray(x, dtype=float), kind='stable')
            x, y = A.mkarr(x)[o], A.mkarr(y)[o]
        if isinstance(fill_value, tuple):
            below, above = fill_value
        else:
            below = above = fill_value
        err = bounds_error is True or (bounds_error is None and below is above and isinstance(below, float) and below != below)

        def f(v):
            a = A.mkarr(v)
            xs = A.mkarr(x)
            if err:
                for e in A.plain(a).ravel():
                    if bool(e < xs[0]) or bool(e > xs[-1]):
                        raise ValueError('A value in x_new is outside the interpolation range.')
            return A.SHIM.interp(a, x, y, left=below, right=above)
        return f
