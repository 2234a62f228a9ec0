"""Object arrays of Sym, and the stand-in for the `numpy` module that the
lifted code sees.  Structural operations are numpy's own (on dtype=object);
arithmetic, comparisons and reductions are applied element by element."""
import math
import types
import functools
import numpy as np
from . import sym as S
from .sym import Sym, SymBool, Unsupported, s_ite, s_cmp

ND = np.ndarray


def issym(x):
    return isinstance(x, (Sym, SymBool))


class SArr(np.ndarray):
    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, types_, args, kwargs)

    # ---- indexing
    def __getitem__(self, k):
        k, cond = _fixkey(self, k, get=True)
        if isinstance(cond, list):
            raise Unsupported('symbolic index')
        r = ND.__getitem__(self.view(ND), k)
        return mkarr(r) if isinstance(r, ND) else r

    def __setitem__(self, k, v):
        k2, cond = _fixkey(self, k, get=False)
        base = self.view(ND)
        if isinstance(v, ND):
            v = plain(v)
        elif isinstance(v, (list, tuple)):
            v = plain(mkarr(np.array(v, dtype=object)))
        if cond is None:
            if isinstance(v, ND) and v.ndim == 0:
                v = v.item()
            ND.__setitem__(base, k2, v)
            return
        # symbolic boolean mask: element-wise if-then-else
        mask = cond
        if isinstance(v, ND) and v.ndim > 0 and v.size != 1:
            # values are consumed in order: need a concrete mask
            m = concrete_mask(mask)
            ND.__setitem__(base, m, v)
            return
        if isinstance(v, ND):
            v = v.reshape(-1)[0]
        if mask.ndim == base.ndim:
            it = np.ndindex(*mask.shape)
            for ix in it:
                c = mask[ix]
                if c is False or (not issym(c) and not c):
                    continue
                base[ix] = v if not issym(c) else s_ite(c, v, base[ix])
        else:
            for ix in np.ndindex(*mask.shape):
                c = mask[ix]
                sub = base[ix]
                for jx in np.ndindex(*sub.shape):
                    if not issym(c):
                        if c:
                            sub[jx] = v
                    else:
                        sub[jx] = s_ite(c, v, sub[jx])

    # ---- methods
    def astype(self, t, *a, **k):
        return arr_astype(self, t)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.add, self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.multiply, self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_and, self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_or, self, axis, keepdims)

    def argmax(self, axis=None, out=None, **k):
        return f_arg(self, axis, '>')

    def argmin(self, axis=None, out=None, **k):
        return f_arg(self, axis, '<')

    def std(self, axis=None, ddof=0, **k):
        return f_std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return f_var(self, axis=axis, ddof=ddof)

    def cumsum(self, axis=None, **k):
        return f_cumsum(self, axis)

    def dot(self, o):
        return f_dot(self, o)

    def round(self, decimals=0, **k):
        return f_round(self, decimals)

    def clip(self, lo=None, hi=None, **k):
        return f_clip(self, lo, hi)

    def nonzero(self):
        return f_nonzero(self)

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis)

    def argsort(self, axis=-1, **k):
        return f_argsort(self, axis)

    def tolist(self):
        return self.view(ND).tolist()

    def fill(self, v):
        self[...] = v

    def copy(self, *a, **k):
        return mkarr(self.view(ND).copy())

    def __deepcopy__(self, memo):
        r = np.empty(self.shape, dtype=object)
        r[...] = self.view(ND)
        return mkarr(r)

    def __matmul__(self, o):
        return f_dot(self, o)

    def __rmatmul__(self, o):
        return f_dot(o, self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self.view(ND).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.view(ND).reshape(-1)[0]

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.view(ND).reshape(-1)[0])

    def __repr__(self):
        return 'SArr' + repr(self.view(ND))

    def __reduce__(self):
        return (mkarr, (self.view(ND).copy(),))


def plain(x):
    return x.view(ND) if isinstance(x, SArr) else x


def mkarr(x):
    """object SArr with Python floats / Syms / bools as elements"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, ND):
        if x.dtype == object:
            return x.view(SArr)
        if x.dtype.kind == 'c':
            return x
        if x.dtype.kind in 'SUVmM' or x.dtype.names:
            return x
        return x.astype(object).view(SArr)
    a = np.array(x, dtype=object)
    return a.view(SArr)


def flat(x):
    return plain(x).reshape(-1)


def anysym(x):
    if isinstance(x, ND):
        if x.dtype != object:
            return False
        for e in flat(x):
            if isinstance(e, (Sym, SymBool)):
                return True
        return False
    return issym(x)


def lower(x):
    """object array without symbolic elements -> numeric ndarray"""
    if not isinstance(x, ND) or x.dtype != object:
        return x
    x = plain(x)
    f = x.reshape(-1)
    if all(isinstance(e, (bool, np.bool_)) for e in f) and f.size:
        return x.astype(bool)
    if all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in f) and f.size:
        return x.astype(int)
    if any(isinstance(e, (str, bytes)) or e is None for e in f):
        return x
    try:
        return x.astype(float)
    except (TypeError, ValueError):
        return x


def finish(r):
    """post-process a result: 0-d -> scalar, all-concrete bool -> bool ndarray"""
    if isinstance(r, ND):
        if r.ndim == 0:
            r = r.item() if r.dtype == object else r[()]
            return np.bool_(r) if isinstance(r, bool) else r
        if r.dtype == object:
            f = plain(r).reshape(-1)
            if f.size and all(isinstance(e, (bool, np.bool_)) for e in f):
                return plain(r).astype(bool)
            return r.view(SArr)
    return r


def concrete_mask(m):
    """fork each element of a symbolic boolean array to a concrete bool"""
    m = plain(m)
    if m.dtype != object:
        return m
    r = np.empty(m.shape, dtype=bool)
    rf, mf = r.reshape(-1), m.reshape(-1)
    for i, e in enumerate(mf):
        rf[i] = bool(e)
    return r


def _is_boolish(a):
    f = flat(a)
    return f.size > 0 and all(isinstance(e, (SymBool, bool, np.bool_)) for e in f)


def _intarr(a):
    f = flat(a)
    out = np.empty(f.shape, dtype=int)
    for i, e in enumerate(f):
        if isinstance(e, Sym):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(e, (float, np.floating)):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        out[i] = e
    return out.reshape(a.shape)


def _fixkey(arr, k, get):
    """normalise an index; returns (key, symbolic mask or None)"""
    if isinstance(k, WhereResult):
        if k.mask is not None and not get:
            return None, k.mask
        k = k.tup()
    if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], (SArr, ND)) and k[0].dtype == object:
        k = k[0]
    if isinstance(k, WhereIdx):
        if not get and k.mask.ndim <= arr.ndim:
            return None, k.mask
        k = k.arr()
    if isinstance(k, SymBool):
        k = bool(k)
    if isinstance(k, SArr) or (isinstance(k, ND) and k.dtype == object):
        if k.size == 0:
            return np.zeros(k.shape, dtype=int), None
        if _is_boolish(k):
            if anysym(k):
                if get:
                    return concrete_mask(k), None
                return None, plain(k)
            return lower(k), None
        return _intarr(k), None
    if isinstance(k, tuple):
        out = []
        for e in k:
            if isinstance(e, WhereIdx):
                e = e.arr()
            if isinstance(e, SArr) or (isinstance(e, ND) and e.dtype == object):
                if e.size == 0:
                    e = np.zeros(e.shape, dtype=int)
                elif _is_boolish(e):
                    e = concrete_mask(e)
                else:
                    e = _intarr(e)
            elif isinstance(e, Sym):
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                                 'and integer or boolean arrays are valid indices')
            elif isinstance(e, list):
                e = _fixlist(e)
            out.append(e)
        return tuple(out), None
    if isinstance(k, list):
        return _fixlist(k), None
    if isinstance(k, (Sym, float)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                         'and integer or boolean arrays are valid indices')
    return k, None


def _fixlist(e):
    return [bool(x) if isinstance(x, SymBool) else x for x in e]


class WhereResult(tuple):
    """np.where(mask): behaves as the tuple of index arrays; indices are made
    concrete only when someone looks at them (assignment keeps the mask)."""
    def __new__(cls, mask):
        m = plain(mask)
        n = max(m.ndim, 1)
        self = tuple.__new__(cls, [None] * n)
        self.mask = m if m.dtype == object else None
        self._t = None
        self._m = m
        return self

    def tup(self):
        if self._t is None:
            self._t = tuple(np.nonzero(concrete_mask(self._m)))
        return self._t

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.tup()[i]
        if self.mask is not None and self._m.ndim == 1 and i in (0, -1):
            return self.tup()[i]
        return self.tup()[i]

    def __iter__(self):
        return iter(self.tup())

    def __len__(self):
        return self._m.ndim


class WhereIdx(object):
    pass


# --------------------------------------------------------------------------
# element functions

def e_num(x):
    if isinstance(x, SymBool):
        return S.bool_to_sym(x)
    return x


def e_add(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a or b)
    return e_num(a) + e_num(b)


def e_sub(a, b):
    return e_num(a) - e_num(b)


def e_mul(a, b):
    ab = isinstance(a, (bool, np.bool_, SymBool))
    bb = isinstance(b, (bool, np.bool_, SymBool))
    if ab and bb:
        return S.b_and(a, b)
    return e_num(a) * e_num(b)


def e_div(a, b):
    a, b = e_num(a), e_num(b)
    if issym(a) or issym(b):
        return S.s_div(a, b)
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def e_pow(a, b):
    a, b = e_num(a), e_num(b)
    if issym(a) or issym(b):
        return S.s_pow(a, b)
    with np.errstate(all='ignore'):
        r = np.power(a if isinstance(a, int) and isinstance(b, int) and b >= 0 else np.float64(a), b)
    return r.item() if hasattr(r, 'item') else r


def _cmpf(op):
    import operator
    f = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
         '==': operator.eq, '!=': operator.ne}[op]

    def g(a, b):
        if issym(a) or issym(b):
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                if op == '==' and isinstance(a, SymBool):
                    return a == b
                if op == '==' and isinstance(b, SymBool):
                    return b == a
                if op == '!=':
                    return S.b_not(b == a if isinstance(b, SymBool) else a == b)
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op == '!='
            return s_cmp(e_num(a), e_num(b), op)
        return bool(f(a, b))
    return g


def e_max(a, b):
    a, b = e_num(a), e_num(b)
    if not issym(a) and not issym(b):
        return a if (a != a or a >= b) else b
    if not issym(a) and a != a or not issym(b) and b != b:
        return float('nan')
    c = s_cmp(a, b, '>=')
    return s_ite(c, a, b)


def e_min(a, b):
    a, b = e_num(a), e_num(b)
    if not issym(a) and not issym(b):
        return a if (a != a or a <= b) else b
    if not issym(a) and a != a or not issym(b) and b != b:
        return float('nan')
    c = s_cmp(a, b, '<=')
    return s_ite(c, a, b)


def e_isfinite(a):
    if isinstance(a, Sym):
        return True if a.nan is None else S.b_not(a.nan)
    if isinstance(a, SymBool):
        return True
    return bool(np.isfinite(a))


def e_isnan(a):
    if isinstance(a, Sym):
        return False if a.nan is None else S.as_bool(a.nan)
    if isinstance(a, SymBool):
        return False
    return bool(np.isnan(a))


def e_sign(a):
    if isinstance(a, Sym):
        return s_ite(a > 0, 1.0, s_ite(a < 0, -1.0, 0.0))
    return float(np.sign(a))


def e_hypot(a, b):
    return S.s_pow(e_add(e_mul(a, a), e_mul(b, b)), 0.5)


def _u(fs, fc):
    def g(a):
        a = e_num(a)
        if issym(a):
            return fs(a)
        with np.errstate(all='ignore'):
            r = fc(a)
        return r.item() if hasattr(r, 'item') else r
    return g


def e_abs(a):
    a = e_num(a)
    return abs(a)


LN10 = math.log(10.)
LN2 = math.log(2.)
U1 = {
    'negative': lambda a: -e_num(a),
    'positive': lambda a: a,
    'absolute': e_abs, 'fabs': e_abs,
    'sqrt': _u(lambda a: S.s_pow(a, 0.5), lambda x: np.sqrt(np.float64(x))),
    'cbrt': _u(lambda a: S.s_pow(a, 1. / 3), np.cbrt),
    'square': lambda a: e_mul(a, a),
    'reciprocal': lambda a: e_div(1.0, a),
    'exp': _u(S.s_exp, lambda x: np.exp(np.float64(x))),
    'exp2': _u(lambda a: S.s_exp(a * LN2), np.exp2),
    'expm1': _u(lambda a: S.s_exp(a) - 1.0, np.expm1),
    'log': _u(S.s_log, lambda x: np.log(np.float64(x))),
    'log10': _u(lambda a: S.s_log(a) * (1 / LN10), lambda x: np.log10(np.float64(x))),
    'log2': _u(lambda a: S.s_log(a) * (1 / LN2), np.log2),
    'log1p': _u(lambda a: S.s_log(a + 1.0), np.log1p),
    'sin': _u(S.s_sin, np.sin), 'cos': _u(S.s_cos, np.cos), 'tan': _u(S.s_tan, np.tan),
    'arctan': _u(S.s_atan, np.arctan), 'arcsin': _u(S.s_asin, np.arcsin),
    'arccos': _u(S.s_acos, np.arccos),
    'radians': _u(lambda a: a * (math.pi / 180.), np.radians),
    'deg2rad': _u(lambda a: a * (math.pi / 180.), np.radians),
    'degrees': _u(lambda a: a * (180. / math.pi), np.degrees),
    'rad2deg': _u(lambda a: a * (180. / math.pi), np.degrees),
    'tanh': _u(lambda a: 1.0 - 2.0 / (S.s_exp(2.0 * a) + 1.0), np.tanh),
    'floor': _u(S.s_floor, np.floor), 'ceil': _u(S.s_ceil, np.ceil), 'rint': _u(S.s_round, np.rint),
    'trunc': _u(S.s_trunc, np.trunc),
    'isfinite': e_isfinite, 'isnan': e_isnan,
    'isinf': lambda a: False if issym(a) else bool(np.isinf(a)),
    'logical_not': S.b_not,
    'sign': e_sign,
    'conjugate': lambda a: a,
    'signbit': lambda a: (a < 0),
}


def e_invert(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return S.b_not(a)
    return ~a


U1['invert'] = e_invert


def _bit(fb, fi):
    def g(a, b):
        if isinstance(a, (bool, np.bool_, SymBool)) or isinstance(b, (bool, np.bool_, SymBool)):
            return fb(a, b)
        return fi(a, b)
    return g


U2 = {
    'add': e_add, 'subtract': e_sub, 'multiply': e_mul, 'divide': e_div, 'true_divide': e_div,
    'power': e_pow, 'float_power': e_pow,
    'less': _cmpf('<'), 'less_equal': _cmpf('<='), 'greater': _cmpf('>'), 'greater_equal': _cmpf('>='),
    'equal': _cmpf('=='), 'not_equal': _cmpf('!='),
    'maximum': e_max, 'minimum': e_min, 'fmax': e_max, 'fmin': e_min,
    'logical_and': S.b_and, 'logical_or': S.b_or,
    'logical_xor': lambda a, b: S.b_or(S.b_and(a, S.b_not(b)), S.b_and(S.b_not(a), b)),
    'bitwise_and': _bit(S.b_and, lambda a, b: a & b), 'bitwise_or': _bit(S.b_or, lambda a, b: a | b),
    'bitwise_xor': _bit(lambda a, b: S.b_or(S.b_and(a, S.b_not(b)), S.b_and(S.b_not(a), b)),
                        lambda a, b: a ^ b),
    'hypot': e_hypot,
    'arctan2': lambda a, b: S.s_atan2(e_num(a), e_num(b)),
    'floor_divide': lambda a, b: e_num(a) // e_num(b),
    'remainder': lambda a, b: e_num(a) % e_num(b), 'mod': lambda a, b: e_num(a) % e_num(b),
    'copysign': lambda a, b: s_ite(b >= 0, abs(a), -abs(a)),
}
# the same functions called with explicit float arrays keep numpy's result types
INTRES = {}


def _aslist(x):
    if isinstance(x, SArr):
        return x.view(ND)
    if isinstance(x, ND):
        return x
    if isinstance(x, (list, tuple)):
        return plain(mkarr(np.array(x, dtype=object)))
    if isinstance(x, WhereResult):
        return x.tup()
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _el(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, np.generic):
        return x.item()
    return x


def apply1(f, x):
    x = _aslist(x)
    out = np.empty(x.shape, dtype=object)
    xf, of = x.reshape(-1), out.reshape(-1)
    for i in range(of.size):
        of[i] = f(_el(xf[i]))
    return finish(out)


def apply2(f, x, y):
    x, y = _aslist(x), _aslist(y)
    if x.shape != y.shape:
        x, y = np.broadcast_arrays(x, y)
    out = np.empty(x.shape, dtype=object)
    xf, yf, of = x.reshape(-1), y.reshape(-1), out.reshape(-1)
    for i in range(of.size):
        of[i] = f(_el(xf[i]), _el(yf[i]))
    return finish(out)


def array_ufunc(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    name = ufunc.__name__
    if method == '__call__':
        if ufunc.nin == 1 and name in U1:
            r = apply1(U1[name], inputs[0])
        elif ufunc.nin == 2 and name in U2:
            r = apply2(U2[name], inputs[0], inputs[1])
        elif name == 'matmul':
            r = f_dot(*inputs)
        elif name == 'heaviside':
            r = f_heaviside(*inputs)
        elif name == 'modf':
            return f_modf(*inputs)
        elif name == 'divmod':
            return apply2(U2['floor_divide'], *inputs), apply2(U2['remainder'], *inputs)
        elif not any(anysym(i) for i in inputs):
            r = ufunc(*[lower(i) for i in inputs], **kw)
            if isinstance(r, ND) and r.dtype.kind == 'f':
                r = mkarr(r)
        else:
            raise Unsupported('ufunc ' + name)
        if where is not True:
            if out is None:
                raise Unsupported('ufunc where= without out=')
            o = out[0]
            r = f_where(where, r, o)
        if out is not None:
            o = out[0]
            if isinstance(o, SArr):
                o[...] = r
                return o
            if isinstance(o, ND):
                if anysym(r):
                    if o.dtype.kind in 'iu' and ufunc.nin == 2:
                        # as numpy does: a float result does not go into an array of integers
                        ufunc(np.ones(1, o.dtype), np.ones(1), out=np.ones(1, o.dtype))
                    raise Unsupported('in-place symbolic update of a plain array')
                if o.dtype.kind in 'iu' and isinstance(lower(r), ND) and lower(r).dtype.kind == 'f' and ufunc.nin == 2:
                    ufunc(np.ones(1, o.dtype), np.ones(1), out=np.ones(1, o.dtype))
                o[...] = lower(r) if isinstance(r, ND) else r
                return o
        return r
    if method == 'reduce':
        r = reduce_(ufunc, inputs[0], kw.get('axis', 0), kw.get('keepdims', False))
        if out is not None and out[0] is not None:
            out[0][...] = r
            return out[0]
        return r
    if method == 'accumulate' and name == 'add':
        return f_cumsum(inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = _aslist(inputs[0]), _aslist(inputs[1])
        return apply2(U2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'at' and name == 'add':
        a, ix = inputs[0], inputs[1]
        b = inputs[2]
        ix = _intarr(ix) if isinstance(ix, SArr) else np.asarray(ix)
        b = np.broadcast_to(_aslist(b), ix.shape)
        for i, v in zip(ix.reshape(-1), b.reshape(-1)):
            a[i] = a[i] + v
        return None
    raise Unsupported('ufunc method %s.%s' % (name, method))


def _psum(lst):
    """sum of scalars, fast for polys"""
    acc = {}
    mx = {}
    nan = None
    tot = 0.0
    isint = True
    for e in lst:
        if isinstance(e, SymBool):
            e = S.bool_to_sym(e)
        if isinstance(e, Sym):
            nan = S._nan_or(nan, e.nan)
            for m, c in e.p.t.items():
                x = acc.get(m)
                if x is None:
                    acc[m] = c
                    mx[m] = abs(c)
                else:
                    acc[m] = x + c
                    mx[m] = max(mx[m], abs(c))
        else:
            if isint and not isinstance(e, (int, bool, np.integer, np.bool_)):
                isint = False
            tot = tot + e
    if not acc:
        return int(tot) if isint else float(tot)
    if tot != tot or tot in (S.INF, -S.INF):
        return float(tot)
    if tot:
        acc[()] = acc.get((), 0.) + tot
        mx[()] = max(mx.get((), 0.), abs(tot))
    t = {m: c for m, c in acc.items() if abs(c) > S.CANCEL * mx[m]}
    return S.mk(S.Poly(t), nan)


def _fold(ufunc, lst):
    name = ufunc.__name__
    lst = [_el(x) for x in lst]
    if name == 'add':
        return _psum(lst)
    if name == 'multiply':
        return functools.reduce(lambda a, b: e_num(a) * e_num(b), lst, 1.0)
    if name == 'logical_and':
        return functools.reduce(S.b_and, lst, True)
    if name == 'logical_or':
        return functools.reduce(S.b_or, lst, False)
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        if not lst:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        return functools.reduce(U2[name], lst)
    if name in ('bitwise_and', 'bitwise_or'):
        return functools.reduce(U2[name], lst)
    raise Unsupported('reduce ' + name)


def reduce_(ufunc, a, axis=None, keepdims=False):
    a = _aslist(a)
    if axis is None:
        r = _fold(ufunc, list(a.reshape(-1)))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return finish(o)
        return r
    if isinstance(axis, (tuple, list)):
        ax = sorted([x % a.ndim for x in axis])
    else:
        ax = [int(axis) % a.ndim]
        if int(axis) >= a.ndim or int(axis) < -a.ndim:
            raise np.exceptions.AxisError(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in ax]
    b = np.transpose(a, keep + ax)
    shp = [a.shape[i] for i in keep]
    b = b.reshape(shp + [-1])
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        v = _fold(ufunc, list(b[ix]))
        out[ix] = v
    if keepdims:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    if not keep and not keepdims:
        return out[()]
    return finish(out)


# --------------------------------------------------------------------------
# numpy functions

def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    if where is not None and where is not np._NoValue:
        a = f_where(where, a, 0.0)
    r = reduce_(np.add, a, axis, bool(keepdims) if keepdims is not np._NoValue else False)
    if initial is not None and initial is not np._NoValue:
        r = r + initial
    return r


def _cnt(a, axis):
    a = _aslist(a)
    if axis is None:
        return a.size
    ax = axis if isinstance(axis, (tuple, list)) else [axis]
    n = 1
    for x in ax:
        n *= a.shape[x]
    return n


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    n = _cnt(a, axis)
    r = reduce_(np.add, a, axis, bool(keepdims) if keepdims is not np._NoValue else False)
    return apply2(e_div, r, float(n)) if n else float('nan')


def f_average(a, axis=None, weights=None, returned=False, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    if weights is None:
        return f_mean(a, axis=axis)
    w = mkarr(weights)
    a = mkarr(a)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
        w = mkarr(np.broadcast_to(plain(w), a.shape).copy())
    den = reduce_(np.add, w, axis)
    if not isinstance(den, ND):
        if not issym(den) and den == 0:
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return apply2(e_div, reduce_(np.add, a * w, axis), den)


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    m = f_mean(a, axis=axis, keepdims=True) if isinstance(a, ND) else f_mean(a, axis=axis)
    d = mkarr(a) - m
    n = _cnt(a, axis)
    return apply2(e_div, reduce_(np.add, d * d, axis), float(n - ddof))


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return apply1(U1['sqrt'], f_var(a, axis=axis, ddof=ddof))


def f_arg(a, axis, op):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    a = _aslist(a)
    if axis is None:
        l = list(a.reshape(-1))
        if not l:
            raise ValueError('attempt to get argmax of an empty sequence')
        l = [_el(x) for x in l]
        if not any(issym(x) for x in l):
            return int(np.argmax(np.array(l, dtype=float)) if op == '>' else np.argmin(np.array(l, dtype=float)))
        b = 0
        for i in range(1, len(l)):
            if bool(_cmpf(op)(l[i], l[b])):
                b = i
        return b
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = f_arg(b[ix], None, op)
    return out


def f_where(cond, x=None, y=None):
    if x is None and y is None:
        if isinstance(cond, (Sym, SymBool)):
            a = np.empty((1,), dtype=object)
            a[0] = cond
            cond = a
        c = _aslist(cond)
        if c.dtype == object:
            if not anysym(c):
                return np.nonzero(lower(c))
            m = np.empty(c.shape, dtype=object)
            mf, cf = m.reshape(-1), c.reshape(-1)
            for i in range(mf.size):
                mf[i] = S.as_bool(cf[i]) if not isinstance(cf[i], Sym) else (cf[i] != 0)
            return WhereResult(m)
        return np.nonzero(c)
    c, x, y = _aslist(cond), _aslist(x), _aslist(y)
    c, x, y = np.broadcast_arrays(c, x, y)
    out = np.empty(c.shape, dtype=object)
    for ix in np.ndindex(*c.shape):
        out[ix] = s_ite(S.as_bool(c[ix]), _el(x[ix]), _el(y[ix]))
    return finish(out)


def f_nonzero(a):
    r = f_where(a)
    return r


def f_cumsum(a, axis=None, **k):
    a = _aslist(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    out = np.empty(a.shape, dtype=object)
    b = np.moveaxis(a, axis, 0)
    o = np.moveaxis(out, axis, 0)
    acc = None
    for i in range(b.shape[0]):
        acc = b[i] if acc is None else apply2(e_add, acc, b[i])
        o[i] = plain(acc) if isinstance(acc, ND) else acc
    return mkarr(out)


def f_dot(a, b):
    a, b = _aslist(a), _aslist(b)
    if a.ndim == 0 or b.ndim == 0:
        return apply2(e_mul, a, b)
    if a.ndim == 1 and b.ndim == 1:
        return _psum([e_mul(_el(x), _el(y)) for x, y in zip(a, b)])
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            out[ix] = f_dot(a[ix], b)
        return finish(out)
    if a.ndim == 1:
        a2 = a.reshape(1, -1)
        r = f_dot(a2, b)
        return r[0]
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = f_dot(a[i], b[:, j])
        return finish(out)
    # general matmul over leading dims
    if b.ndim == 2:
        out = np.empty(a.shape[:-1] + (b.shape[1],), dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            for j in range(b.shape[1]):
                out[ix + (j,)] = f_dot(a[ix], b[:, j])
        return finish(out)
    raise Unsupported('dot of %dd and %dd' % (a.ndim, b.ndim))


def f_round(a, decimals=0, **k):
    if decimals:
        f = 10. ** decimals
        return apply1(lambda x: S.s_round(x * f) / f if issym(x) else float(np.round(x, decimals)), a)
    return apply1(lambda x: S.s_round(x) if issym(x) else (x if isinstance(x, int) else float(np.round(x))), a)


def f_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get('min', k.get('a_min', lo))
    hi = k.get('max', k.get('a_max', hi))
    if lo is not None:
        a = apply2(e_max, a, lo)
    if hi is not None:
        a = apply2(e_min, a, hi)
    return a


def _sorted_idx(l):
    def cmp(i, j):
        if bool(_cmpf('<')(l[i], l[j])):
            return -1
        if bool(_cmpf('<')(l[j], l[i])):
            return 1
        return 0
    l = [_el(x) for x in l]
    return sorted(range(len(l)), key=functools.cmp_to_key(cmp))


def f_sort(a, axis=-1, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    a = _aslist(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    out = np.empty(a.shape, dtype=object)
    b = np.moveaxis(a, axis, -1)
    o = np.moveaxis(out, axis, -1)
    for ix in np.ndindex(*b.shape[:-1]):
        row = b[ix]
        idx = _sorted_idx(list(row))
        for n, i in enumerate(idx):
            o[ix + (n,)] = _el(row[i])
    return finish(out)


def f_argsort(a, axis=-1, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    a = _aslist(a)
    if a.ndim != 1:
        raise Unsupported('argsort nd')
    return np.array(_sorted_idx(list(a)), dtype=int)


def f_median(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    a = _aslist(a)
    if axis is None:
        s = flat(f_sort(a.reshape(-1)))
        n = s.size
        if n == 0:
            return float('nan')
        if n % 2:
            return s[n // 2]
        return (s[n // 2 - 1] + s[n // 2]) / 2.0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = f_median(b[ix])
    return finish(out)


def f_percentile(a, q, axis=None, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    a = _aslist(a)
    if axis is not None:
        b = np.moveaxis(a, axis, -1)
        qs = [f_percentile_q(b, qq) for qq in (q if isinstance(q, (list, tuple, ND)) else [q])]
        if not isinstance(q, (list, tuple, ND)):
            return qs[0]
        return mkarr(np.array([plain(x) for x in qs], dtype=object))
    s = flat(f_sort(a.reshape(-1)))

    def one(qq):
        h = (s.size - 1) * qq / 100.
        i = int(math.floor(h))
        j = min(i + 1, s.size - 1)
        return s[i] + (s[j] - s[i]) * (h - i)
    if isinstance(q, (list, tuple, ND)):
        return mkarr([one(x) for x in q])
    return one(q)


def f_percentile_q(b, q):
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = f_percentile(b[ix], q)
    return finish(out)


def f_searchsorted(a, v, side='left', sorter=None):
    a = flat(a if isinstance(a, ND) else mkarr(a))

    def one(x):
        n = 0
        for e in a:
            c = _cmpf('<')(_el(e), x) if side == 'left' else _cmpf('<=')(_el(e), x)
            if bool(c):
                n += 1
            else:
                break
        return n
    if isinstance(v, (ND, list, tuple)):
        return np.array([one(_el(x)) for x in flat(mkarr(v))], dtype=int)
    return one(v)


def f_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = flat(mkarr(xp)), flat(mkarr(fp))

    def one(v):
        v = _el(v)
        if bool(_cmpf('<')(v, xp[0])):
            return fp[0] if left is None else left
        if bool(_cmpf('>')(v, xp[-1])):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(_cmpf('<=')(v, xp[i + 1])):
                return fp[i] + (fp[i + 1] - fp[i]) * e_div(v - xp[i], xp[i + 1] - xp[i])
        return fp[-1]
    if isinstance(x, ND) or isinstance(x, (list, tuple)):
        return apply1(one, x)
    return one(x)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        return _cmpf('<=')(abs(e_sub(x, y)), atol + rtol * abs(y))
    return apply2(f, a, b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(r) if not isinstance(r, ND) else bool(reduce_(np.logical_and, r))


def f_array_equal(a, b, **k):
    a, b = _aslist(a), _aslist(b)
    if a.shape != b.shape:
        return False
    return bool(reduce_(np.logical_and, apply2(_cmpf('=='), a, b)) if a.size else True)


def f_nan(fn):
    def g(a, axis=None, **k):
        a = mkarr(a)
        fin = apply1(lambda x: S.b_not(e_isnan(x)), a)
        z = f_where(fin, a, 0.0)
        if fn == 'sum':
            return reduce_(np.add, z, axis)
        n = reduce_(np.add, f_where(fin, 1.0, 0.0), axis)
        if fn == 'mean':
            return apply2(e_div, reduce_(np.add, z, axis), n)
        m = concrete_mask(fin) if isinstance(fin, ND) else fin
        sel = a[m]
        if axis is not None:
            ax = axis % a.ndim
            b = np.moveaxis(plain(a), ax, -1)
            o = np.empty(b.shape[:-1], dtype=object)
            for ix in np.ndindex(*o.shape):
                o[ix] = g(mkarr(b[ix]))
            return finish(o) if o.ndim else o.item()
        if fn == 'max':
            return reduce_(np.maximum, sel)
        if fn == 'min':
            return reduce_(np.minimum, sel)
        if fn == 'median':
            return f_median(sel)
        if fn == 'std':
            return f_std(sel)
        raise Unsupported('nan' + fn)
    return g


def f_nan_to_num(a, copy=True, nan=0.0, **k):
    return apply1(lambda x: s_ite(S.b_not(e_isnan(x)), Sym(x.p) if isinstance(x, Sym) else x, nan), a)


def f_diff(a, n=1, axis=-1, **k):
    a = mkarr(a)
    if any(k.get(x, np._NoValue) is not np._NoValue for x in ('prepend', 'append')):
        p = []
        for x in ('prepend', None, 'append'):
            v = a if x is None else k.get(x, np._NoValue)
            if v is np._NoValue:
                continue
            if x is not None and np.ndim(v) == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = SHIM.full(tuple(sh), _el(v))
            p.append(v)
        a = SHIM.concatenate(p, axis=axis)
    for _ in range(n):
        b = np.moveaxis(plain(a), axis, 0)
        a = mkarr(np.moveaxis(plain(mkarr(b[1:]) - mkarr(b[:-1])), 0, axis))
    return a


def f_outer(a, b, out=None):
    a, b = _aslist(a).reshape(-1), _aslist(b).reshape(-1)
    return apply2(e_mul, a.reshape(-1, 1), b.reshape(1, -1))


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = mkarr(y)
    y = mkarr(np.moveaxis(plain(y), axis, -1))
    d = dx if x is None else f_diff(x)
    return reduce_(np.add, (y[..., 1:] + y[..., :-1]) * d * 0.5, -1)


def f_convolve(a, v, mode='full'):
    from . import stubs
    if len(v) > len(a):
        a, v = v, a
    return stubs.sym_convolve(mkarr(a), mkarr(v), mode)


def f_einsum(sub, *ops, **k):
    sub = sub.replace(' ', '')
    ops = [_aslist(o) for o in ops]
    if '...' in sub:
        free = [c for c in 'ZYXWVUTSR' if c not in sub]
        terms = sub.split('->')[0].split(',')
        n = [o.ndim - len(x.replace('...', '')) if '...' in x else 0 for x, o in zip(terms, ops)]
        terms = [x.replace('...', ''.join(free[max(n) - k:max(n)])) for x, k in zip(terms, n)]
        every = ''.join(free[:max(n)])
        if '->' in sub:
            rhs = sub.split('->')[1].replace('...', every)
        else:
            j = ''.join(terms)
            rhs = every + ''.join(sorted(c for c in set(j) if j.count(c) == 1 and c not in every))
        sub = ','.join(terms) + '->' + rhs
    if '->' not in sub:
        j = sub.replace(',', '')
        sub += '->' + ''.join(sorted(c for c in set(j) if j.count(c) == 1))
    lhs, rhs = sub.split('->')
    terms = lhs.split(',')
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    inner = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(rhs, ix))
        acc = []
        for jx in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, jx))
            v = 1.0
            for t, o in zip(terms, ops):
                v = e_mul(v, _el(o[tuple(env[c] for c in t)]))
            acc.append(v)
        out[ix] = _psum(acc)
    return finish(out)


def f_tensordot(a, b, axes=2):
    a, b = _aslist(a), _aslist(b)
    if isinstance(axes, (int, np.integer)):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[x] if isinstance(x, (int, np.integer)) else list(x) for x in axes]
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    L = 'abcdefghijklmnopqrstuvwxyz'
    la, lb = list(L[:a.ndim]), list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(ax, bx):
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in ax] + [c for i, c in enumerate(lb) if i not in bx]
    r = f_einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)
    return r.item() if isinstance(r, ND) and r.ndim == 0 else r


def f_polyval(p, x):
    r = x * 0. if not isinstance(x, (list, tuple)) else mkarr(x) * 0.
    for c in _aslist(p).reshape(-1):
        r = r * x + _el(c)
    return r


def f_select(conds, vals, default=0):
    r = default
    for c, v in list(zip(conds, vals))[::-1]:
        r = f_where(c, v, r)
    return r


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    l = [_el(x) for x in _aslist(a).reshape(-1)]
    idx = _sorted_idx(l)
    first, inv, cnt = [], [0] * len(l), []
    for i in idx:
        if first and bool(_cmpf('==')(l[first[-1]], l[i])):
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            first.append(i)
            cnt.append(1)
        inv[i] = len(first) - 1
    u = mkarr([l[i] for i in first]) if first else mkarr(np.zeros(0))
    r = (u,) + ((np.array(first, dtype=int),) if return_index else ()) + ((np.array(inv, dtype=int),) if return_inverse else ()) + \
        ((np.array(cnt, dtype=int),) if return_counts else ())
    return r if len(r) > 1 else u


def f_digitize(x, bins, right=False):
    b = [_el(v) for v in _aslist(bins).reshape(-1)]
    if len(b) > 1 and bool(_cmpf('<')(b[-1], b[0])):
        raise Unsupported('digitize with decreasing bins')
    return f_searchsorted(mkarr(b), x, side='left' if right else 'right')


def f_isin(a, test, invert=False, **k):
    t = [_el(v) for v in _aslist(test).reshape(-1)]

    def one(x):
        r = False
        for v in t:
            r = S.b_or(r, S.as_bool(_cmpf('==')(x, v)))
        return S.b_not(r) if invert else r
    return apply1(one, a)


def f_gradient(f, *h, **k):
    axis = k.get('axis')
    f = mkarr(f)
    if len(h) > 1 or (axis is None and f.ndim > 1) or k.get('edge_order', 1) != 1:
        raise Unsupported('gradient')
    g = np.moveaxis(plain(f), 0 if axis is None else axis, 0)
    n = g.shape[0]
    h = h[0] if h else 1.
    x = [_el(v) for v in _aslist(h).reshape(-1)] if np.ndim(h) else [i * 1. * h for i in range(n)]
    out = np.empty(g.shape, dtype=object)
    v = mkarr(g)
    for i in range(n):
        if i in (0, n - 1):
            a, b = (0, 1) if i == 0 else (n - 2, n - 1)
            out[i] = (v[b] - v[a]) / (x[b] - x[a])
        else:
            d, u = x[i] - x[i - 1], x[i + 1] - x[i]
            out[i] = v[i - 1] * (-u / (d * (d + u))) + v[i] * ((u - d) / (d * u)) + v[i + 1] * (d / (u * (d + u)))
    return finish(np.moveaxis(out, 0, 0 if axis is None else axis))


def f_cross(a, b, **k):
    a, b = mkarr(a), mkarr(b)
    if k or a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross')
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    return SHIM.stack(c, axis=-1)


def f_cumprod(a, axis=None, **k):
    a = _aslist(a)
    b = a.reshape(-1) if axis is None else np.moveaxis(a, axis, 0)
    out = np.empty(b.shape, dtype=object)
    r = None
    for i in range(b.shape[0]):
        r = mkarr(b[i]) if r is None and isinstance(b[i], ND) else _el(b[i]) if r is None else r * (
            mkarr(b[i]) if isinstance(b[i], ND) else _el(b[i]))
        out[i] = r
    return finish(out if axis is None else np.moveaxis(out, 0, axis))


def f_putmask(a, m, v):
    m = concrete_mask(mkarr(m)) if anysym(m) else np.asarray(lower(m), dtype=bool)
    if np.ndim(v) == 0 or np.size(v) == 1:
        a[m] = _el(_aslist(v).reshape(-1)[0])
    elif np.size(v) == np.size(a):
        a[m] = mkarr(v)[m]
    else:
        raise Unsupported('putmask')


def f_bincount(x, weights=None, minlength=0):
    x = [int(v) for v in _aslist(x).reshape(-1)]
    n = max(minlength, max(x) + 1 if x else 0)
    if weights is None:
        return np.bincount(np.array(x, dtype=int), minlength=minlength)
    w = _aslist(weights).reshape(-1)
    acc = [[] for i in range(n)]
    for i, v in zip(x, w):
        acc[i].append(_el(v))
    return mkarr([_psum(l) if l else 0. for l in acc])


def f_heaviside(x, h):
    return apply2(lambda v, u: s_ite(S.as_bool(_cmpf('>')(v, 0.)), 1., s_ite(S.as_bool(_cmpf('<')(v, 0.)), 0., u)), x, h)


def f_modf(a):
    t = apply1(U1['trunc'], a)
    return a - t, t


def f_correlate(a, v, mode='valid'):
    return f_convolve(a, SHIM.flip(mkarr(v)), mode)


def f_sinc(x):
    def one(v):
        if bool(_cmpf('==')(v, 0.)):
            return 1.
        y = e_mul(v, math.pi)
        return e_div(U1['sin'](y), y)
    return apply1(one, x)


def f_nanarg(which):
    def g(a, axis=None, **k):
        a = mkarr(a)
        return f_arg(f_where(apply1(e_isnan, a), -1e300 if which == '>' else 1e300, a), axis, which)
    return g


def f_fromiter(it, dtype, count=-1, **k):
    return _array([_el(x) for x in it], dtype=dtype)


def f_ones_like(a, dtype=None, **k):
    return SHIM.ones(k.get('shape') or np.shape(a), dtype=dtype or (None if not _allint(a) else int))


def _allint(a):
    a = _aslist(a)
    if a.dtype != object:
        return a.dtype.kind in 'iu'
    f = a.reshape(-1)
    return f.size > 0 and all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in f)


def f_zeros_like(a, dtype=None, **k):
    return SHIM.zeros(k.get('shape') or np.shape(a), dtype=dtype or (None if not _allint(a) else int))


def f_full_like(a, v, dtype=None, **k):
    return SHIM.full(np.shape(a), v, dtype=dtype)


def arr_astype(a, t):
    t = np.dtype(t)
    if t.kind == 'f':
        return apply1(lambda x: e_num(x) if issym(x) else float(x), a) if a.size else mkarr(plain(a).copy())
    if t.kind in 'iu':
        def f(x):
            if isinstance(x, SymBool):
                return S.bool_to_sym(x)
            if isinstance(x, Sym):
                lo, hi = x.p.interval()
                if all(S.ATOMS[i].kind == 'bool' for i in x.p.atoms()):
                    return x
                return int(x)
            return int(x)
        r = apply1(f, a)
        if isinstance(r, ND) and not anysym(r):
            return lower(r).astype(int)
        return r
    if t.kind == 'b':
        return apply1(lambda x: S.as_bool(x), a)
    if t == np.dtype(object):
        return a.copy()
    if not anysym(a):
        return lower(a).astype(t)
    raise Unsupported('astype %s' % t)


FUN = {
    np.sum: f_sum, np.mean: f_mean, np.average: f_average, np.std: f_std, np.var: f_var,
    np.prod: lambda a, axis=None, **k: reduce_(np.multiply, mkarr(a), axis),
    np.max: lambda a, axis=None, out=None, keepdims=False, **k: reduce_(np.maximum, mkarr(a), axis, keepdims is True),
    np.amax: lambda a, axis=None, **k: reduce_(np.maximum, mkarr(a), axis),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k: reduce_(np.minimum, mkarr(a), axis, keepdims is True),
    np.amin: lambda a, axis=None, **k: reduce_(np.minimum, mkarr(a), axis),
    np.ptp: lambda a, axis=None, **k: reduce_(np.maximum, mkarr(a), axis) - reduce_(np.minimum, mkarr(a), axis),
    np.all: lambda a, axis=None, **k: reduce_(np.logical_and, mkarr(a), axis),
    np.any: lambda a, axis=None, **k: reduce_(np.logical_or, mkarr(a), axis),
    np.count_nonzero: lambda a, axis=None, **k: _cntnz(a, axis),
    np.argmax: lambda a, axis=None, **k: f_arg(a, axis, '>'),
    np.argmin: lambda a, axis=None, **k: f_arg(a, axis, '<'),
    np.where: f_where, np.nonzero: f_nonzero, np.flatnonzero: lambda a: f_where(mkarr(a).ravel())[0],
    np.argwhere: lambda a: np.transpose(tuple(f_where(a))),
    np.cumsum: f_cumsum, np.dot: f_dot, np.vdot: f_dot, np.inner: f_dot,
    np.round: f_round, np.around: f_round, np.clip: f_clip, np.sort: f_sort, np.argsort: f_argsort,
    np.median: f_median, np.percentile: f_percentile,
    np.quantile: lambda a, q, axis=None, **k: f_percentile(
        a, [100. * x for x in q] if isinstance(q, (list, tuple, ND)) else 100. * q, axis),
    np.searchsorted: f_searchsorted, np.interp: f_interp, np.isclose: f_isclose, np.allclose: f_allclose,
    np.array_equal: f_array_equal,
    np.nansum: f_nan('sum'), np.nanmean: f_nan('mean'), np.nanmax: f_nan('max'), np.nanmin: f_nan('min'),
    np.nanmedian: f_nan('median'), np.nanstd: f_nan('std'), np.nan_to_num: f_nan_to_num,
    np.diff: f_diff, np.outer: f_outer, np.convolve: f_convolve, np.einsum: f_einsum,
    np.ones_like: f_ones_like, np.zeros_like: f_zeros_like, np.empty_like: f_zeros_like,
    np.full_like: f_full_like,
    np.real: lambda a: a, np.real_if_close: lambda a, **k: a,
    np.ndim: lambda a: _aslist(a).ndim, np.shape: lambda a: _aslist(a).shape, np.size: lambda a, axis=None: (
        _aslist(a).size if axis is None else _aslist(a).shape[axis]),
    np.sinc: None, np.linalg.norm: lambda a, axis=None, **k: apply1(U1['sqrt'], reduce_(np.add, mkarr(a) * mkarr(a), axis)),
    np.copyto: lambda d, s, where=True, **k: d.__setitem__(Ellipsis, s) if where is True else d.__setitem__(where, s),
    np.copy: lambda a, **k: mkarr(a).copy(),
    np.isscalar: lambda a: not isinstance(a, ND),
    np.array_repr: lambda a, **k: repr(a), np.array_str: lambda a, **k: repr(a),
    np.extract: lambda c, a: mkarr(a)[concrete_mask(mkarr(c))],
    np.compress: lambda c, a, axis=None, **k: mkarr(a)[concrete_mask(mkarr(c))],
    np.fill_diagonal: None,
}
FUN.update({
    np.tensordot: f_tensordot, np.polyval: f_polyval, np.select: f_select, np.unique: f_unique, np.digitize: f_digitize,
    np.isin: f_isin, np.gradient: f_gradient, np.cross: f_cross, np.cumprod: f_cumprod, np.putmask: f_putmask, np.place: f_putmask,
    np.bincount: f_bincount, np.correlate: f_correlate, np.sinc: f_sinc, np.nanargmax: f_nanarg('>'), np.nanargmin: f_nanarg('<'),
    np.fix: lambda a, **k: apply1(U1['trunc'], a), np.isreal: lambda a: apply1(lambda x: True, a), np.iscomplexobj: lambda a: False,
    np.isrealobj: lambda a: True,
    np.shares_memory: lambda a, b, **k: np.shares_memory(_aslist(a), _aslist(b)),
    np.may_share_memory: lambda a, b, **k: np.may_share_memory(_aslist(a), _aslist(b)),
    np.array_equiv: lambda a, b: f_array_equal(*np.broadcast_arrays(_aslist(a), _aslist(b))),
    np.ediff1d: lambda a, **k: f_diff(mkarr(a).ravel()), np.result_type: lambda *a: np.dtype(float),
    np.nanquantile: lambda a, q, **k: f_percentile(mkarr(a)[concrete_mask(apply1(lambda x: S.b_not(e_isnan(x)), mkarr(a)))], 100. * q),
    np.nanpercentile: lambda a, q, **k: f_percentile(mkarr(a)[concrete_mask(apply1(lambda x: S.b_not(e_isnan(x)), mkarr(a)))], q),
    np.trace: lambda a, **k: reduce_(np.add, SHIM.diagonal(mkarr(a))),
})
if hasattr(np, 'trapezoid'):
    FUN[np.trapezoid] = f_trapz
FUN = {k: v for k, v in FUN.items() if v is not None}


def _cntnz(a, axis=None):
    a = mkarr(a)
    b = apply1(lambda x: S.as_bool(x) if not isinstance(x, Sym) else (x != 0), a)
    b = mkarr(b) if isinstance(b, ND) else b
    r = reduce_(np.add, apply1(lambda x: S.bool_to_sym(x) if isinstance(x, SymBool) else int(x), b), axis)
    return r


STRUCT = {'tile', 'repeat', 'reshape', 'ravel', 'transpose', 'concatenate', 'vstack', 'hstack', 'stack',
          'dstack', 'column_stack', 'append', 'insert', 'delete', 'roll', 'flip', 'flipud', 'fliplr', 'rot90',
          'expand_dims', 'squeeze', 'swapaxes', 'moveaxis', 'broadcast_to', 'broadcast_arrays', 'atleast_1d',
          'atleast_2d', 'atleast_3d', 'meshgrid', 'split', 'array_split', 'hsplit', 'vsplit', 'take', 'diag',
          'pad', 'triu', 'tril', 'resize', 'diagonal', 'ix_', 'choose', 'put', 'put_along_axis',
          'take_along_axis', 'apply_along_axis', 'save', 'savez', 'rollaxis', 'block', 'diagflat', 'unstack'}


def _plain_tree(x):
    if isinstance(x, SArr):
        return x.view(ND)
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, list):
        return [_plain_tree(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_plain_tree(e) for e in x)
    return x


def _wrap_tree(x):
    if isinstance(x, ND) and x.dtype == object:
        return mkarr(x) if x.ndim else x.item()
    if isinstance(x, list):
        return [_wrap_tree(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_wrap_tree(e) for e in x)
    return x


def _tree_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_tree_sym(e) for e in x)
    return anysym(x)


def _tree_lower(x):
    if isinstance(x, list):
        return [_tree_lower(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_tree_lower(e) for e in x)
    return lower(x)


def array_function(func, types_, args, kwargs):
    f = FUN.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = getattr(func, '__name__', str(func))
    if name in STRUCT:
        return _wrap_tree(func(*_plain_tree(args), **{k: _plain_tree(v) for k, v in kwargs.items()}))
    if not _tree_sym(args) and not _tree_sym(tuple(kwargs.values())):
        r = func(*_tree_lower(args), **{k: _tree_lower(v) for k, v in kwargs.items()})
        if isinstance(r, ND) and r.dtype.kind == 'f':
            return mkarr(r)
        return r
    raise Unsupported('numpy function ' + name)


# --------------------------------------------------------------------------
# the module stand-in

class NPShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_names'] = {}

    def __getattr__(self, k):
        return getattr(np, k)


SHIM = NPShim()


def _dt(dtype):
    return None if dtype is None else np.dtype(dtype)


def _obj(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a.view(SArr)


def _create(v):
    def f(shape, dtype=None, order='C', **k):
        t = _dt(dtype)
        if isinstance(shape, (Sym, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if t is None or t.kind == 'f':
            return _obj(shape, float(v))
        if t.kind in 'iu':
            return _obj(shape, int(v))
        if t.kind == 'b':
            return _obj(shape, bool(v))
        return np.full(shape, v, dtype=t)
    return f


def _full(shape, v, dtype=None, order='C', **k):
    if dtype is None and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return _obj(shape, int(v))
    if isinstance(v, ND):
        v = plain(v)
    else:
        v = _el(v)
    return _obj(shape, v)


def _has_sym_nested(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, ND):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym_nested(e) for e in x)
    return False


def _unwrap(x):
    if isinstance(x, WhereResult):
        return list(x.tup())
    if isinstance(x, SArr):
        return x.view(ND).tolist() if x.ndim else x.item()
    if isinstance(x, ND):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_unwrap(e) for e in x]
    return x


def _shape_of(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        return (len(x),) + _shape_of(x[0])
    return ()


def _array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    t = _dt(dtype)
    if t is not None and t.kind not in 'fiubO':
        return np.array(_tree_lower(x) if isinstance(x, (ND, list, tuple)) else x, dtype=t)
    if isinstance(x, SArr):
        r = x.copy() if copy else x
    elif _has_sym_nested(x):
        u = _unwrap(x)
        shp = _shape_of(u)
        r = np.empty(shp, dtype=object)
        if shp == ():
            r[()] = u
        else:
            def fill(pre, v, sh):
                if len(sh) == 0:
                    if isinstance(v, (list, tuple)):
                        raise ValueError('inhomogeneous shape')
                    r[pre] = _el(v)
                    return
                if not isinstance(v, (list, tuple)) or len(v) != sh[0]:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape')
                for i, e in enumerate(v):
                    fill(pre + (i,), e, sh[1:])
            fill((), u, shp)
        r = r.view(SArr)
    else:
        a = np.array(x, dtype=dtype)
        if a.dtype.kind == 'f':
            r = mkarr(a) if a.ndim else a
        elif a.dtype.kind == 'i' and t is None:
            return np.array(x, ndmin=ndmin)
        elif a.dtype.kind in 'b':
            r = a
        else:
            return np.array(x, dtype=dtype, ndmin=ndmin)
        if a.ndim == 0 and a.dtype.kind == 'f':
            o = np.empty((), dtype=object)
            o[()] = float(a)
            r = o.view(SArr)
    if t is not None and t.kind in 'fiub' and isinstance(r, SArr):
        r2 = arr_astype(r, t)
        if not isinstance(r2, ND):
            o = np.empty((), dtype=object)
            o[()] = r2
            r2 = o.view(SArr)
        r = r2
    while r.ndim < ndmin:
        r = r[None]
    return r


def _asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and dtype is None:
        return x
    if isinstance(x, ND) and dtype is None:
        return mkarr(x) if x.dtype.kind == 'f' else x
    return _array(x, dtype=dtype)


def _linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **k):
    num = int(num)
    a, b = _el(a), _el(b)
    if isinstance(a, ND):
        a = a.item()
    if isinstance(b, ND):
        b = b.item()
    if not issym(a) and not issym(b):
        r = np.linspace(a, b, num=num, endpoint=endpoint, retstep=retstep, dtype=dtype)
        if retstep:
            return mkarr(r[0]), float(r[1])
        return mkarr(r)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    step = (b - a) / div if div > 0 else float('nan')
    for i in range(num):
        out[i] = a + step * float(i) if i else a
    if endpoint and num > 1:
        out[-1] = b
    out = out.view(SArr)
    return (out, step) if retstep else out


def _arange(*a, **k):
    if any(issym(x) for x in a):
        if len(a) == 1:
            st, en, sp = 0., a[0], 1.
        elif len(a) == 2:
            st, en, sp = a[0], a[1], 1.
        else:
            st, en, sp = a[:3]
        n = max(int(S.s_ceil((en - st) / sp)), 0)
        return mkarr([st + sp * float(i) for i in range(n)]) if n else mkarr(np.zeros(0))
    r = np.arange(*[_el(x) for x in a], **k)
    return mkarr(r) if r.dtype.kind == 'f' else r


def _isscalar(a):
    return issym(a) or np.isscalar(a)


def _wrapfun(func):
    """call through the table also when no argument carries __array_function__"""
    f = FUN[func]

    def g(*a, **k):
        if _tree_sym(a) or any(isinstance(x, SArr) for x in a) or \
                (a and isinstance(a[0], (list, tuple)) and _has_sym_nested(a[0])):
            return f(*a, **k)
        return func(*a, **k)
    return g


def _float(x=0.0):
    if isinstance(x, SArr):
        x = x.__float__()
    if isinstance(x, ND) and x.dtype == object:
        x = x.item()
    if isinstance(x, SymBool):
        return S.bool_to_sym(x)
    if isinstance(x, Sym):
        return x
    return float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym)) and not isinstance(x, (bool, np.bool_))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    """stands for the builtin `float` in lifted modules"""
    def __new__(cls, x=0.0):
        return _float(x)


def _fixdtype(f):
    def g(*a, **k):
        if k.get('dtype') is SymFloat:
            k['dtype'] = float
        a = tuple(float if x is SymFloat else x for x in a)
        return f(*a, **k)
    return g


def _stackfun(name):
    func = getattr(np, name)

    def g(*a, **k):
        r = func(*_plain_tree(a), **{x: _plain_tree(v) for x, v in k.items()})
        if isinstance(r, ND) and r.dtype.kind == 'f':
            return mkarr(r)
        return _wrap_tree(r)
    return g


for _n, _v in dict(zeros=_create(0), ones=_create(1), empty=_create(0), full=_full, array=_array,
                   asarray=_asarray, asanyarray=_asarray, ascontiguousarray=_asarray, linspace=_linspace,
                   arange=_arange, isscalar=_isscalar, float64=_float, float32=_float, double=_float,
                   fromiter=f_fromiter, identity=lambda n, **k: mkarr(np.identity(n)), eye=lambda *a, **k: mkarr(np.eye(*a)),
                   ).items():
    setattr(SHIM, _n, _fixdtype(_v))
for _n in STRUCT:
    if hasattr(np, _n) and _n not in ('save', 'savez', 'apply_along_axis', 'put', 'put_along_axis', 'ix_'):
        setattr(SHIM, _n, _stackfun(_n))
for _f in list(FUN):
    _n = getattr(_f, '__name__', None)
    if _n and getattr(np, _n, None) is _f:
        setattr(SHIM, _n, _wrapfun(_f))
for _n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
    setattr(SHIM, _n, _fixdtype(FUN[getattr(np, _n)]))


def _vectorize(pyfunc, **k):
    def g(*a):
        bs = np.broadcast_arrays(*[_aslist(x) for x in a])
        out = np.empty(bs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = pyfunc(*[_el(b[ix]) for b in bs])
        return finish(out)
    return g


SHIM.vectorize = _vectorize
SHIM.issubdtype = lambda d, t: np.issubdtype(np.dtype(float) if d == np.dtype(object) else d, t)
