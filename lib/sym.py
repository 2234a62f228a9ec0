"""Symbolic scalars for lifted execution of /repo's code.

A `Sym` is a real-valued expression held in a normal form: a sum of
coefficient * product(atom ** exponent).  Atoms are the harness' input
variables and interned sub-terms that are not polynomial (powers of sums,
exp, cos/sin, atan, if-then-else, |.|, ...).  Every atom carries the axioms
that define it, so that any assertion over a Sym can be handed to z3.

Floats of the program are treated as reals; the coefficients are doubles, and
all claims are made with an explicit numeric margin that absorbs rounding.
"""
import sys
import math
import numpy as np

_ZP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_ZP)
import z3                                                    # noqa: E402
sys.path.remove(_ZP)

INF = float('inf')


RAISED = []     # what was raised on the current path: a bare except in the code under test may swallow it


class Unsupported(Exception):
    """The lifted run met an operation that the encoding does not model."""
    def __init__(self, *a):
        Exception.__init__(self, *a)
        RAISED.append(self)


class PathLimit(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        RAISED.append(self)


class Infeasible(BaseException):
    """The current path was found to be infeasible (assume() failed)."""
    def __init__(self, *a):
        BaseException.__init__(self, *a)
        RAISED.append(self)


# --------------------------------------------------------------------------
# z3 helpers
_rv_cache = {}


def rv(x):
    """float -> exact z3 rational"""
    r = _rv_cache.get(x)
    if r is None:
        if isinstance(x, int):
            r = z3.RealVal(x)
        else:
            n, d = float(x).as_integer_ratio()
            r = z3.RealVal(n) if d == 1 else z3.Q(n, d)
        if len(_rv_cache) < 200000:
            _rv_cache[x] = r
    return r


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

# --------------------------------------------------------------------------
# Atoms

ATOMS = []
_intern = {}          # structural interning of atoms


class Atom(object):
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'deps', '_z', 'extra', 'depth')

    def __init__(self, kind, name, args, lo, hi, deps=(), extra=None):
        self.id = len(ATOMS)
        self.kind = kind
        self.name = name
        self.args = args
        self.lo = lo
        self.hi = hi
        self.deps = frozenset(deps)
        self.extra = extra
        self._z = None
        self.depth = 1 + max([ATOMS[d].depth for d in self.deps] or [0])
        ATOMS.append(self)

    @property
    def z(self):
        if self._z is None:
            self._z = z3.Real('%s_%d' % (self.name, self.id))
        return self._z

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


def reset_atoms():
    del ATOMS[:]
    _intern.clear()
    _shape.clear()
    _expcache.clear()
    _z3cache.clear()
    _trig_base.clear()
    _pows.clear()
    del _tans[:]
    _roots.clear()
    _square_tried.clear()
    Poly._c = {}


def _isint(e):
    return float(e).is_integer()


def _nexp(e):
    e = float(e)
    if e.is_integer():
        return int(e)
    # snap to a nearby simple fraction so that 1/n written differently agrees
    return round(e, 13)


def _pow_iv(lo, hi, e):
    """interval of x**e for x in [lo,hi]"""
    if isinstance(e, int) and e >= 0:
        if e == 0:
            return 1., 1.
        if e % 2 == 1:
            return _ipow(lo, e), _ipow(hi, e)
        if lo >= 0:
            return _ipow(lo, e), _ipow(hi, e)
        if hi <= 0:
            return _ipow(hi, e), _ipow(lo, e)
        return 0., max(_ipow(lo, e), _ipow(hi, e))
    if isinstance(e, int):
        # negative integer power
        if lo > 0 or hi < 0:
            a, b = _ipow(lo, -e), _ipow(hi, -e)
            v = [0. if abs(x) == INF else 1. / x for x in (a, b) if x != 0]
            if len(v) < 2:
                return (0., INF) if (e % 2 == 0 or lo > 0) else (-INF, 0.)
            return min(v), max(v)
        if lo == 0:
            return (0. if hi == INF else 1. / _ipow(hi, -e)), INF
        return (0., INF) if e % 2 == 0 else (-INF, INF)
    lo = max(lo, 0.)
    hi = max(hi, 0.)
    try:
        if e > 0:
            return lo ** e, (hi ** e if hi < INF else INF)
        return (0. if hi == INF else (hi ** e if hi > 0 else INF)), (lo ** e if lo > 0 else INF)
    except OverflowError:
        return 0., INF


def _ipow(x, n):
    try:
        return x ** n
    except OverflowError:
        return INF if (x > 0 or n % 2 == 0) else -INF


def _imul(a, b, c, d):
    v = []
    for x in (a, b):
        for y in (c, d):
            v.append(0. if (x == 0 or y == 0) else x * y)
    return min(v), max(v)


# --------------------------------------------------------------------------
# Polynomials

CANCEL = 2e-13
MAX_TERMS = 20000


class Poly(object):
    __slots__ = ('t', '_iv', '_z', '_atoms', '_h', '_nn')
    _c = {}

    def __init__(self, t):
        self.t = t
        self._nn = False        # built as a sum of squares
        self._iv = None
        self._z = None
        self._atoms = None
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = float(c)
        p = Poly._c.get(c)
        if p is None:
            p = Poly({(): c} if c != 0 else {})
            if len(Poly._c) < 100000:
                Poly._c[c] = p
        return p

    @staticmethod
    def atom(a, e=1):
        return Poly({((a.id, e),): 1.0})

    # -- queries
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0.0)

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s.add(a)
            self._atoms = frozenset(s)
        return self._atoms

    def interval(self):
        if self._iv is None:
            lo = hi = 0.0
            for m, c in self.t.items():
                a, b = c, c
                for aid, e in m:
                    at = ATOMS[aid]
                    p, q = _pow_iv(at.lo, at.hi, e)
                    a, b = _imul(a, b, p, q)
                lo += a
                hi += b
                if lo != lo:
                    lo = -INF
                if hi != hi:
                    hi = INF
            self._iv = (lo, hi)
            if len(self.t) == 2 or len(self.t) == 3:
                self._refine()
            if self._nn and self._iv[0] < 0:
                self._iv = (0., max(0., self._iv[1]))
        return self._iv

    def _refine(self):
        # bounds by factoring a common positive monomial (x*a + x*b)
        cm = self.common()
        if cm:
            q = self.divmono(cm)
            lo, hi = q.interval()
            a, b = 1., 1.
            for aid, e in cm:
                at = ATOMS[aid]
                p, r = _pow_iv(at.lo, at.hi, e)
                a, b = _imul(a, b, p, r)
            a, b = _imul(a, b, lo, hi)
            self._iv = (max(self._iv[0], a), min(self._iv[1], b))

    def common(self):
        """common monomial of positive atoms"""
        it = iter(self.t)
        try:
            m0 = next(it)
        except StopIteration:
            return ()
        com = {a: e for a, e in m0 if ATOMS[a].lo > 0}
        for m in it:
            if not com:
                break
            d = dict(m)
            for a in list(com):
                e2 = d.get(a, 0)
                e1 = com[a]
                if e1 > 0 and e2 > 0:
                    com[a] = min(e1, e2)
                elif e1 < 0 and e2 < 0:
                    com[a] = max(e1, e2)
                else:
                    del com[a]
        for a in list(com):
            if ATOMS[a].kind == 'exp':
                del com[a]
        return tuple(sorted(com.items()))

    def divmono(self, cm):
        d = dict(cm)
        out = {}
        for m, c in self.t.items():
            mm = []
            seen = set()
            for a, e in m:
                seen.add(a)
                e = _nexp(e - d.get(a, 0))
                if e != 0:
                    mm.append((a, e))
            for a in d:
                if a not in seen:
                    mm.append((a, _nexp(-d[a])))
            mm.sort()
            out[tuple(mm)] = out.get(tuple(mm), 0.) + c
        return Poly(out)

    # -- arithmetic
    def add(self, o, s=1.0):
        if not o.t:
            return self
        if not self.t:
            return o if s == 1.0 else o.scale(s)
        if len(self.t) < len(o.t) and s == 1.0:
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            c = c * s
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                y = x + c
                if abs(y) <= CANCEL * max(abs(x), abs(c)):
                    del r[m]
                else:
                    r[m] = y
        return Poly(r)

    def scale(self, k):
        if k == 1.0:
            return self
        if k == 0.0:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def neg(self):
        return self.scale(-1.0)

    def mul(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > MAX_TERMS:
            # keep the product opaque: intern the larger factor as a base
            a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
            at, k = base_atom(a)
            return b.mul(Poly.atom(at)).scale(k)
        r = {}
        mx = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                m = _mono_mul(m1, m2)
                if type(m) is tuple:
                    x = r.get(m)
                    if x is None:
                        r[m] = c
                        mx[m] = abs(c)
                    else:
                        r[m] = x + c
                        if abs(c) > mx[m]:
                            mx[m] = abs(c)
                else:
                    m = m.scale(c)
                    extra = m if extra is None else extra.add(m)
        for m in [m for m, c in r.items() if abs(c) <= CANCEL * mx[m]]:
            del r[m]
        p = Poly(r)
        return p if extra is None else p.add(extra)

    def ipow(self, n):
        if n == 0:
            return ONE
        if n == 1:
            return self
        if n == 2:
            return self.mul(self)
        h = self.ipow(n // 2)
        h = h.mul(h)
        return h.mul(self) if n % 2 else h

    # -- z3
    def zexpr(self):
        if self._z is None:
            terms = []
            for m, c in self.t.items():
                terms.append(_mono_z(m, c))
            if not terms:
                self._z = rv(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(terms)
        return self._z

    def __repr__(self):
        out = []
        for m, c in list(self.t.items())[:12]:
            s = '*'.join('%s^%s' % (ATOMS[a], e) if e != 1 else '%s' % ATOMS[a] for a, e in m)
            out.append('%.6g%s' % (c, ('*' + s) if s else ''))
        return ' + '.join(out) + (' + ...' if len(self.t) > 12 else '') if out else '0'


ZERO = Poly({})
ONE = Poly({(): 1.0})
_z3cache = {}
_trig_base = {}


def _merge(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a)
        if x is None:
            d[a] = e
        else:
            y = _nexp(x + e)
            if y == 0 or abs(y) < 1e-12:
                del d[a]
            else:
                d[a] = y
    return d


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = _merge(m1, m2)
    special = None
    nexp = 0
    for a, e in d.items():
        k = ATOMS[a].kind
        if k == 'var':
            continue
        if k == 'exp':
            nexp += 1
            if nexp > 1 or e != 1:
                special = 'exp'
        elif k == 'sin':
            if isinstance(e, int) and e >= 2:
                special = special or 'rw'
        elif k == 'base':
            if e >= 1:
                special = special or 'rw'
        elif k == 'abs':
            if isinstance(e, int) and (e >= 2 or e <= -2):
                special = special or 'rw'
        elif k == 'bool':
            if e != 1:
                special = special or 'rw'
    if special is None:
        return tuple(sorted(d.items()))
    # general rewriting
    res = ONE
    plain = {}
    eacc = None
    for a, e in d.items():
        at = ATOMS[a]
        k = at.kind
        if k == 'exp':
            q = at.args[0].scale(float(e))
            eacc = q if eacc is None else eacc.add(q)
        elif k == 'sin' and isinstance(e, int) and e >= 2:
            c2 = ONE.add(Poly.atom(at.extra, 2), -1.0)
            res = res.mul(c2.ipow(e // 2))
            if e % 2:
                plain[a] = 1
        elif k == 'base' and e >= 1:
            n = int(math.floor(e + 1e-12))
            fr = _nexp(e - n)
            if len(at.args[0].t) ** n <= 4000:
                res = res.mul(at.args[0].ipow(n))
                if fr != 0:
                    plain[a] = fr
            else:
                plain[a] = e
        elif k == 'abs' and isinstance(e, int) and abs(e) >= 2:
            n = (abs(e) // 2)
            sq = at.args[0].mul(at.args[0])
            res = res.mul(sq.ipow(n) if e > 0 else ppow(sq, -n))
            if e % 2:
                plain[a] = 1 if e > 0 else -1
        elif k == 'bool' and e > 0:
            plain[a] = 1
        else:
            plain[a] = e
    p = Poly({tuple(sorted(plain.items())): 1.0})
    if res is not ONE:
        # multiply without re-triggering on the plain part
        p = res.mul(p) if plain else res
    if eacc is not None:
        p = p.mul(pexp(eacc)) if not p.is_const() else pexp(eacc).scale(p.cval())
    return p


# -- interning of polynomials up to rounding
_shape = {}


def intern_poly(p):
    """Return a canonical representative of p: an already interned polynomial with
    the same monomials and coefficients equal up to 1e-10 (relative), or p itself."""
    key = frozenset(p.t)
    lst = _shape.setdefault(key, [])
    for q in lst:
        ok = True
        for m, c in p.t.items():
            d = q.t[m]
            if abs(c - d) > 1e-10 * max(abs(c), abs(d)):
                ok = False
                break
        if ok:
            return q
    lst.append(p)
    return p


def mark_nn(p):
    """p is known to be non-negative for every value of its atoms"""
    if not p.is_const():
        p._nn = True
        if p._iv is not None and p._iv[0] < 0:
            p._iv = (0., max(0., p._iv[1]))
    return p


def _nn(p):
    return p._nn or (p.is_const() and p.cval() >= 0)


def mkatom(kind, name, args, key, lo, hi, deps, extra=None):
    k = (kind,) + key
    a = _intern.get(k)
    if a is None:
        a = Atom(kind, name, args, lo, hi, deps, extra)
        _intern[k] = a
    return a


def base_atom(p):
    """(atom, k) with p == k * atom value; atom is the interned normalised p."""
    # normalise by the coefficient of the 'first' monomial
    m0 = min(p.t, key=lambda m: (len(m), m))
    # prefer a stable positive scale: max |coef| of the first monomial
    k = abs(p.t[m0])
    q = intern_poly(p.scale(1.0 / k))
    if p._nn and not q._nn:
        mark_nn(q)
    lo, hi = q.interval()
    at = mkatom('base', 'B', (q,), (id(q),), lo, hi, q.atoms())
    if q._nn and at.lo < 0:
        at.lo = 0.
    return at, k


def ppow(p, e):
    """p ** e for polynomials; caller guarantees p != 0 (negative e) / p >= 0 (fractional e)."""
    e = _nexp(e)
    if e == 0:
        return ONE
    if isinstance(e, int) and e > 0:
        if len(p.t) ** e <= 4000 or len(p.t) == 1:
            r = p.ipow(e)
            _note_root(p, r, e)
            return r
        at, k = base_atom(p)
        return Poly.atom(at, e).scale(k ** e)
    if p.is_const():
        return Poly.const(p.cval() ** e)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _monopow(m, c, e)
    # pull out common positive monomial
    cm = p.common()
    if cm:
        q = p.divmono(cm)
        if len(q.t) == len(p.t):
            return _monopow(cm, 1.0, e).mul(_basepow(q, e))
    return _basepow(p, e)


_roots = {}     # id of the base atom of r -> (p, n): r is a positive multiple of p ** n


def _note_root(p, r, n):
    """remember that r == p ** n, so that (p ** n) ** e and p ** (n e) are the same"""
    if 2 <= len(p.t) <= 4 and len(r.t) > 1:
        cp, cr = p.common(), r.common()
        p = p.divmono(cp) if cp else p
        r = r.divmono(cr) if cr else r
        if len(p.t) > 1 and len(r.t) > 1:
            _roots.setdefault(base_atom(r)[0].id, (p, n))


def _square_root(p):
    """q with q ** 2 == p (up to rounding), for small sums that are perfect squares; otherwise None"""
    if not 3 <= len(p.t) <= 10:
        return None
    if any(not isinstance(e, int) for m in p.t for _, e in m):
        return None
    ids = sorted(set(a for m in p.t for a, _ in m))
    if len(ids) > 4:
        return None

    def order(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in ids)
    terms = dict((order(m), c) for m, c in p.t.items())
    if any(min(v) < 0 for v in terms):
        return None
    top = max(terms)
    if terms[top] <= 0 or any(x % 2 for x in top):
        return None
    low = min(terms)
    if terms[low] <= 0 or any(x % 2 for x in low):
        return None
    lead, lc = tuple(x // 2 for x in top), math.sqrt(terms[top])
    root = {lead: lc}
    for _ in range(4):
        rest = dict(terms)
        for a, x in root.items():
            for b, y in root.items():
                k = tuple(i + j for i, j in zip(a, b))
                rest[k] = rest.get(k, 0.) - x * y
        scale = max(abs(v) for v in terms.values())
        rest = dict((k, v) for k, v in rest.items() if abs(v) > 1e-12 * max(abs(terms.get(k, 0.)), 1e-6 * scale))
        if not rest:
            return Poly(dict((tuple((a, x) for a, x in zip(ids, k) if x), v) for k, v in root.items()))
        t = max(rest)
        m = tuple(i - j for i, j in zip(t, lead))
        if min(m) < 0 or m >= lead or m in root:
            return None
        root[m] = rest[t] / (2. * lc)
    return None


_square_tried = set()


def _basepow(p, e):
    at, k = base_atom(p)
    if at.id not in _roots and at.id not in _square_tried:
        _square_tried.add(at.id)
        q = _square_root(at.args[0])
        if q is not None:
            if q.interval()[1] < 0:
                q = q.neg()
            _roots[at.id] = (q, 2)
    if at.id in _roots:
        q, n = _roots[at.id]
        lo, hi = q.interval()
        if lo > 0 or (isinstance(e, int) and e < 0):
            # scale: compare one coefficient
            r = q.ipow(n)
            m = next(iter(p.t))
            f = p.t[m] / r.t[m]
            if f > 0:
                b, kq = base_atom(q)
                return Poly.atom(b, _nexp(n * e)).scale(kq ** (n * e) * f ** e)
    return Poly.atom(at, e).scale(k ** e)


def _monopow(m, c, e):
    if isinstance(e, int):
        out = Poly.const(c ** e)
        for a, x in m:
            out = out.mul(_atompow(a, _nexp(x * e)))
        return out
    # fractional exponent: split into factors known nonnegative
    out = ONE
    rest = {}
    k = c
    for a, x in m:
        at = ATOMS[a]
        if at.lo >= 0:
            out = out.mul(_atompow(a, _nexp(x * e)))
        elif at.hi <= 0 and isinstance(x, int):
            # (-a) >= 0
            na, kk = base_atom(Poly.atom(at).neg())
            out = out.mul(Poly.atom(na, _nexp(x * e))).scale(kk ** (x * e))
            if x % 2:
                k = -k
        elif isinstance(x, int) and x % 2 == 0:
            out = out.mul(ppow(pabs(Poly.atom(at)), _nexp(x * e)))
        else:
            rest[a] = x
    if rest:
        q = Poly({tuple(sorted(rest.items())): math.copysign(1., k)})
        at, kk = base_atom(q)
        out = out.mul(Poly.atom(at, e)).scale((kk) ** e)
        return out.scale(abs(k) ** e)
    if k < 0:
        return out.scale(float('nan'))
    return out.scale(k ** e)


def _atompow(a, e):
    at = ATOMS[a]
    if at.kind == 'exp':
        return pexp(at.args[0].scale(float(e)))
    m = ((a, 1),)
    if e == 1:
        return Poly({m: 1.0})
    if at.kind == 'base' and e >= 1:
        n = int(math.floor(e + 1e-12))
        fr = _nexp(e - n)
        r = at.args[0].ipow(n)
        return r if fr == 0 else r.mul(Poly.atom(at, fr))
    if at.kind == 'abs' and isinstance(e, int) and e % 2 == 0:
        return ppow(at.args[0].mul(at.args[0]), e // 2)
    if at.kind == 'sin' and isinstance(e, int) and e >= 2:
        r = ONE.add(Poly.atom(at.extra, 2), -1.0).ipow(e // 2)
        return r.mul(Poly.atom(at)) if e % 2 else r
    if at.kind == 'bool' and isinstance(e, (int, float)) and e > 0:
        return Poly({m: 1.0})
    return Poly({((a, e),): 1.0})


_expcache = {}


def pexp(p):
    if p.is_const():
        c = p.cval()
        return Poly.const(math.exp(c) if c < 709 else INF)
    k = p.cval()
    if k != 0. and abs(k) <= 30:
        q = Poly({m: c for m, c in p.t.items() if m != ()})
        return pexp(q).scale(math.exp(k))
    # exp(log x) = x
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log':
            return ppow(ATOMS[m[0][0]].args[0], c)
    q = intern_poly(p)
    lo, hi = q.interval()

    def ex(x):
        return 0. if x < -745 else (INF if x > 709 else math.exp(x))
    at = mkatom('exp', 'exp', (q,), (id(q),), ex(lo), ex(hi), q.atoms())
    return Poly.atom(at)


def pabs(p):
    lo, hi = p.interval()
    if lo >= 0:
        return p
    if hi <= 0:
        return p.neg()
    if len(p.t) == 1:
        (m, c), = p.t.items()
        pos, rest = [], []
        for a, e in m:
            at = ATOMS[a]
            if at.lo >= 0:
                pos.append((a, e))
            else:
                rest.append((a, e))
        q = Poly({tuple(rest): 1.0})
        out = Poly({tuple(pos): abs(c)})
    else:
        at, k = base_atom(p)
        m0 = min(p.t, key=lambda m: (len(m), m))
        q = at.args[0]
        if q.t[m0] < 0:
            q = intern_poly(q.neg())
        out = Poly.const(k)
    q = intern_poly(q)
    lo, hi = q.interval()
    at = mkatom('abs', 'abs', (q,), (id(q),), 0., max(abs(lo), abs(hi)), q.atoms())
    return out.mul(Poly.atom(at))


def plog(p):
    if p.is_const():
        return Poly.const(math.log(p.cval()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(ATOMS[a].lo >= 0 for a, _ in m):
            out = Poly.const(math.log(c))
            for a, e in m:
                at = ATOMS[a]
                if at.kind == 'exp':
                    out = out.add(at.args[0].scale(float(e)))
                else:
                    out = out.add(_logatom(Poly.atom(at)).scale(float(e)))
            return out
    cm = p.common()
    if cm:
        q = p.divmono(cm)
        return plog(Poly({cm: 1.0})).add(plog(q))
    at, k = base_atom(p)
    return _logatom(at.args[0]).add(Poly.const(math.log(k)))


def _logatom(q):
    q = intern_poly(q)
    lo, hi = q.interval()

    def lg(x):
        return -INF if x <= 0 else (INF if x == INF else math.log(x))
    at = mkatom('log', 'log', (q,), (id(q),), lg(lo), lg(hi), q.atoms())
    return Poly.atom(at)


def _normsign(p):
    """(q, s): p == s*q with q having a positive leading coefficient."""
    m0 = min(p.t, key=lambda m: (len(m), m))
    if p.t[m0] < 0:
        return p.neg(), -1.0
    return p, 1.0


def patan(p):
    if p.is_const():
        return Poly.const(math.atan(p.cval()))
    q, s = _normsign(p)
    q = intern_poly(q)
    lo, hi = q.interval()
    at = mkatom('atan', 'atan', (q,), (id(q),), math.atan(lo), math.atan(hi), q.atoms())
    return Poly.atom(at).scale(s)


def pasin(p):
    if p.is_const():
        return Poly.const(math.asin(p.cval()))
    q, s = _normsign(p)
    q = intern_poly(q)
    lo, hi = q.interval()
    at = mkatom('asin', 'asin', (q,), (id(q),), math.asin(max(-1., min(1., lo))),
                math.asin(max(-1., min(1., hi))), q.atoms())
    return Poly.atom(at).scale(s)


def ptrig(p):
    """(cos p, sin p)"""
    k = p.cval()
    rest = Poly({m: c for m, c in p.t.items() if m != ()})
    ck, sk = math.cos(k), math.sin(k)
    # snap multiples of pi/2
    r = k / (math.pi / 2)
    if abs(r - round(r)) < 1e-12:
        n = int(round(r)) % 4
        ck, sk = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][n]
    C, S = Poly.const(ck), Poly.const(sk)
    for m, c in sorted(rest.t.items(), key=lambda x: x[0]):
        c1, s1 = _trig_term(m, c)
        C, S = C.mul(c1).add(S.mul(s1), -1.0), S.mul(c1).add(C.mul(s1))
    return C, S


def _trig_term(m, c):
    sgn = 1.0
    if c < 0:
        sgn, c = -1.0, -c
    if len(m) == 1 and m[0][1] == 1 and abs(c - 1.0) < 1e-13:
        at = ATOMS[m[0][0]]
        if at.kind == 'asin':
            q = at.args[0]
            return ppow_nn(ONE.add(q.mul(q), -1.0), 0.5), q.scale(sgn)
        if at.kind == 'acos':
            q = at.args[0]
            return q, ppow_nn(ONE.add(q.mul(q), -1.0), 0.5).scale(sgn)
        if at.kind == 'atan':
            q = at.args[0]
            h = ppow(ONE.add(q.mul(q)), -0.5)
            return h, q.mul(h).scale(sgn)
    base = _trig_base.setdefault(m, c)
    ratio = c / base
    n = round(ratio)
    if n >= 1 and abs(ratio - n) < 1e-11 and n <= 6:
        c1, s1 = _trig_atoms(m, base)
        C, S = c1, s1
        for _ in range(n - 1):
            C, S = C.mul(c1).add(S.mul(s1), -1.0), S.mul(c1).add(C.mul(s1))
        return C, S.scale(sgn)
    c1, s1 = _trig_atoms(m, c)
    return c1, s1.scale(sgn)


def ppow_nn(p, e):
    lo, hi = p.interval()
    if p.is_const():
        return Poly.const(max(p.cval(), 0.) ** e)
    return ppow(p, e)


def _trig_atoms(m, c):
    q = intern_poly(Poly({m: c}))
    lo, hi = q.interval()
    clo, chi, slo, shi = -1., 1., -1., 1.
    if -math.pi / 2 <= lo and hi <= math.pi / 2:
        clo = max(0., min(math.cos(lo), math.cos(hi)) - 1e-15)
        if lo >= 0:
            chi = math.cos(lo)
        slo, shi = math.sin(lo), math.sin(hi)
    elif 0 <= lo and hi <= math.pi:
        slo = 0.
        clo, chi = math.cos(hi), math.cos(lo)
    ca = mkatom('cos', 'cos', (q,), (id(q),), clo, chi, q.atoms())
    sa = mkatom('sin', 'sin', (q,), (id(q),), slo, shi, q.atoms() | {ca.id}, extra=ca)
    return Poly.atom(ca), Poly.atom(sa)


# --------------------------------------------------------------------------
# translation to z3

_pows = {}      # atom id -> exponents that have a z3 variable


def _powvar(at, e):
    """z3 var for at ** e when e is not a positive integer"""
    k = (at.id, e)
    v = _z3cache.get(k)
    if v is None:
        v = z3.Real('%s_%d_p%s' % (at.name, at.id, str(e).replace('-', 'm').replace('.', 'd')))
        _z3cache[k] = v
        _pows.setdefault(at.id, set()).add(e)
    return v


def _atom_base_z(at):
    if at.kind == 'base':
        return at.args[0].zexpr()
    return at.z


def _half(e):
    return isinstance(e, float) and float(2 * e).is_integer()


def _mono_z(m, c):
    f = []
    for a, e in m:
        at = ATOMS[a]
        if isinstance(e, int) and e > 0:
            z = _atom_base_z(at)
            f.extend([z] * e)
        elif isinstance(e, int):
            f.extend([_powvar(at, -1)] * (-e))
        elif _half(e):
            # x^(k/2): powers of the root variable / its inverse
            n = int(2 * e)
            f.extend([_powvar(at, 0.5 if n > 0 else -0.5)] * abs(n))
        else:
            f.append(_powvar(at, e))
    if not f:
        return rv(c)
    if c != 1.0:
        f.insert(0, rv(c))
    if len(f) == 1:
        return f[0]
    r = f[0]
    for x in f[1:]:
        r = r * x
    return r


def exponents_used(polys):
    """{(atom id, e)} needed by the polynomials"""
    s = set()
    for p in polys:
        for m in p.t:
            for a, e in m:
                s.add((a, e))
    return s


class AxiomSet(object):
    """Collects, for the polys given, the z3 axioms of all atoms reachable."""

    def __init__(self):
        self.done_atoms = set()
        self.done_pow = set()
        self.ax = []
        self.exps = []
        self.npow = {}
        self.vars = set()

    def poly(self, p):
        for m in p.t:
            for a, e in m:
                self._atom(a)
                self._pow(a, e)

    def atoms(self, ids):
        for a in ids:
            self._atom(a)

    def _pow(self, a, e):
        at = ATOMS[a]
        if isinstance(e, int) and e > 0:
            return
        if isinstance(e, int):
            e = -1
        elif _half(e):
            e = 0.5 if e > 0 else -0.5
        k = (a, e)
        if k in self.done_pow:
            return
        self.done_pow.add(k)
        z = _atom_base_z(at)
        v = _powvar(at, e)
        if e == -1:
            self.ax.append(v * z == 1)
        elif e == 0.5:
            self.ax.append(v >= 0)
            self.ax.append(v * v == z)
        elif e == -0.5:
            self.ax.append(v > 0)
            self.ax.append(v * v * z == 1)
        else:
            self.ax.append(z3.Implies(z > 0, v > 0))
            one = rv(1)
            if e > 0:
                self.ax.append(z3.Implies(z >= 0, (z > one) == (v > one)))
                self.ax.append(z3.Implies(z >= 0, (z < one) == (v < one)))
                self.ax.append(z3.Implies(z == 0, v == 0))
                if e < 1:
                    self.ax.append(z3.Implies(z > one, v < z))
                    self.ax.append(z3.Implies(z3.And(z > 0, z < one), v > z))
            else:
                self.ax.append(z3.Implies(z > 0, (z > one) == (v < one)))
                self.ax.append(z3.Implies(z > 0, (z < one) == (v > one)))
            lst = self.npow.setdefault(e, [])
            if len(lst) < 8:
                for zz, vv in lst:
                    pos = z3.And(z >= 0, zz >= 0) if e > 0 else z3.And(z > 0, zz > 0)
                    if e > 0:
                        self.ax.append(z3.Implies(pos, (z < zz) == (v < vv)))
                    else:
                        self.ax.append(z3.Implies(pos, (z < zz) == (v > vv)))
            lst.append((z, v))
            lo, hi = _pow_iv(at.lo, at.hi, e)
            if lo > -INF:
                self.ax.append(v >= rv(lo * (1 - 1e-12) if lo > 0 else lo * (1 + 1e-12)))
            if hi < INF:
                self.ax.append(v <= rv(hi * (1 + 1e-12) if hi > 0 else hi * (1 - 1e-12)))

    def _bounds(self, at, strict=False):
        if at.lo > -INF:
            lo = at.lo
            if at.kind != 'var':
                lo = lo - 1e-12 * abs(lo)
            self.ax.append(at.z >= rv(lo))
        if at.hi < INF:
            hi = at.hi
            if at.kind != 'var':
                hi = hi + 1e-12 * abs(hi)
            self.ax.append(at.z <= rv(hi))

    def _atom(self, a):
        pw = _pows.get(a)
        if pw:
            for e in list(pw):
                self._pow(a, e)
        if a in self.done_atoms:
            return
        self.done_atoms.add(a)
        at = ATOMS[a]
        k = at.kind
        if k == 'var':
            self.vars.add(a)
            self._bounds(at)
            return
        if k == 'base':
            self.poly(at.args[0])
            return
        if k == 'ite':
            c, p, q = at.args
            self.atoms(c.atoms)
            self.poly(p)
            self.poly(q)
            self.ax.append(z3.If(c.z, at.z == p.zexpr(), at.z == q.zexpr()))
            return
        if k == 'bool':
            c = at.args[0]
            self.atoms(c.atoms)
            self.ax.append(at.z == z3.If(c.z, rv(1), rv(0)))
            return
        if k == 'uf':
            for p in at.args[1]:
                self.poly(p)
            self._bounds(at)
            if at.extra is not None:
                for x in at.extra(at):
                    self.ax.append(x)
            return
        p = at.args[0]
        self.poly(p)
        z = p.zexpr()
        v = at.z
        if k == 'abs':
            self.ax.append(v == z3.If(z >= 0, z, -z))
        elif k == 'exp':
            self._bounds(at)
            self.ax.append(v > 0)
            self.ax.append(v >= 1 + z)
            self.ax.append((z < 0) == (v < 1))
            self.ax.append((z > 0) == (v > 1))
            self.ax.append(z3.Implies(z < 0, v * (1 - z) <= 1))
            if len(self.exps) < 10:
                for zz, vv in self.exps:
                    self.ax.append((z < zz) == (v < vv))
                    self.ax.append((z == zz) == (v == vv))
            self.exps.append((z, v))
        elif k == 'log':
            self._bounds(at)
            self.ax.append(z3.Implies(z > 0, v <= z - 1))
            self.ax.append(z3.Implies(z > 0, (v > 0) == (z > 1)))
            self.ax.append(z3.Implies(z > 0, (v < 0) == (z < 1)))
            lst = self.npow.setdefault('log', [])
            if len(lst) < 8:
                for zz, vv in lst:
                    self.ax.append(z3.Implies(z3.And(z > 0, zz > 0), (z < zz) == (v < vv)))
            lst.append((z, v))
        elif k == 'atan':
            self._bounds(at)
            self.ax.append((z > 0) == (v > 0))
            self.ax.append((z < 0) == (v < 0))
            self.ax.append(z3.Implies(z > 0, v <= z))
            self.ax.append(z3.Implies(z < 0, v >= z))
            # atan(x) >= x/(1+x^2) and <= pi/2
            self.ax.append(z3.Implies(z > 0, v * (1 + z * z) >= z))
            self.ax.append(z3.Implies(z < 0, v * (1 + z * z) <= z))
            lst = self.npow.setdefault('atan', [])
            if len(lst) < 8:
                for zz, vv in lst:
                    self.ax.append((z < zz) == (v < vv))
            lst.append((z, v))
        elif k == 'asin':
            self._bounds(at)
            self.ax.append((z > 0) == (v > 0))
            self.ax.append((z < 0) == (v < 0))
        elif k == 'acos':
            self._bounds(at)
        elif k == 'cos':
            self._bounds(at)
            sa = _intern.get(('sin', id(p)))
            if sa is not None:
                self.ax.append(v * v + sa.z * sa.z == 1)
                if sa.id not in self.done_atoms:
                    self._atom(sa.id)
            self._trig_axioms(p, v, sa.z if sa is not None else None)
        elif k == 'sin':
            self._bounds(at)
            self._atom(at.extra.id)
        else:
            raise Unsupported('atom kind ' + k)

    def _trig_axioms(self, p, c, s):
        """quadrant axioms on a bounded angle"""
        lo, hi = p.interval()
        if lo == -INF or hi == INF or hi - lo > 8 * math.pi:
            return
        z = p.zexpr()
        h = math.pi / 2
        n0 = int(math.floor(lo / h))
        n1 = int(math.ceil(hi / h))
        for n in range(n0, n1):
            cond = z3.And(z > rv(n * h), z < rv((n + 1) * h))
            q = n % 4
            con = []
            if q == 0:
                con = [c > 0] + ([s > 0] if s is not None else [])
            elif q == 1:
                con = [c < 0] + ([s > 0] if s is not None else [])
            elif q == 2:
                con = [c < 0] + ([s < 0] if s is not None else [])
            else:
                con = [c > 0] + ([s < 0] if s is not None else [])
            self.ax.append(z3.Implies(cond, z3.And(*con)))


# --------------------------------------------------------------------------
# Symbolic booleans and scalars

class SymBool(object):
    __slots__ = ('z', 'atoms', 'ev')
    __array_priority__ = 1e6

    def __init__(self, z, atoms):
        self.z = z
        self.atoms = frozenset(atoms)

    @staticmethod
    def mk(z, atoms):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SymBool(z, atoms)

    def __bool__(self):
        return CTX.fork(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    # arithmetic: as 0/1
    def _num(self):
        return bool_to_sym(self)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return b_and(self, o)
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __truediv__(self, o):
        return self._num() / o

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else b_not(self)
        if isinstance(o, SymBool):
            return SymBool.mk(self.z == o.z, self.atoms | o.atoms)
        return self._num() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __hash__(self):
        return hash(self.z)

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return int(self)

    def __float__(self):
        return float(int(self))

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, *inputs, **kw)

    def __repr__(self):
        return 'SymBool(%s)' % self.z

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _npb(x):
    """what numpy's scalars give, so that ~ is a logical not"""
    return np.bool_(x) if x is True or x is False else x


def _isb(x):
    return isinstance(x, (bool, np.bool_))


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    if _isb(x):
        return bool(x)
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def b_and(a, b):
    a, b = as_bool(a), as_bool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SymBool.mk(z3.And(a.z, b.z), a.atoms | b.atoms)


def b_or(a, b):
    a, b = as_bool(a), as_bool(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SymBool.mk(z3.Or(a.z, b.z), a.atoms | b.atoms)


def b_not(a):
    a = as_bool(a)
    if isinstance(a, bool):
        return not a
    return SymBool.mk(z3.Not(a.z), a.atoms)


def bool_to_sym(b):
    if _isb(b):
        return 1.0 if b else 0.0
    key = ('bool', b.z.get_id())
    at = _intern.get(key)
    if at is None:
        at = Atom('bool', 'b', (b,), 0., 1., b.atoms)
        _intern[key] = at
    return Sym(Poly.atom(at))


def _poly_of(x):
    if isinstance(x, Sym):
        return x.p
    return Poly.const(x)


_NUM = (int, float, np.integer, np.floating, bool, np.bool_)


def is_num(x):
    return isinstance(x, _NUM)


def _bad(x):
    return x != x or x in (INF, -INF)


def _nan_or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = b_or(a, b)
    return None if r is False else r


def mk(p, nan=None):
    """Wrap a poly; constants collapse to floats."""
    if nan is None and p.is_const():
        return p.cval()
    return Sym(p, nan)


class Sym(object):
    __slots__ = ('p', 'nan')
    __array_priority__ = 1e6

    def __init__(self, p, nan=None):
        self.p = p
        self.nan = nan          # None or SymBool/True: value is NaN when it holds

    # ---- numpy-scalar-like attributes
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, t, **k):
        if t in (int, np.int64, np.int32, 'int', np.dtype(int)):
            return int(self)
        if t in (bool, np.bool_, 'bool'):
            return self != 0
        return self

    def ravel(self):
        from . import arr
        return arr.mkarr([self])

    flatten = ravel

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)

    # ---- arithmetic
    def _other(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return bool_to_sym(o)
        if isinstance(o, _NUM):
            return float(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return self._other(o.item())
            return NotImplemented
        return NotImplemented

    def __add__(self, o):
        o = self._other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Sym):
            r = self.p.add(o.p)
            if self.p._nn and o.p._nn:
                mark_nn(r)
            return mk(r, _nan_or(self.nan, o.nan))
        if _bad(o):
            return self._badop(o)
        r = self.p.add(Poly.const(o))
        if self.p._nn and o >= 0:
            mark_nn(r)
        return mk(r, self.nan)

    def _badop(self, o):
        if o != o:
            return float('nan')
        if self.nan is not None and self.nan is not False:
            if bool(self.nan):
                return float('nan')
        return o

    __radd__ = __add__

    def __sub__(self, o):
        o = self._other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Sym):
            return mk(self.p.add(o.p, -1.0), _nan_or(self.nan, o.nan))
        if _bad(o):
            return self._badop(-o)
        return mk(self.p.add(Poly.const(-o)), self.nan)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return mk(self.p.neg(), self.nan)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = self._other(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Sym):
            r = self.p.mul(o.p)
            if self.p.t == o.p.t:
                _note_root(self.p, r, 2)
            if (self.p._nn and o.p._nn) or self.p.t == o.p.t:
                mark_nn(r)
            return mk(r, _nan_or(self.nan, o.nan))
        if _bad(o):
            if o != o:
                return o
            if self == 0:
                return float('nan')
            return self._badop(o if self > 0 else -o)
        r = self.p.scale(o)
        if self.p._nn and o > 0:
            mark_nn(r)
        return mk(r, self.nan)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._other(o)
        if o is NotImplemented:
            return o
        return s_div(self, o)

    def __rtruediv__(self, o):
        o = self._other(o)
        if o is NotImplemented:
            return o
        return s_div(o, self)

    def __floordiv__(self, o):
        return s_floor(s_div(self, self._other(o)))

    def __rfloordiv__(self, o):
        return s_floor(s_div(self._other(o), self))

    def __mod__(self, o):
        q = s_floor(s_div(self, self._other(o)))
        return self - q * o

    def __rmod__(self, o):
        q = s_floor(s_div(self._other(o), self))
        return o - q * self

    def __divmod__(self, o):
        q = s_floor(s_div(self, self._other(o)))
        return q, self - q * o

    def __pow__(self, e):
        if isinstance(e, np.ndarray) and e.ndim:
            return NotImplemented
        return s_pow(self, e)

    def __rpow__(self, b):
        return s_pow(b, self)

    def __abs__(self):
        return mk(pabs(self.p), self.nan)

    # ---- comparisons
    def _cmp(self, o, op):
        o = self._other(o)
        if o is NotImplemented:
            return o
        return s_cmp(self, o, op)

    def __lt__(self, o):
        return _npb(self._cmp(o, '<'))

    def __le__(self, o):
        return _npb(self._cmp(o, '<='))

    def __gt__(self, o):
        return _npb(self._cmp(o, '>'))

    def __ge__(self, o):
        return _npb(self._cmp(o, '>='))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _npb(self._cmp(o, '=='))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return _npb(self._cmp(o, '!='))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        b = self != 0
        return bool(b)

    def __int__(self):
        return int(s_trunc(self))

    def __index__(self):
        raise TypeError('float used as an index')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __round__(self, n=None):
        if n in (None, 0):
            r = s_round(self)
            return int(r) if n is None else r
        return s_round(self * 10 ** n) / 10 ** n

    def __floor__(self):
        return int(s_floor(self))

    def __ceil__(self):
        return int(s_ceil(self))

    def __trunc__(self):
        return int(s_trunc(self))

    def conjugate(self):
        return self

    def is_integer(self):
        return bool(self == s_floor(self))

    # methods numpy looks for on object elements
    def sqrt(self):
        return s_pow(self, 0.5)

    def exp(self):
        return s_exp(self)

    def __repr__(self):
        return 'Sym(%r)' % (self.p,)

    def __format__(self, spec):
        return '<sym>'


def s_div(a, b):
    """a / b with numpy float semantics for a zero denominator"""
    if not isinstance(b, Sym):
        if b == 0:
            if not isinstance(a, Sym):
                return float(np.float64(a) / np.float64(b))
            if a == 0:
                return float('nan')
            s = 1. if not math.copysign(1., b) < 0 else -1.
            return s * (INF if a > 0 else -INF)
        if _bad(b):
            return float('nan') if b != b else 0.0
        return a * (1.0 / b) if isinstance(a, Sym) else a / b
    lo, hi = b.p.interval()
    if not (lo > 0 or hi < 0):
        z = SymBool.mk(b.p.zexpr() == 0, b.p.atoms())
        if b.nan is not None:
            z = b_and(z, b_not(b.nan))
        if z is not False and bool(z):
            return s_div(a, 0.0)
    na = a.nan if isinstance(a, Sym) else None
    if not isinstance(a, Sym) and _bad(a):
        if a != a:
            return a
        return a if b > 0 else -a
    return mk(_poly_of(a).mul(ppow(b.p, -1)), _nan_or(na, b.nan))


def s_pow(b, e):
    if isinstance(e, np.ndarray):
        e = e.item()
    if isinstance(e, SymBool):
        e = bool_to_sym(e)
    if not isinstance(b, Sym) and not isinstance(e, Sym):
        return float(np.power(np.float64(b), e))
    if isinstance(e, Sym):
        # b ** e = exp(e log b), b > 0
        if isinstance(b, Sym):
            if not (b > 0):
                raise Unsupported('symbolic power of a non-positive base')
            lb = Sym(plog(b.p))
        else:
            if b <= 0:
                raise Unsupported('symbolic power of a non-positive base')
            lb = math.log(b)
        return s_exp(e * lb)
    e = _nexp(float(e))
    if e == 0:
        return 1.0
    if e == 1:
        return b
    if isinstance(e, int) and e > 0:
        r = ppow(b.p, e)
        if e % 2 == 0:
            mark_nn(r)
        return mk(r, b.nan)
    if isinstance(e, int):
        return s_div(1.0, mk(ppow(b.p, -e), b.nan))
    lo, hi = b.p.interval()
    if lo < 0:
        neg = s_cmp(b, 0.0, '<')
        if neg is not False and bool(neg):
            return float('nan')
        if b.p.is_const():
            return float(np.power(b.p.cval(), e))
    if e < 0 and lo <= 0:
        z = s_cmp(b, 0.0, '==')
        if z is not False and bool(z):
            return INF
    return mk(ppow(b.p, e), b.nan)


def s_exp(a):
    if not isinstance(a, Sym):
        return float(np.exp(np.float64(a)))
    return mk(pexp(a.p), a.nan)


def s_log(a):
    if not isinstance(a, Sym):
        return float(np.log(np.float64(a)))
    lo, hi = a.p.interval()
    if lo <= 0:
        z = s_cmp(a, 0.0, '<=')
        if z is not False and bool(z):
            z0 = s_cmp(a, 0.0, '==')
            return -INF if bool(z0) else float('nan')
    return mk(plog(a.p), a.nan)


def s_cos(a):
    return mk(ptrig(a.p)[0], a.nan) if isinstance(a, Sym) else math.cos(a)


def s_sin(a):
    return mk(ptrig(a.p)[1], a.nan) if isinstance(a, Sym) else math.sin(a)


def s_tan(a):
    if not isinstance(a, Sym):
        return math.tan(a)
    y = a - _fork_int(a * (1. / math.pi), 'round') * math.pi
    for s in (1., -1.):
        # next to a pole the floating point tangent is finite and very large
        d = s_cmp(y * s, math.pi / 2 - 1e-12, '>=')
        if d is not False and bool(d):
            return s * 1.633e16
    c, n = ptrig(y.p)
    r = mk(n.mul(ppow_nn(c, -1)), a.nan)
    if isinstance(r, Sym):
        _tans.append((r.p, y))
        del _tans[:-40]
    return r


_tans = []      # (tangent, its argument folded to (-pi/2, pi/2))


def s_atan(a):
    if not isinstance(a, Sym):
        return math.atan(a)
    for p, y in _tans:
        for k in (1.0, -1.0):
            d = p.add(a.p, -k)
            if d.is_const() and d.cval() == 0:
                return y * k
    return mk(patan(a.p), a.nan)


def s_asin(a):
    if not isinstance(a, Sym):
        return float(np.arcsin(a))
    lo, hi = a.p.interval()
    if lo < -1 or hi > 1:
        bad = b_or(s_cmp(a, 1.0, '>'), s_cmp(a, -1.0, '<'))
        if bad is not False and bool(bad):
            return float('nan')
    return mk(pasin(a.p), a.nan)


def s_acos(a):
    if not isinstance(a, Sym):
        return float(np.arccos(a))
    r = s_asin(a)
    return r if is_num(r) and r != r else (math.pi / 2) - r


def s_atan2(y, x):
    if is_num(y) and is_num(x):
        return math.atan2(y, x)
    if x > 0:
        return s_atan(s_div(y, x))
    if x < 0:
        return s_atan(s_div(y, x)) + (math.pi if y >= 0 else -math.pi)
    return math.pi / 2 if y > 0 else (-math.pi / 2 if y < 0 else 0.0)


def s_cmp(a, b, op):
    pa, pb = _poly_of(a), None
    nan = _nan_or(a.nan if isinstance(a, Sym) else None, b.nan if isinstance(b, Sym) else None)
    if not isinstance(b, Sym) and _bad(b):
        if b != b:
            r = (op == '!=')
        elif b > 0:
            r = op in ('<', '<=', '!=')
        else:
            r = op in ('>', '>=', '!=')
        pb = None
    elif not isinstance(a, Sym) and _bad(a):
        return s_cmp(b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op])
    else:
        pb = _poly_of(b)
        d = pa.add(pb, -1.0)
        lo, hi = d.interval()
        r = None
        if d.is_const():
            c = d.cval()
            r = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        elif op == '<' and (hi < 0 or lo >= 0):
            r = hi < 0
        elif op == '<=' and (hi <= 0 or lo > 0):
            r = hi <= 0
        elif op == '>' and (lo > 0 or hi <= 0):
            r = lo > 0
        elif op == '>=' and (lo >= 0 or hi < 0):
            r = lo >= 0
        elif op == '==' and (lo > 0 or hi < 0):
            r = False
        elif op == '!=' and (lo > 0 or hi < 0):
            r = True
        if r is None:
            z = d.zexpr()
            zz = {'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0, '==': z == 0, '!=': z != 0}[op]
            r = SymBool(zz, d.atoms())
    if nan is not None and nan is not False:
        if op == '!=':
            return b_or(r, nan)
        return b_and(r, b_not(nan))
    return r


def s_ite(c, a, b):
    c = as_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ab = isinstance(a, SymBool) or _isb(a)
    bb = isinstance(b, SymBool) or _isb(b)
    if ab and bb:
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, SymBool):
        a = bool_to_sym(a)
    if isinstance(b, SymBool):
        b = bool_to_sym(b)
    if not isinstance(a, Sym) and not is_num(a) or not isinstance(b, Sym) and not is_num(b):
        return a if bool(c) else b
    na = a.nan if isinstance(a, Sym) else None
    nb = b.nan if isinstance(b, Sym) else None
    if not isinstance(a, Sym) and _bad(a):
        if a != a:
            na, a = True, 0.0
        else:
            return a if bool(c) else b
    if not isinstance(b, Sym) and _bad(b):
        if b != b:
            nb, b = True, 0.0
        else:
            return a if bool(c) else b
    nan = None
    if na is not None or nb is not None:
        nan = b_or(b_and(c, False if na is None else na), b_and(b_not(c), False if nb is None else nb))
        if nan is False:
            nan = None
    pa, pb = _poly_of(a), _poly_of(b)
    d = pa.add(pb, -1.0)
    if not d.t:
        return mk(pa, nan)
    # a = b + cond*(a-b): linear use of a 0/1 atom when one side is constant
    bs = bool_to_sym(c)
    if pb.is_const() and pa.is_const():
        return mk(pb.add(bs.p.scale(d.cval())), nan)
    if pb.is_const() and pb.cval() == 0.:
        return mk(bs.p.mul(pa), nan)
    if pa.is_const() and pa.cval() == 0.:
        return mk(pb.add(bs.p.mul(pb), -1.0), nan)
    pa, pb = intern_poly(pa), intern_poly(pb)
    key = (c.z.get_id(), id(pa), id(pb))
    l1, h1 = pa.interval()
    l2, h2 = pb.interval()
    at = mkatom('ite', 'ite', (c, pa, pb), key, min(l1, l2), max(h1, h2),
                set(c.atoms) | pa.atoms() | pb.atoms())
    return mk(Poly.atom(at), nan)


# --- integer-valued functions: decided by forking over the feasible values

def _fork_int(x, kind):
    if not isinstance(x, Sym):
        if kind == 'floor':
            return math.floor(x)
        if kind == 'ceil':
            return math.ceil(x)
        if kind == 'round':
            return float(np.round(x))
        return math.trunc(x)
    z = x.p.zexpr()
    at = x.p.atoms()
    if x.nan is not None and x.nan is not False:
        if bool(x.nan):
            return float('nan')
    tried = set()
    for _ in range(200):
        v = CTX.guess(x)
        # the guess may be rounded to a neighbouring integer's range: do not try the same integer twice
        near = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(kind, lambda y: int(np.round(y)))(v)
        k = [j for d in range(200) for j in (near + d, near - d) if j not in tried][0]
        tried.add(k)
        if kind == 'floor':
            cond = z3.And(z >= k, z < k + 1)
        elif kind == 'ceil':
            cond = z3.And(z > k - 1, z <= k)
        elif kind == 'trunc':
            if k > 0:
                cond = z3.And(z >= k, z < k + 1)
            elif k < 0:
                cond = z3.And(z > k - 1, z <= k)
            else:
                cond = z3.And(z > -1, z < 1)
        else:
            lo, hi = rv(k - 0.5), rv(k + 0.5)
            cond = z3.And(z >= lo, z <= hi) if k % 2 == 0 else z3.And(z > lo, z < hi)
        if CTX.fork(SymBool(cond, at)):
            return float(k)
    raise PathLimit('too many integer values')


def s_floor(x):
    return _fork_int(x, 'floor')


def s_ceil(x):
    return _fork_int(x, 'ceil')


def s_round(x):
    return _fork_int(x, 'round')


def s_trunc(x):
    return _fork_int(x, 'trunc')


class _NoCtx(object):
    def fork(self, b):
        raise Unsupported('fork outside a symbolic run')

    def guess(self, x):
        raise Unsupported('guess outside a symbolic run')


CTX = _NoCtx()


def set_ctx(c):
    global CTX
    CTX = c
