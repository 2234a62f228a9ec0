"""Path-exploring symbolic runs of a harness, assertion queries, and the
concrete twin of the same API that replays counterexamples on the real code."""
import math
import random
import time
import traceback
import numpy as np

PI = math.pi


class Violation(Exception):
    """property failed in a concrete run"""
    def __init__(self, label, detail=''):
        Exception.__init__(self, '%s %s' % (label, detail))
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """a concrete run does not satisfy the harness' assumptions"""


class Stop(BaseException):
    """harness asks to end the current path quietly"""


# ==========================================================================
class BaseT(object):
    """API common to symbolic and concrete runs."""
    symbolic = False

    def reals(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real('%s[%s]' % (name, ','.join(map(str, ix))), lo, hi)
        return self.arr(a)

    def flags(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.flag('%s[%s]' % (name, ','.join(map(str, ix))))
        return a

    def ge(self, a, b, label, tol=1e-6):
        self.le(b, a, label, tol)

    def stop(self):
        raise Stop()


def _pairs(a, b, label):
    from_nd = isinstance(a, np.ndarray) or isinstance(b, np.ndarray)
    if not from_nd and not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
        return [(a, b, label)], None
    def o(x):
        if isinstance(x, np.ndarray):
            return x.view(np.ndarray)
        from . import sym as S
        if isinstance(x, (list, tuple)):
            from . import arr as A
            return A.plain(A.mkarr(np.array(x, dtype=object)))
        z = np.empty((), dtype=object)
        z[()] = x
        return z
    a, b = o(a), o(b)
    if a.ndim and b.ndim and a.shape != b.shape:
        return None, 'shape %s != %s' % (a.shape, b.shape)
    a, b = np.broadcast_arrays(a, b)
    out = []
    for ix in np.ndindex(*a.shape):
        out.append((a[ix], b[ix], '%s[%s]' % (label, ','.join(map(str, ix)))))
    return out, None


def _f(x):
    if hasattr(x, 'item'):
        x = x.item()
    return x


# ==========================================================================
class ConcreteT(BaseT):
    """Runs the harness on the real code with concrete values."""

    def __init__(self, values, rng=None, lifted=False):
        self.values = dict(values)
        self.rng = rng
        self.used = {}
        self.obs = {}
        self.labels = []
        self.lifted = lifted
        if lifted:
            from . import arr
            self.np = arr.SHIM
        else:
            self.np = np

    # inputs
    def real(self, name, lo, hi, nice=None):
        v = self.values.get(name)
        if v is None:
            if self.rng is not None:
                v = self.rng.uniform(lo, hi)
                if self.rng.random() < 0.15:
                    v = self.rng.choice([lo, hi, 0.5 * (lo + hi)])
            else:
                v = 0.5 * (lo + hi)
        v = float(v)
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def flag(self, name):
        v = self.values.get(name)
        if v is None:
            v = self.rng.random() < 0.5 if self.rng is not None else False
        v = bool(v)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(lo, hi) if self.rng is not None else lo
        v = int(round(v))
        self.used[name] = v
        return v

    def nanreal(self, name, lo, hi):
        f = self.flag(name + '.nan')
        v = self.real(name, lo, hi)
        return float('nan') if f else v

    def arr(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            f = x.reshape(-1)
            if f.size and all(isinstance(e, (bool, np.bool_)) for e in f):
                return x.astype(bool)
            x = x.astype(float)
        x = np.array(x)
        if self.lifted:
            from . import arr
            return arr.mkarr(x)
        return x

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if not bool(c):
            raise Skip()

    def assume_ge(self, x, c):
        self.assume(x >= c)

    # assertions
    def eq(self, a, b, label, tol=1e-6):
        ps, err = _pairs(a, b, label)
        if err:
            raise Violation(label, err)
        for x, y, l in ps:
            x, y = _f(x), _f(y)
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                if x is None and y is None:
                    continue
                raise Violation(l, 'not a number: %r vs %r' % (x, y))
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= tol:
                raise Violation(l, '%.12g != %.12g' % (x, y))
        self.labels.append(label)

    def le(self, a, b, label, tol=1e-6):
        ps, err = _pairs(a, b, label)
        if err:
            raise Violation(label, err)
        for x, y, l in ps:
            x, y = float(_f(x)), float(_f(y))
            if not x <= y + tol:
                raise Violation(l, '%.12g > %.12g' % (x, y))
        self.labels.append(label)

    def check(self, c, label, detail=''):
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if not bool(c):
            raise Violation(label, detail)
        self.labels.append(label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.labels.append(label)
            return
        except Exception as e:
            raise Violation(label, 'raised %r' % (e,))
        raise Violation(label, 'no exception')

    def isnan(self, x):
        return bool(np.isnan(float(_f(x))))

    def observe(self, name, v):
        self.obs[name] = v

    def note(self, *a):
        pass


# ==========================================================================
class SymT(BaseT):
    symbolic = True

    def __init__(self, run):
        from . import arr, sym
        self.S = sym
        self.A = arr
        self.run = run
        self.np = arr.SHIM

    def real(self, name, lo, hi, nice=None):
        S = self.S
        if lo == hi:
            return float(lo)
        r = self.run
        if name in r.inputs:
            return r.inputs[name][1]
        at = S.Atom('var', _clean(name), (), float(lo), float(hi))
        s = S.Sym(S.Poly.atom(at))
        r.inputs[name] = ('real', s)
        return s

    def flag(self, name):
        S = self.S
        r = self.run
        if name in r.inputs:
            return r.inputs[name][1]
        import_z3 = S.z3
        b = S.SymBool(import_z3.Bool('F_' + _clean(name)), ())
        r.inputs[name] = ('flag', b)
        return b

    def int(self, name, lo, hi):
        """enumerated by forking on solver values"""
        S = self.S
        r = self.run
        if name in r.inputs:
            return r.inputs[name][2]
        at = S.Atom('var', _clean(name), (), float(lo), float(hi))
        s = S.Sym(S.Poly.atom(at))
        r.inputs[name] = ('int', s, None)
        z = s.p.zexpr()
        for v in range(lo, hi + 1):
            if v == hi:
                r.add(z == v, [at.id])
                break
            if r.fork(S.SymBool(z == v, [at.id]), only_true_value=True):
                break
        r.inputs[name] = ('int', s, v)
        return v

    def nanreal(self, name, lo, hi):
        f = self.flag(name + '.nan')
        v = self.real(name, lo, hi)
        return self.S.Sym(v.p, f)

    def arr(self, x):
        x = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
        return self.A.mkarr(x.copy())

    def ite(self, c, a, b):
        return self.S.s_ite(c, a, b)

    def assume(self, c):
        S = self.S
        if isinstance(c, np.ndarray):
            for e in c.reshape(-1):
                self.assume(e)
            return
        c = S.as_bool(c)
        if c is True:
            return
        if c is False:
            raise S.Infeasible()
        self.run.assume(c)

    def assume_ge(self, x, c):
        """x >= c, also recorded as a bound of the term itself, so that branches on it need no solver"""
        S = self.S
        if isinstance(x, np.ndarray):
            for e in x.reshape(-1):
                self.assume_ge(e, c)
            return
        if not isinstance(x, S.Sym):
            if not x >= c:
                raise S.Infeasible()
            return
        b = S.as_bool(x >= c)
        if b is True:
            return
        if b is False:
            raise S.Infeasible()
        self.run.add(b.z, b.atoms)
        p = x.p
        if len(p.t) > 1 and not p.common():
            at, k = S.base_atom(p)
            at.lo = max(at.lo, c / k)
            q = at.args[0]
            q._iv = (at.lo, q.interval()[1])

    def eq(self, a, b, label, tol=1e-6):
        ps, err = _pairs(a, b, label)
        if err:
            self.run.fail_now(label, err)
            return
        self.run.assert_eq(ps, tol, label)

    def le(self, a, b, label, tol=1e-6):
        ps, err = _pairs(a, b, label)
        if err:
            self.run.fail_now(label, err)
            return
        self.run.assert_le(ps, tol, label)

    def check(self, c, label, detail=''):
        S = self.S
        if isinstance(c, np.ndarray):
            r = True
            for e in c.reshape(-1):
                r = S.b_and(r, e)
            c = r
        self.run.assert_bool(S.as_bool(c), label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.run.reached(label)
            return
        except (self.S.Unsupported, self.S.PathLimit):
            raise
        except Exception as e:
            self.run.fail_now(label, 'raised %r' % (e,))
            return
        self.run.fail_now(label, 'no exception')

    def isnan(self, x):
        return self.A.e_isnan(x)

    def observe(self, name, v):
        pass

    def note(self, *a):
        pass


def _clean(n):
    return ''.join(c if c.isalnum() else '_' for c in n)


# ==========================================================================
class Path(object):
    """One symbolic path: constraints, decisions, assertion queries."""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.trace = []        # [(choice, alternative feasible?)]
        self.inputs = {}
        self.pc = []           # (z3, atoms)
        self.labels = set()
        S = eng.S
        self.ax = S.AxiomSet()
        self.nax = 0
        self.solver = S.z3.Solver()
        self.solver.set('timeout', eng.fork_ms)
        self.alt = []
        self.witnessed = False

    # -- constraints
    def _sync(self):
        while self.nax < len(self.ax.ax):
            self.solver.add(self.ax.ax[self.nax])
            self.nax += 1

    def add(self, z, atoms):
        self.ax.atoms(atoms)
        self._sync()
        self.solver.add(z)
        self.pc.append((z, frozenset(atoms)))

    def _sat(self, *extra):
        z3 = self.eng.S.z3
        t0 = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', self.eng.fork_ms * 3)
            s.add(*self.solver.assertions())
            s.add(*extra)
            r = s.check()
            if r == z3.sat:
                self._m = s.model()
        elif r == z3.sat:
            self._m = self.solver.model()
        self.eng.stats['fork_queries'] += 1
        self.eng.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            self.eng.stats['fork_unknown'] += 1
        return r

    def fork(self, b, only_true_value=False):
        S = self.eng.S
        z3 = S.z3
        n = len(self.trace)
        self.ax.atoms(b.atoms)
        self._sync()
        if n < len(self.prefix):
            c = self.prefix[n]
            self.trace.append(c)
        else:
            if self.eng.deadline and time.time() > self.eng.deadline:
                raise S.PathLimit('time budget')
            rt = self._sat(b.z)
            if rt == z3.unsat:
                c = False
            else:
                rf = self._sat(z3.Not(b.z))
                if rf == z3.unsat:
                    c = True
                else:
                    c = True
                    self.eng.push(self.trace + [False])
            self.trace.append(c)
            self.eng.stats['decisions'] += 1
        z = b.z if c else z3.Not(b.z)
        self.solver.add(z)
        self.pc.append((z, b.atoms))
        return c

    def assume(self, b):
        S = self.eng.S
        self.add(b.z, b.atoms)
        if self._sat() == S.z3.unsat:
            raise S.Infeasible()

    def guess(self, x):
        S = self.eng.S
        z3 = S.z3
        self.ax.poly(x.p)
        self._sync()
        n = len(self.trace)
        r = self._sat()
        if r == z3.sat:
            v = zval(S, self._m.eval(x.p.zexpr(), model_completion=True))
            if v is not None:
                # deterministic across replays: remember by position
                return self.eng.guess_memo(tuple(self.trace), v)
        if r == z3.unsat:
            raise S.Infeasible()
        lo, hi = x.p.interval()
        if lo > -S.INF and hi < S.INF:
            return self.eng.guess_memo(tuple(self.trace), 0.5 * (lo + hi))
        raise S.Unsupported('no value for an integer conversion')

    # -- assertions
    def reached(self, label):
        self.labels.add(label)
        if not self.witnessed:
            # vacuity twin: the path itself must be satisfiable
            r = self._sat()
            if r == self.eng.S.z3.unsat:
                raise self.eng.S.Infeasible()
            self.witnessed = True
            if r == self.eng.S.z3.sat:
                self.eng.stats['witness_sat'] += 1
            else:
                self.eng.stats['witness_unknown'] += 1
        self.eng.labels.add(label)

    def fail_now(self, label, why):
        self.reached(label)
        self.eng.add_ce(self, None, (), label, why)

    def assert_bool(self, c, label):
        self.reached(label)
        S = self.eng.S
        if c is True:
            self.eng.stats['trivial'] += 1
            return
        if c is False:
            self.eng.add_ce(self, None, (), label, 'condition is false')
            return
        self.query([(S.z3.Not(c.z), c.atoms, label)], label)

    def assert_eq(self, ps, tol, label):
        S = self.eng.S
        self.reached(label)
        goals, normed = [], []
        for x, y, l in ps:
            x, y = _f(x), _f(y)
            if isinstance(x, S.SymBool) or isinstance(y, S.SymBool):
                if isinstance(x, (bool, S.SymBool)) and isinstance(y, (bool, S.SymBool)):
                    c = (x == y) if isinstance(x, S.SymBool) else (y == x)
                    if c is True:
                        self.eng.stats['trivial'] += 1
                    elif c is False:
                        self.eng.add_ce(self, None, (), l, 'differs')
                    else:
                        goals.append((S.z3.Not(c.z), c.atoms, l))
                    continue
                x = S.bool_to_sym(x) if isinstance(x, S.SymBool) else x
                y = S.bool_to_sym(y) if isinstance(y, S.SymBool) else y
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                if x is not y and x != y:
                    self.eng.add_ce(self, None, (), l, '%r vs %r' % (x, y))
                continue
            nx = x.nan if isinstance(x, S.Sym) else (x != x)
            ny = y.nan if isinstance(y, S.Sym) else (y != y)
            nx = False if nx is None else nx
            ny = False if ny is None else ny
            if nx is not False or ny is not False:
                same = S.b_and(S.b_or(S.b_not(nx), ny), S.b_or(S.b_not(ny), nx))
                if same is False:
                    self.eng.add_ce(self, None, (), l, 'NaN mismatch')
                    continue
                if same is not True:
                    goals.append((S.z3.Not(same.z), same.atoms, l + '.nan'))
                if nx is True and ny is True:
                    continue
            if not isinstance(x, S.Sym) and not isinstance(y, S.Sym):
                if x == y or abs(x - y) <= tol:
                    self.eng.stats['trivial'] += 1
                    continue
                self.eng.add_ce(self, None, (), l, '%.12g != %.12g' % (x, y))
                continue
            if not isinstance(x, S.Sym) and S._bad(x) or not isinstance(y, S.Sym) and S._bad(y):
                self.eng.add_ce(self, None, (), l, '%r vs %r' % (x, y))
                continue
            d = S._poly_of(x).add(S._poly_of(y), -1.0)
            g = self._eq_goal(d, tol)
            if g is None:
                self.eng.stats['normalised'] += 1
                normed.append((x, y, tol))
                continue
            z, at = g
            fin = S.b_not(S.b_or(nx, ny)) if (nx is not False or ny is not False) else True
            if fin is not True and fin is not False:
                z = S.z3.And(z, fin.z)
                at = at | fin.atoms
            goals.append((z, at, l))
        self._confirm(normed)
        if goals:
            self._dispatch(goals, label)

    def _confirm(self, normed):
        """goals closed by the polynomial normal form are also put to the solver,
        unsimplified, when they are small enough"""
        S = self.eng.S
        z3 = S.z3
        neg, atoms, n = [], set(), 0
        for x, y, tol in normed:
            p, q = S._poly_of(x), S._poly_of(y)
            n += len(p.t) + len(q.t)
            if n > 160:
                break
            d = p.zexpr() - q.zexpr()
            m = S.rv(4.0 * tol)
            neg += [d > m, d < -m]
            atoms |= p.atoms() | q.atoms()
        if not neg:
            return
        ax = S.AxiomSet()
        ax.atoms(atoms)
        s = z3.Solver()
        s.set('timeout', 300)
        for a in ax.ax:
            s.add(a)
        s.add(z3.Or(*neg))
        t0 = time.time()
        r = s.check()
        self.eng.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.eng.stats['queries'] += 1
            self.eng.stats['unsat'] += 1
            self.eng.stats['norm_confirmed'] += len(neg) // 2

    def _eq_goal(self, d, tol):
        """violation formula of d == 0 within 4*tol, or None when the normal
        form alone shows it (its interval lies within tol)."""
        S = self.eng.S
        d = prune(S, d, 0.5 * tol)
        if not d.t:
            return None
        lo, hi = d.interval()
        if -tol <= lo and hi <= tol:
            return None
        d2 = clear_den(S, d)
        if d2 is not None and is_zero_rel(d2[0], d2[1]):
            return None
        z = d.zexpr()
        m = S.rv(4.0 * tol)
        return S.z3.Or(z > m, z < -m), d.atoms()

    def assert_le(self, ps, tol, label):
        S = self.eng.S
        self.reached(label)
        goals = []
        for x, y, l in ps:
            x, y = _f(x), _f(y)
            if not isinstance(x, S.Sym) and not isinstance(y, S.Sym):
                if x <= y + tol:
                    self.eng.stats['trivial'] += 1
                else:
                    self.eng.add_ce(self, None, (), l, '%r > %r' % (x, y))
                continue
            if not isinstance(x, S.Sym) and S._bad(x):
                if x == -S.INF:
                    continue
                self.eng.add_ce(self, None, (), l, '%r <= ?' % (x,))
                continue
            if not isinstance(y, S.Sym) and S._bad(y):
                if y == S.INF:
                    continue
                self.eng.add_ce(self, None, (), l, '? <= %r' % (y,))
                continue
            d = S._poly_of(x).add(S._poly_of(y), -1.0)
            lo, hi = d.interval()
            if hi <= tol:
                self.eng.stats['normalised'] += 1
                continue
            goals.append((d.zexpr() > S.rv(4.0 * tol), d.atoms(), l))
        self._dispatch(goals, label)

    def _dispatch(self, goals, label):
        if not goals:
            return
        n = self.eng.chunk
        for i in range(0, len(goals), n):
            self.query(goals[i:i + n], label)

    def query(self, goals, label):
        S = self.eng.S
        z3 = S.z3
        atoms = set()
        for z, a, l in goals:
            atoms |= a
        neg = goals[0][0] if len(goals) == 1 else z3.Or(*[g[0] for g in goals])
        if z3.is_false(neg):
            s = z3.Solver()
            s.add(neg)
            t0 = time.time()
            assert s.check() == z3.unsat
            self.eng.stats['queries'] += 1
            self.eng.stats['unsat'] += 1
            self.eng.stats['solver_s'] += time.time() - t0
            return
        r, m, full = self._solve(neg, atoms)
        self.eng.stats['queries'] += 1
        if r == z3.unsat:
            self.eng.stats['unsat'] += 1
            return
        if r == z3.sat:
            self.eng.stats['sat'] += 1
            bad = [g[2] for g in goals if z3.is_true(m.eval(g[0], model_completion=True))] or [label]
            self.eng.add_ce(self, m, atoms, bad[0], 'solver model', neg=neg)
            return
        if len(goals) > 1:
            for g in goals:
                self.query([g], label)
            return
        self.eng.stats['unknown'] += 1
        self.eng.add_ce(self, None, atoms, goals[0][2], 'unknown', unknown=True)

    def _slice(self, atoms):
        """path constraints that share inputs with the goal"""
        S = self.eng.S
        want = _closure(S, atoms)
        rest = [(z, _closure(S, a)) for z, a in self.pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for z, a in rest:
                if not a or (a & want):
                    out.append(z)
                    if not a <= want:
                        want |= a
                        ch = True
                else:
                    nr.append((z, a))
            rest = nr
        return out, want

    def _solve(self, neg, atoms):
        S = self.eng.S
        z3 = S.z3
        pcs, want = self._slice(atoms)
        ax = S.AxiomSet()
        ax.atoms(atoms)
        ax.atoms([a for a in want])
        t0 = time.time()
        r = z3.unknown
        m = None
        # once something is undecided the configuration is: spend less on the rest
        lim = self.eng.query_ms if self.eng.stats['unknown'] < 2 else min(self.eng.query_ms, 2000)
        for ms, kind in ((lim, None), (lim, 'QF_NRA'), (lim, 'weak')):
            if kind == 'weak':
                s = z3.Then('simplify', 'purify-arith', 'smt').solver()
            else:
                s = z3.SolverFor(kind) if kind else z3.Solver()
            s.set('timeout', int(ms))
            for a in ax.ax:
                s.add(a)
            for p in pcs:
                s.add(p)
            s.add(neg)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                if r == z3.sat:
                    m = s.model()
                break
        self.eng.stats['solver_s'] += time.time() - t0
        return r, m, None

    def values(self, m):
        """input assignment from a model (None: path model)"""
        S = self.eng.S
        z3 = S.z3
        out = {}
        if m is None:
            r = self._sat()
            m = self._m if r == z3.sat else None
        mid = {}
        if m is None:
            return out
        decl = set(d.name() for d in m.decls())
        for n, inp in self.inputs.items():
            kind, s = inp[0], inp[1]
            if kind == 'flag':
                v = m.eval(s.z, model_completion=False)
                if z3.is_true(v):
                    out[n] = True
                elif z3.is_false(v):
                    out[n] = False
                else:
                    out[n] = False
            else:
                (mono, c), = s.p.t.items()
                at = S.ATOMS[mono[0][0]]
                zv = at.z
                if zv.decl().name() in decl:
                    v = zval(S, m.eval(zv, model_completion=True))
                    if v is not None:
                        out[n] = v
                # angles known only through their cosine / sine
                t = self._angle_of(S, m, at, decl)
                if t is not None:
                    out[n] = t
                if n not in out:
                    out[n] = 0.5 * (at.lo + at.hi)
        return out

    def inner_values(self, neg=None, atoms=(), ms=2000):
        """counterexamples away from the boundaries of the path, which survive rounding"""
        S = self.eng.S
        z3 = S.z3
        ids = set(atoms)
        for _, a in self.pc:
            ids |= set(a)
        ax = S.AxiomSet()
        ax.atoms(sorted(ids))
        ax.atoms(sorted(_closure(S, ids)))
        out = []
        for d in (1e-2, 1e-4):
            s = z3.Solver()
            s.set('timeout', ms)
            for a in ax.ax:
                s.add(a)
            for p, _ in self.pc:
                s.add(tighten(z3, p, d))
            if neg is not None:
                s.add(neg)
            try:
                if s.check() == z3.sat:
                    v = self.values(s.model())
                    if v:
                        out.append(v)
                        break
            except z3.Z3Exception:
                pass
        return out

    def other_values(self, neg, atoms, n=6, ms=1500):
        """further counterexamples of the same goal, as many inputs as possible at arbitrary places"""
        S = self.eng.S
        z3 = S.z3
        rng = random.Random(len(self.trace) * 31 + len(atoms))
        pcs, want = self._slice(atoms)
        ax = S.AxiomSet()
        ax.atoms(atoms)
        ax.atoms([a for a in want])
        out, t_end = [], time.time() + 8.
        for k in range(n):
            s = z3.Solver()
            s.set('timeout', ms)
            for a in ax.ax:
                s.add(a)
            for p in pcs:
                s.add(p)
            if k % 2 == 0:
                s.add(neg)
            lits = []
            for name, inp in self.inputs.items():
                if inp[0] == 'flag':
                    continue
                (mono, c), = inp[1].p.t.items()
                at = S.ATOMS[mono[0][0]]
                if at.lo is None or at.hi is None or not (abs(at.lo) < 1e9 and abs(at.hi) < 1e9):
                    continue
                v = round(at.lo + (at.hi - at.lo) * rng.random(), 6)
                if not at.lo <= v <= at.hi:
                    continue
                b = z3.Bool('pin!%s' % name)
                s.add(z3.Implies(b, at.z == S.rv(v)))
                lits.append(b)
            m = None
            for it in range(8):
                if time.time() > t_end:
                    break
                try:
                    r = s.check(*lits)
                except z3.Z3Exception:
                    break
                if r == z3.sat:
                    m = s.model()
                    break
                if not lits:
                    break
                core = set(str(c) for c in s.unsat_core()) if r == z3.unsat else set()
                keep = [b for b in lits if str(b) not in core] if core else lits[:len(lits) // 2]
                if core and len(keep) < len(lits) - 1:
                    # give up one of the conflicting ones
                    drop = rng.choice(sorted(core))
                    keep = [b for b in lits if str(b) != drop]
                lits = keep
            if m is not None:
                v = self.values(m)
                if v and v not in out:
                    out.append(v)
            if time.time() > t_end:
                break
        return out

    def _angle_of(self, S, m, at, decl):
        for a in S.ATOMS:
            if a.kind == 'cos':
                p = a.args[0]
                if len(p.t) == 1 and ((at.id, 1),) in p.t:
                    k = p.t[((at.id, 1),)]
                    c = zval(S, m.eval(a.z, model_completion=True)) if a.z.decl().name() in decl else None
                    sa = S._intern.get(('sin', id(p)))
                    s = zval(S, m.eval(sa.z, model_completion=True)) if sa is not None and \
                        sa.z.decl().name() in decl else None
                    if c is None and s is None:
                        return None
                    if c is None:
                        c = math.sqrt(max(0., 1 - s * s))
                    if s is None:
                        s = math.sqrt(max(0., 1 - c * c))
                    th = math.atan2(s, c) / k
                    per = 2 * PI / k
                    while th < at.lo - 1e-9:
                        th += per
                    while th > at.hi + 1e-9:
                        th -= per
                    return th
        return None


def tighten(z3, e, d, pos=True):
    """a stronger condition: inequalities hold with a margin d"""
    k = e.decl().kind()
    if k == z3.Z3_OP_NOT:
        return tighten(z3, e.arg(0), d, not pos)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        a = [tighten(z3, x, d, pos) for x in e.children()]
        return z3.And(*a) if (k == z3.Z3_OP_AND) == pos else z3.Or(*a)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(e.arg(0)):
        a, b = e.arg(0), e.arg(1)
        if (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) == pos:
            return a + d <= b
        return b + d <= a
    if k == z3.Z3_OP_EQ and not pos and z3.is_real(e.arg(0)):
        a, b = e.arg(0), e.arg(1)
        return z3.Or(a + d <= b, b + d <= a)
    return e if pos else z3.Not(e)


def _closure(S, atoms):
    seen = set()
    st = list(atoms)
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        st.extend(S.ATOMS[a].deps)
    return seen


def zval(S, v):
    z3 = S.z3
    try:
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_int_value(v):
            return float(v.as_long())
    except Exception:
        return None
    return None


def prune(S, d, budget):
    """drop terms whose total magnitude over the input box is below budget"""
    small = []
    for m, c in d.t.items():
        a, b = c, c
        for aid, e in m:
            at = S.ATOMS[aid]
            p, q = S._pow_iv(at.lo, at.hi, e)
            a, b = S._imul(a, b, p, q)
        v = max(abs(a), abs(b))
        if v == v and v < budget:
            small.append((v, m))
    if not small:
        return d
    small.sort(key=lambda x: x[0])
    tot = 0.
    drop = set()
    for v, m in small:
        tot += v
        if tot > budget:
            break
        drop.add(m)
    return S.Poly({m: c for m, c in d.t.items() if m not in drop})


def clear_den(S, d):
    """multiply by every base atom that occurs with a negative exponent; returns
    (poly, magnitude of the largest coefficient before cancellation)"""
    neg = {}
    for m in d.t:
        for a, e in m:
            if S.ATOMS[a].kind == 'base' and e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if not neg:
        return None
    n = 0
    for a in sorted(neg, reverse=True):
        k = int(math.ceil(-neg[a] - 1e-9))
        B = S.ATOMS[a].args[0]
        if len(d.t) * len(B.t) ** k > 200000 or k > 4:
            return None
        out = S.ZERO
        # each term: raise the exponent of a by k, then expand
        acc = {}
        mx = {}
        for m, c in d.t.items():
            e0 = 0
            rest = []
            for aa, e in m:
                if aa == a:
                    e0 = e
                else:
                    rest.append((aa, e))
            e1 = e0 + k
            fl = int(math.floor(e1 + 1e-9))
            fr = S._nexp(e1 - fl)
            q = S.Poly({tuple(rest): c})
            if fr != 0 and abs(fr) > 1e-9:
                q = q.mul(S.Poly.atom(S.ATOMS[a], fr))
            if fl:
                q = q.mul(B.ipow(fl))
            for mm, cc in q.t.items():
                acc[mm] = acc.get(mm, 0.) + cc
                mx[mm] = max(mx.get(mm, 0.), abs(cc))
        d = S.Poly({mm: cc for mm, cc in acc.items() if abs(cc) > 1e-11 * mx[mm]})
        n = max([n] + list(mx.values()))
        if not d.t:
            return d, n
    return d, n


def is_zero_rel(d, mag):
    return all(abs(c) <= 1e-10 * mag for c in d.t.values())


# ==========================================================================
class Engine(object):
    """Explores all paths of one harness configuration."""

    def __init__(self, fork_ms=1500, query_ms=20000, max_paths=3000, budget_s=None, chunk=24):
        from . import sym
        self.S = sym
        self.fork_ms = fork_ms
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s if budget_s else None
        self.chunk = chunk
        self.stack = []
        self.labels = set()
        self.ces = []
        self.errors = []
        self.samples = []
        self.stats = dict(paths=0, infeasible=0, decisions=0, queries=0, unsat=0, sat=0, unknown=0,
                          fork_queries=0, fork_unknown=0, solver_s=0.0, trivial=0, normalised=0,
                          witness_sat=0, witness_unknown=0, exceptions=0, norm_confirmed=0)
        self._guess = {}
        self.max_ce = 6

    def push(self, prefix):
        self.stack.append(prefix)

    def guess_memo(self, key, v):
        # a replayed path must see the same candidate value at the same point
        k = key
        n = self._guess.get(k)
        if n is None:
            self._guess[k] = v
            return v
        return n

    def add_ce(self, path, model, atoms, label, why, unknown=False, neg=None):
        if len(self.ces) >= 40:
            return
        vals = [path.values(model)]
        if len([c for c in self.ces if c['label'] == label]) < 3:
            vals += path.inner_values(neg, atoms)
        if neg is not None and len([c for c in self.ces if c['label'] == label]) < 2:
            vals += path.other_values(neg, atoms)
        self.ces.append(dict(label=label, why=why, unknown=unknown, values=vals,
                             trace=list(path.trace)))

    def explore(self, fn):
        S = self.S
        self.stack = [[]]
        while self.stack:
            if self.stats['paths'] + self.stats['infeasible'] >= self.max_paths:
                self.errors.append('path limit %d reached' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.errors.append('time budget exhausted with %d path prefixes left' % len(self.stack))
                break
            if len(self.ces) >= self.max_ce:
                break
            prefix = self.stack.pop()
            S.reset_atoms()
            p = Path(self, prefix)
            S.set_ctx(p)
            t = SymT(p)
            del S.RAISED[:]
            try:
                try:
                    fn(t)
                except (Stop, S.Infeasible, S.PathLimit, S.Unsupported):
                    raise
                except Exception:
                    if S.RAISED:
                        raise S.RAISED[0]
                    raise
                if S.RAISED:
                    raise S.RAISED[0]
                self.stats['paths'] += 1
            except Stop:
                self.stats['paths'] += 1
            except S.Infeasible:
                self.stats['infeasible'] += 1
            except S.Unsupported as e:
                self.stats['paths'] += 1
                self.errors.append('unsupported: %s\n%s' % (e, _tb()))
                if len(self.errors) > 3:
                    break
            except S.PathLimit as e:
                self.errors.append('limit: %s' % e)
                break
            except Exception as e:
                self.stats['paths'] += 1
                self.stats['exceptions'] += 1
                tb = _tb()
                if p._sat() == S.z3.unsat:
                    continue
                self.add_ce(p, None, (), 'exception:' + type(e).__name__, '%s\n%s' % (e, tb))
            if len(self.samples) < 2:
                self.samples.append(dict(decisions=len(p.trace), inputs=len(p.inputs),
                                         labels=sorted(p.labels)[:8]))
        S.set_ctx(S._NoCtx())


def _tb():
    return ''.join(traceback.format_exc().splitlines(True)[-8:])
