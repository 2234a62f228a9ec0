"""Stand-in for lmfit, installed in the symbolic and in the real runs alike: the harness decides what a minimisation returns
(any values, within lmfit's contract: bounds kept, fixed parameters kept, expressions evaluated) and sees what was minimised."""
import types

INF = float('inf')


class Par(object):
    def __init__(self, name, value=None, vary=True, min=-INF, max=INF, expr=None, **kw):
        self.name, self.value, self.min, self.max, self.expr = name, value, min, max, expr
        self.vary = vary if expr is None else False
        self.stderr = None

    def set(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Parameters(dict):
    def add(self, name, value=None, vary=True, min=-INF, max=INF, expr=None, **kw):
        if isinstance(name, Par):
            self[name.name] = name
        else:
            self[name] = Par(name, value, vary, min, max, expr, **kw)
        self.update_exprs()

    def add_many(self, *a):
        for x in a:
            self.add(x) if isinstance(x, Par) else self.add(*x)

    def valuesdict(self):
        return {k: v.value for k, v in self.items()}

    def update_exprs(self):
        for p in self.values():
            if p.expr is not None:
                p.value = eval(p.expr, {'__builtins__': {}}, self.valuesdict())

    def copy(self):
        q = Parameters()
        for k, v in self.items():
            q[k] = Par(k, v.value, v.vary, v.min, v.max, v.expr)
            q[k].vary = v.vary
        return q
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def free(self):
        return sorted(k for k, v in self.items() if v.vary and v.expr is None)

    def at(self, **kw):
        """a copy with other values"""
        q = self.copy()
        for k, v in kw.items():
            q[k].value = v
        q.update_exprs()
        return q


class Result(object):
    def __init__(self, params):
        self.params = params
        self.message, self.success, self.errorbars, self.redchi = '', True, True, 1.
        self.nfev, self.var_names = 1, params.free()


class LM(types.ModuleType):
    """lm.hook(fn, params, args) -> values of the free parameters"""

    def __init__(self):
        types.ModuleType.__init__(self, 'lmfit')
        self.Parameters, self.Parameter, self.hook = Parameters, Par, None

    def minimize(self, fcn, params, method='leastsq', args=None, kws=None, **kw):
        a, k = tuple(args or ()), dict(kws or {})
        p = params.copy()
        got = self.hook((lambda q, *x: fcn(q, *(x or a), **k)), p, a)
        p = params.at(**got)
        return Result(p)

    def fit_report(self, *a, **kw):
        return ''

    def report_fit(self, *a, **kw):
        return None

    def conf_interval(self, *a, **kw):
        raise NotImplementedError


def install(repo):
    import lmfit
    lm = LM()
    sub = {id(lmfit): lm, id(lmfit.minimize): lm.minimize, id(lmfit.Parameters): Parameters, id(lmfit.Parameter): Par,
           id(lmfit.fit_report): lm.fit_report, id(lmfit.report_fit): lm.report_fit}
    for m in repo.mods.values():
        for k, v in list(m.__dict__.items()):
            if id(v) in sub and not k.startswith('__'):
                m.__dict__[k] = sub[id(v)]
    repo.lm = lm
