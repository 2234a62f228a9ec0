"""Stand-in for scipy's kernel density estimate and simplex minimiser, installed in the symbolic and in the real runs alike:
the density is an opaque function of the samples, and the minimiser returns any point the harness likes, having been seen to
minimise minus the density."""
import numpy as np


class Kernel(object):
    def __init__(self, stub, data):
        self.stub, self.data, self.k = stub, data, len(stub.kernels)
        self.value = stub.t.real('density%d' % self.k, .1, 9.)
        stub.kernels.append(self)

    def __call__(self, x):
        self.stub.last, self.stub.x = self, x
        return self.value
    evaluate = pdf = __call__


class KDE(object):
    """hook(data, x0) -> position of the peak; t is the harness' context"""
    t = hook = last = x = None
    kernels = ()
    maximised = ()

    def start(self, t, hook):
        self.t, self.hook, self.last, self.x, self.kernels, self.maximised = t, hook, None, None, [], []

    def gaussian_kde(self, data, *a, **k):
        return Kernel(self, data)

    def fmin(self, func, x0, args=(), disp=None, **k):
        t = self.t
        self.last = None
        n = len(self.maximised)
        x0 = t.np.ravel(x0) if hasattr(x0, '__len__') else t.arr([x0])
        v = func(x0, *args)
        t.check(self.last is not None, 'peak_of_a_density_sought')
        t.eq(v, -self.last.value, 'peak_of_the_density_sought')
        t.eq(self.x, x0, 'peak_of_the_density_sought')
        self.maximised.append(self.last)
        return t.arr(list(self.hook(self.last.data, x0)))


def install(repo):
    import scipy.stats
    import scipy.optimize
    s = KDE()
    sub = {id(scipy.stats.gaussian_kde): s.gaussian_kde, id(scipy.optimize.fmin): s.fmin}
    scipy.stats.gaussian_kde, scipy.optimize.fmin = s.gaussian_kde, s.fmin
    for m in repo.mods.values():
        for k, v in list(m.__dict__.items()):
            if id(v) in sub and not k.startswith('__'):
                m.__dict__[k] = sub[id(v)]
    repo.kde = s
