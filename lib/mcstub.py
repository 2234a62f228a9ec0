"""Stand-in for emcee, installed in the symbolic and in the real runs alike: the harness decides where the walkers go, what the
acceptance fractions and autocorrelation times are, and sees what was sampled, from where and for how long."""
import types
import numpy as np


class State(object):
    """like emcee's: positions, log-probabilities"""

    def __init__(self, coords, log_prob=None):
        self.coords, self.log_prob, self.random_state, self.blobs = coords, log_prob, None, None

    def __iter__(self):
        return iter((self.coords, self.log_prob, self.random_state))

    def __getitem__(self, i):
        return (self.coords, self.log_prob, self.random_state)[i]


class Fn(object):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, tuple(args or ()), dict(kwargs or {})

    def __call__(self, x):
        return self.f(x, *self.args, **self.kwargs)


class Sampler(object):
    def __init__(self, mc, nwalkers, ndim, log_prob_fn, pool=None, moves=None, args=None, kwargs=None, backend=None, **kw):
        self._mc = mc
        self.nwalkers, self.ndim, self.pool, self._moves, self.backend = nwalkers, ndim, pool, moves, backend
        self.log_prob_fn = Fn(log_prob_fn, args, kwargs)
        self.steps, self.starts, self.iteration = [], [], 0
        mc.samplers.append(self)

    def run_mcmc(self, initial_state, nsteps=1, **kw):
        np_ = self._mc.t.np
        pos = initial_state.coords if isinstance(initial_state, State) else np_.array(initial_state)
        self.starts.append((self.iteration, pos))
        for _ in range(int(nsteps)):
            x, lp = self._mc.hook(self, self.iteration)
            self.steps.append((x, lp))
            self.iteration += 1
        return State(self.steps[-1][0].copy(), self.steps[-1][1].copy()) if self.steps else State(pos)

    def sample(self, initial_state, iterations=1, **kw):
        s = initial_state
        for _ in range(iterations):
            s = self.run_mcmc(s, 1)
            yield s

    def reset(self):
        self.steps, self.starts, self.iteration = [], [], 0

    def _stack(self, k, discard=0, flat=False, thin=1):
        np_ = self._mc.t.np
        v = np_.array([s[k] for s in self.steps[discard::thin]])
        return v.reshape((v.shape[0] * v.shape[1],) + v.shape[2:]) if flat else v

    def get_chain(self, discard=0, flat=False, thin=1, **kw):
        return self._stack(0, discard, flat, thin)

    def get_log_prob(self, discard=0, flat=False, thin=1, **kw):
        return self._stack(1, discard, flat, thin)

    def get_last_sample(self):
        return State(*self.steps[-1])

    chain = property(lambda self: self._mc.t.np.swapaxes(self.get_chain(), 0, 1))
    lnprobability = property(lambda self: self._mc.t.np.swapaxes(self.get_log_prob(), 0, 1))
    flatchain = property(lambda self: self.get_chain(flat=True))

    @property
    def acceptance_fraction(self):
        return self._mc.accept(self, self.iteration - 1)

    def get_autocorr_time(self, **kw):
        return self._mc.acor(self, self.iteration - 1)


class Backend(object):
    def __init__(self, mc, filename=None, name='mcmc', **kw):
        self.filename, self.name, self.resets = filename, name, []
        mc.backends_made.append(self)

    def reset(self, nwalkers, ndim):
        self.resets.append((nwalkers, ndim))


class MC(types.ModuleType):
    """hook(sampler, k) -> positions, log-probabilities after step k; accept(sampler, k), acor(sampler, k)"""

    def __init__(self):
        types.ModuleType.__init__(self, 'emcee')
        self.__version__ = '3.1.6'
        self.moves = types.SimpleNamespace(StretchMove=lambda a=2., **k: ('stretch', a))
        self.backends = types.SimpleNamespace(HDFBackend=lambda *a, **k: Backend(self, *a, **k))
        self.EnsembleSampler = lambda *a, **k: Sampler(self, *a, **k)
        self.State = State

    def start(self, t, hook, accept, acor):
        self.t, self.hook, self.accept, self.acor = t, hook, accept, acor
        self.samplers, self.backends_made, self.pools = [], [], []


class Pool(object):
    def __init__(self, mc, n=None, **kw):
        self._processes, self.closed = n, False
        mc.pools.append(self)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def map(self, f, x):
        return [f(v) for v in x]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(repo):
    import emcee
    import multiprocessing
    mc = MC()
    sub = {id(emcee): mc, id(emcee.EnsembleSampler): mc.EnsembleSampler, id(multiprocessing.Pool): None}
    pool = lambda *a, **k: Pool(mc, *a, **k)
    old = multiprocessing.Pool
    for m in repo.mods.values():
        for k, v in list(m.__dict__.items()):
            if k.startswith('__'):
                continue
            if id(v) in sub and sub[id(v)] is not None:
                m.__dict__[k] = sub[id(v)]
            elif v == old:
                m.__dict__[k] = pool
    repo.mc = mc
