"""C26 storing a fit: the sampler dictionary, the saved result, and a fit that is loaded again."""
import copy
import os
import pickle
import shutil
import tempfile
from . import common as K
from .c24 import histogram
from .c25 import fit2d, bounds, NAMES
from lib import mcstub, kdestub, rnd

FUNCTIONS = ['fit_io.make_emcee_sampler_dict', 'fit_io.loadpickle', 'fit_io.dumppickle', 'fit2D.FitEmissionLines2D.fit',
             'fit2D.FitEmissionLines2D.reload_results', 'fit2D.FitEmissionLines2D.reload_sampler', 'fit2D.FitEmissionLines2D.reload_bestfit_model',
             'fit2D.FitEmissionLines2D.save_bestfit_model', 'fit2D.FitEmissionLines2D.make_pruned_fitEmis2D_result_class',
             'fit2D.FitEmissionLines2D.set_bestfit', 'fit_core.FitEmissionLines2DResults']
BOUNDS = ('every sample and log-probability of 2 walkers x 2-4 steps x 1-3 parameters, every position of the density peaks, every burn-in '
          'to be cut of 0-2 steps; stored and loaded fits of 1 row x 2 channels')
OUTSIDE = 'pickle itself (stands for an exact copy); that the walkers sample the posterior and that density peaks are found'
ASSUMPTIONS = ['what is pickled and loaded again is an exact copy; the sampler moves the walkers anywhere']


def setup_lifted(repo):
    mcstub.install(repo)
    kdestub.install(repo)


setup_real = setup_lifted


class Disk(object):
    """files whose pickles are exact copies"""

    def __init__(self):
        self.dir, self.data = tempfile.mkdtemp(), {}

    def __enter__(self):
        self.old = pickle.dump, pickle.load
        pickle.dump = lambda obj, f, *a, **k: self.data.__setitem__(f.name, copy.deepcopy(obj))
        pickle.load = lambda f, *a, **k: copy.deepcopy(self.data[f.name])
        return self

    def __exit__(self, *a):
        pickle.dump, pickle.load = self.old
        shutil.rmtree(self.dir)

    def path(self, n):
        return os.path.join(self.dir, n)


def sampled(t, repo, F, nd, nsteps, nw=2):
    """a sampler of the pared-down fit that has run"""
    np = t.np
    mc = repo.mc
    XX = {}

    def hook(s, k):
        XX[k] = (t.reals('x%d' % k, (nw, nd), -300., 300.), t.reals('lp%d' % k, nw, -1e3, 0.))
        return XX[k]
    mc.start(t, hook, lambda s, k: np.array([.3, .4]), lambda s, k: np.array([4.] * nd))
    X = repo.fc.make_pruned_fitEmis2D_class(F)
    S = repo.fc.emcee.EnsembleSampler(nw, nd, repo.fc.lnprob, args=(X,))
    S.run_mcmc(np.zeros((nw, nd)), nsteps)
    return S, X, XX


def stored(t, repo, vary=(1, 0, 1, 0, 0), nsteps=3, nburn=0, default=False, fails=False, threads=None):
    np = t.np
    vary = [bool(v) for v in vary]
    nd, nw = sum(vary), 2
    full = (120., .4, 60., .1, 0.)
    F = fit2d(t, repo, vary, full, bounds(t, vary, False))
    S, X, XX = sampled(t, repo, F, nd, nsteps)
    if fails:
        def f(*a, **k):
            raise RuntimeError('short')
        repo.mc.acor = f
    if threads:
        S.pool = mcstub.Pool(repo.mc, threads)
    kw = {} if default else dict(nBurn=nburn)
    d = repo.fio.make_emcee_sampler_dict(S, fitEmis2D=F, **kw)
    n = nsteps - nburn
    t.check(np.shape(d['chain']) == (nw, n, nd) and np.shape(d['lnprobability']) == (nw, n), 'burn_in_cut')
    t.check(np.shape(d['flatchain']) == (nw * n, nd) and np.shape(d['flatlnprobability']) == (nw * n,), 'burn_in_cut')
    for k in range(n):
        x, lp = XX[k + nburn]
        for w in range(nw):
            t.eq(d['chain'][w, k], x[w], 'samples')
            t.eq(d['flatchain'][w * n + k], x[w], 'samples')
            t.eq(d['lnprobability'][w, k], lp[w], 'log_probabilities')
            t.eq(d['flatlnprobability'][w * n + k], lp[w], 'log_probabilities')
    t.check(d['nParam'] == nd and d['nWalkers'] == nw and d['nIter'] == nsteps, 'numbers_of_the_run')
    t.check(d['nCPU'] == (threads or 1), 'number_of_processes')
    t.eq(d['acceptance_fraction'], [.3, .4], 'acceptance')
    if fails:
        t.check(bool(np.isnan(d['acor_time'])), 'no_autocorrelation_time')
    else:
        t.eq(d['acor_time'], [4.] * nd, 'autocorrelation_time')
    # the fit that is kept with the samples: data and settings, own copies; the sampler's stays usable
    f = d['fitEmis2D']
    t.check(f is not X and f is not F, 'own_copy_of_the_fit')
    t.check(not hasattr(f.kinModel, 'aperModel') and hasattr(X.kinModel, 'aperModel'), 'sampled_fit_kept')
    t.eq(f.galaxy.spec2D.flux, F.galaxy.spec2D.flux, 'data_stored')
    t.eq(f.galaxy.q, F.galaxy.q, 'data_stored')
    t.eq(f.instrument.pixscale, F.instrument.pixscale, 'data_stored')
    t.eq(f.thetaSettings.theta, full, 'settings_stored')
    t.check(f.mcmcOptions.nWalkers == F.mcmcOptions.nWalkers and f.kinModelOptions.nSubpixels == 1, 'settings_stored')
    f.galaxy.spec2D.flux[0, 0] = 9.
    f.thetaSettings.theta[0] = 1.
    f.kinModelOptions.nSubpixels = 5
    t.eq(F.galaxy.spec2D.flux[0, 0], 1., 'own_copy_of_the_fit')
    t.eq(X.kinModel.aperModel.galaxy.spec2D.flux[0, 0], 1., 'own_copy_of_the_fit')
    t.eq(F.thetaSettings.theta, full, 'own_copy_of_the_fit')
    t.check(F.kinModelOptions.nSubpixels == 1, 'own_copy_of_the_fit')


def results(t, repo, img=False):
    """the result that is saved: everything that was found, without what is only needed to fit"""
    np = t.np
    vary = [True, False, True, False, False]
    full = (120., .4, 60., .1, 0.)
    F = fit2d(t, repo, vary, full, bounds(t, vary, False))
    if img:
        F.instrument_img = K.instrument(repo, pixscale=.06)
    b, e = t.reals('best', 6, -9., 9.), t.reals('err', (6, 2), 0., 5.)
    R = F.mcmc_results
    R.bestfit_theta, R.err_theta_1sig, R.err_theta_2sig, R.percent_oppsign = b.copy(), e.copy(), 2. * e, np.ones(6)
    R.theta_names = ['a']
    F.theta_linked_posteriors = [[0, 1]]
    F.linegroup_name = 'L'
    F.galaxy.spec2D.spec_hdr = 'header'
    r = F.make_pruned_fitEmis2D_result_class()
    t.eq(r.mcmc_results.bestfit_theta, b, 'best_fit_stored')
    t.eq(r.mcmc_results.err_theta_1sig, e, 'errors_stored')
    t.eq(r.mcmc_results.err_theta_2sig, 2. * e, 'errors_stored')
    t.eq(r.mcmc_results.percent_oppsign, np.ones(6), 'errors_stored')
    t.check(r.mcmc_results.theta_names == ['a'] and r.theta_linked_posteriors == [[0, 1]] and r.linegroup_name == 'L', 'settings_stored')
    t.eq(r.galaxy.spec2D.flux, F.galaxy.spec2D.flux, 'data_stored')
    t.eq(r.restwave_arr, F.restwave_arr, 'lines_stored')
    t.eq(r.flux_ratio_arr, F.flux_ratio_arr, 'lines_stored')
    t.eq(r.thetaSettings.theta, full, 'settings_stored')
    t.eq([x for q in r.thetaPrior.theta_bounds for x in q], [x for q in F.thetaPrior.theta_bounds for x in q], 'settings_stored')
    t.check((r.instrument_img is None) == (not img), 'instrument_stored')
    t.eq(r.instrument.pixscale, .2, 'instrument_stored')
    t.check(F.galaxy.pstamp == 5 and F.galaxy.spec2D.spec_hdr == 'header', 'fit_kept')
    t.check(not hasattr(r.galaxy, 'pstamp') and not hasattr(r.galaxy.spec2D, 'spec_hdr'), 'image_and_header_dropped')
    t.check(not hasattr(r, 'sampler_dict') and not hasattr(r, 'kinModel'), 'chains_and_model_dropped')
    r.mcmc_results.bestfit_theta[0] = 99.
    r.galaxy.spec2D.flux[0, 0] = 99.
    r.thetaSettings.theta[0] = 99.
    if img:
        r.instrument_img.pixscale = 9.
        t.eq(F.instrument_img.pixscale, .06, 'own_copy')
    t.eq(F.mcmc_results.bestfit_theta, b, 'own_copy')
    t.eq(F.galaxy.spec2D.flux[0, 0], 1., 'own_copy')
    t.eq(F.thetaSettings.theta, full, 'own_copy')


def whole(t, repo, vary=(1, 0, 1, 0, 0), linked=None, load='sampler', plot=False):
    """fit, save, load again in a new session: the same best fit, errors and model parameters"""
    np = t.np
    vary = [bool(v) for v in vary]
    nd, nw, nsteps = sum(vary), 2, 2
    full = (120., .4, 60., .1, 0.)
    b = bounds(t, vary, False)
    lo = [100., .3, 40., -.4, .001]
    free = [i for i in range(5) if vary[i]]
    mc = repo.mc
    mid = [lo[i] + .1 for i in free]
    XX = {}

    def hook(s, k):
        if (id(s), k) not in XX:
            v = []
            for w in range(nw):
                v.append([lo[i] + .2 * (w + nw * k) + t.real('x%d_%d_%d' % (k, w, i), 0., .01) for i in free])
            XX[id(s), k] = (t.arr(v), t.reals('lp%d' % k, nw, -1e3, 0.))
        return XX[id(s), k]
    mc.start(t, hook, lambda s, k: np.array([.3, .4]), lambda s, k: np.array([4.] * nd))
    order = []

    def peak(data, x0):
        order.append('peak')
        if np.ndim(data) == 1:
            return [data[0] + .5 * (data[-1] - data[0])]
        return [data[j][0] + .25 * (data[j][-1] - data[j][0]) for j in range(len(x0))]
    repo.kde.start(t, peak)
    plots = []
    for n in ('plot_bestfit_model', 'plot_param_corner', 'plot_trace'):
        setattr(repo.f2.misfit_plot, n, (lambda n: lambda *a, **k: plots.append(n))(n))

    def new():
        F = fit2d(t, repo, vary, full, b)
        F.kinModel = None
        F.thetaSettings.theta_linked_posteriors = linked
        o = F.mcmcOptions
        o.nWalkers, o.nSteps, o.nBurn, o.nCPUs, o.filename_sampler_h5 = nw, nsteps, 1, 1, 'h5'
        o.filename_sampler, o.filename_bestfit_model = D.path('sampler'), D.path('best')
        return F

    def made(F):
        """models evaluated, by their parameters"""
        real = repo.km.KinModel2D.make_model
        log = []

        def make_model(self, *a, **k):
            log.append(k.get('theta_fitting', a[2] if len(a) > 2 else None))
            if len(log) <= keep[0]:
                return real(self, *a, **k)
            self.update_parameters(theta_fitting=log[-1])
        repo.km.KinModel2D.make_model = make_model
        return log, real
    with Disk() as D, rnd.numbers(t, uniform=lambda k: .5), histogram(t, 25):
        F = new()
        keep = [99 if not t.symbolic else 2]
        log, real = made(F)
        try:
            F.fit()
        finally:
            repo.km.KinModel2D.make_model = real
        R = F.mcmc_results
        flat = F.sampler_dict['flatchain']
        t.check(np.shape(flat) == (nw * nsteps, nd + 4), 'samples_of_the_run')
        best = [flat[0, j] + .5 * (flat[-1, j] - flat[0, j]) for j in range(nd)]
        for s in linked or []:
            for j in s:
                best[j] = flat[0, j] + .25 * (flat[-1, j] - flat[0, j])
        t.eq(R.bestfit_theta[:nd], best, 'best_fit')
        t.eq(log[-1], best, 'model_at_the_best_fit')
        it = iter(best)
        t.eq(F.kinModel.theta, [next(it) if v else f for v, f in zip(vary, full)], 'model_at_the_best_fit')
        t.check(sorted(set(plots)) == ['plot_bestfit_model', 'plot_param_corner'], 'plotted')
        t.check(len(D.data) == 2, 'saved')
        # a new session
        G = new()
        t.check(G.mcmc_results.bestfit_theta is None, 'new_session')
        if load == 'sampler':
            log, real = made(G)
            keep[0] = 1
            del plots[:]
            try:
                G.reload_results(doPlot=plot)
            finally:
                repo.km.KinModel2D.make_model = real
            t.eq(log[-1], best, 'same_model_when_loaded')
            t.eq(G.sampler_dict['flatchain'], flat, 'same_samples_when_loaded')
            t.check(bool(plots) == plot, 'plotted')
        else:
            G.reload_bestfit_model()
        t.eq(G.mcmc_results.bestfit_theta, R.bestfit_theta, 'same_best_fit_when_loaded')
        t.eq(G.mcmc_results.err_theta_1sig, R.err_theta_1sig, 'same_errors_when_loaded')
        t.eq(G.mcmc_results.err_theta_2sig, R.err_theta_2sig, 'same_errors_when_loaded')
        t.eq(G.mcmc_results.percent_oppsign, R.percent_oppsign, 'same_errors_when_loaded')
        t.eq(G.mcmc_results.bestfit_theta_fitting, best, 'same_best_fit_when_loaded')
        t.check(G.mcmc_results.theta_names == R.theta_names, 'same_best_fit_when_loaded')


def refused(t, repo):
    np = t.np
    vary = [True, False, True, False, False]
    F = fit2d(t, repo, vary, (120., .4, 60., .1, 0.), bounds(t, vary, False))
    F.instrument.instrument_resolution = t.real('R', -99., -.001)
    F.run_mcmc = lambda *a: t.check(False, 'not_run')
    t.raises(ValueError, F.fit, 'negative_resolution_refused')


HARNESSES = [
    dict(name='stored', fn=stored, configs=[dict(), dict(nburn=1, nsteps=4, vary=[1, 1, 1, 0, 0]), dict(nburn=2, vary=[0, 0, 1, 0, 0]), dict(default=True, nsteps=2, threads=3),
                                            dict(fails=True, nburn=1)]),
    dict(name='results', fn=results, configs=[dict(), dict(img=True)]),
    dict(name='whole', fn=whole, configs=[dict(), dict(vary=[1, 1, 1, 0, 0], linked=[[0, 1]], plot=True), dict(load='best', linked=[[0, 1]]), dict(vary=[0, 0, 1, 0, 0])],
         must_reach=['best_fit', 'same_errors_when_loaded']),
    dict(name='refused', fn=refused),
]
